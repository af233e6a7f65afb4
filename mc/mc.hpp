// Bounded exhaustive explorer ("stateless model checker") for sequential C++ code.
//
// A property is a list of phases.  A phase is a body that asks the explorer for every
// nondeterministic decision (input symbol, option value, environment answer, operation,
// preemption point) through choose()/deviate().  The explorer enumerates ALL decision
// sequences depth first (deviate() alternatives are limited by the deviation bound),
// running the real library code under each, in parallel worker processes.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <unordered_set>
#include <map>

namespace mc {

struct Pruned {};
struct Violation { std::string key, msg; };

uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 0xcbf29ce484222325ull);
inline uint64_t hash_str(const std::string& s, uint64_t seed = 0xcbf29ce484222325ull) { return hash_bytes(s.data(), s.size(), seed); }
std::string show(const std::string& s, size_t max = 400);          // printable form
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

class Ctx {
public:
    // every alternative is explored
    int choose(int n, const char* label = nullptr);
    // alternative 0 is the default; any other costs `cost` deviations (bounded per phase)
    int deviate(int n, const char* label = nullptr, int cost = 1);
    template <class T> const T& pick(const std::vector<T>& v, const char* label = nullptr) { return v[(size_t)choose((int)v.size(), label)]; }
    template <class T> const T& dev(const std::vector<T>& v, const char* label = nullptr) { return v[(size_t)deviate((int)v.size(), label)]; }
    // enumerate all strings over an alphabet of symbols, up to max symbols
    std::string word(const std::vector<std::string>& alphabet, int minlen, int maxlen);

    void note(const std::string& s) { if (verbose) notes.push_back(s); }
    // measured coverage
    void state(uint64_t h);                    // a distinct model state / configuration visited
    void state(const std::string& s) { state(hash_str(s)); }
    void transition(uint64_t n = 1) { transitions += n; }
    void validated(uint64_t n = 1) { traces += n; }   // a model trace compared with the implementation
    void outcome(const std::string& s);        // distinct observed outcomes (also feeds the determinism check)
    void sample(const std::string& s);         // a few concrete cases for the evidence file
    [[noreturn]] void fail(const std::string& key, const std::string& msg);
    void require(bool ok, const char* key, const std::string& msg) { if (!ok) fail(key, msg); }
    void eq(const std::string& got, const std::string& want, const char* key, const std::string& what);
    bool thorough = false;
    bool verbose = false;

    // ---- driver side
    struct Point { int n, chosen, cost; };
    std::vector<Point> path; size_t pos = 0; int used = 0, bound = 0;
    std::vector<std::string> notes, labels;
    uint64_t obs = 0;
    uint64_t transitions = 0, traces = 0;
    struct Worker* w = nullptr;
    int next(int n, int cost, const char* label);
};

struct Phase {
    std::string name;            // short identifier
    std::string what;            // what is enumerated (goes to the evidence file)
    std::function<void(Ctx&)> body;
    int bound = 0;               // deviation bound
    int split = 3;               // decisions after which a subtree is handed to one worker
    double budget_s = 0;         // 0 = share of the global budget
    double exec_limit_s = 20;    // a single execution longer than this is re-run alone as a hang suspect
    int workers = 0;             // 0 = default
};

// property-specific entry: fill the phases for the tier
void phases(std::vector<Phase>& out, bool thorough);
extern const char* property_id;

}  // namespace mc
