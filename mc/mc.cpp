#include "mc.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <sys/resource.h>

namespace mc {

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
    h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    return h;
}
std::string fmt(const char* f, ...) {
    char b[1024]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
    if (n < 0) abort();
    if ((size_t)n < sizeof b) return std::string(b, (size_t)n);
    std::string s((size_t)n + 1, 0); va_start(a, f); vsnprintf(&s[0], s.size(), f, a); va_end(a); s.resize((size_t)n); return s;
}
std::string show(const std::string& s, size_t max) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); i++) {
        if (o.size() > max) { o += fmt("\"...(%zu octets)", s.size()); return o; }
        // run-length for long runs
        size_t r = 1; while (i + r < s.size() && s[i + r] == s[i]) r++;
        unsigned char c = (unsigned char)s[i];
        std::string e;
        if (c == '\r') e = "\\r"; else if (c == '\n') e = "\\n"; else if (c == '\t') e = "\\t";
        else if (c == '"' || c == '\\') { e = "\\"; e += (char)c; }
        else if (c < 0x20 || c >= 0x7f) e = fmt("\\x%02x", c); else e = std::string(1, (char)c);
        if (r > 12) { o += e + fmt("{x%zu}", r); i += r - 1; } else o += e;
    }
    return o + "\"";
}

static double now() { // never the virtual clock
    struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

enum { MAXPATH = 1 << 14, MAXOWN = 1 << 22, MAXW = 64, MAXSAMPLE = 6 };

struct WShared {
    std::atomic<uint64_t> execs, serial;
    std::atomic<double> started;     // start of the current execution, 0 = idle
    std::atomic<int> n;
    int path[MAXPATH];
    std::atomic<int> has_violation;
    int vn; int vpath[MAXPATH]; char vkey[128]; char vmsg[6000];
    uint64_t transitions, traces, maxdepth, points, rechecked;
    int done, capped, nondet, setfull;
    char samples[MAXSAMPLE][1600]; int nsamples;
    struct { char key[128]; char msg[1500]; uint64_t count; } known[32]; int nknown;
};
struct Shared {
    std::atomic<int> stop;
    std::atomic<double> deadline; std::atomic<uint64_t> wasted;
    WShared w[MAXW];
    std::atomic<unsigned char> own[MAXOWN];
};

// what a worker has executed, newest last: a bug that keeps state in the process shows only after other executions
struct Ring { std::atomic<uint64_t> pos; enum { N = 1 << 18 }; int v[N];
    void add(const std::vector<Ctx::Point>& p, size_t n) { uint64_t at = pos.load(std::memory_order_relaxed); if (n > 4000) n = 0; for (size_t i = 0; i < n; i++) v[at++ % N] = p[i].chosen; v[at++ % N] = (int)n; pos.store(at, std::memory_order_relaxed); }
    std::vector<std::vector<int>> get() const { std::vector<std::vector<int>> r; uint64_t e = pos.load(), lo = e > N ? e - N : 0, at = e; while (at > lo) { uint64_t n = (uint64_t)v[(at - 1) % N]; if (at - 1 < lo + n) break; at -= n + 1; std::vector<int> p; for (uint64_t i = 0; i < n; i++) p.push_back(v[(at + i) % N]); r.push_back(p); } std::reverse(r.begin(), r.end()); return r; } };
static Ring* g_ring;                 // one per worker

struct HashSet {                     // simple open addressing set of 64-bit hashes
    std::vector<uint64_t> t; size_t n = 0; bool full = false; size_t cap = 1u << 23;
    HashSet() : t(1 << 12, 0) {}
    void add(uint64_t h) {
        if (full) return;
        if (!h) h = 1;
        size_t m = t.size() - 1, i = h & m;
        while (t[i]) { if (t[i] == h) return; i = (i + 1) & m; }
        t[i] = h; n++;
        if (n * 2 > t.size()) {
            if (t.size() >= cap) { full = true; return; }
            std::vector<uint64_t> o(t.size() * 2, 0); o.swap(t);
            for (uint64_t v : o) if (v) { size_t mm = t.size() - 1, j = v & mm; while (t[j]) j = (j + 1) & mm; t[j] = v; }
        }
    }
};

struct Worker {
    int id = 0; WShared* sh = nullptr; Shared* all = nullptr;
    int split = 3; uint64_t splitcount = 0; bool counting = true;
    HashSet states, outcomes;
    std::set<std::string> knownkeys;
    bool replaying = false;
    std::string outcome_samples;
};

int Ctx::next(int n, int cost, const char* label) {
    if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); abort(); }
    if (pos < path.size()) {
        Point& p = path[pos];
        if (p.n != n && !(w && w->replaying && p.n < 0)) {
            // divergence while replaying a prefix is a hard error of the harness
            fprintf(stderr, "mc: divergence at decision %zu: %d alternatives now, %d before (%s)\n", pos, n, p.n, label ? label : "");
            _exit(77);
        }
        if (p.n < 0) p.n = n;
        if (p.chosen >= n) { fprintf(stderr, "mc: replay choice out of range\n"); _exit(77); }
        p.cost = cost;
        if (p.chosen) used += cost;
    } else {
        if (w && !w->replaying && pos == (size_t)w->split) {
            // hand each subtree to whichever worker gets here first
            uint64_t idx = w->splitcount++;
            bool mine;
            if (idx < MAXOWN) { unsigned char z = 0; mine = w->all->own[idx].compare_exchange_strong(z, 1); }
            else mine = (idx % 8) == (uint64_t)w->id % 8;
            if (!mine) throw Pruned();
        }
        path.push_back(Point{n, 0, cost});
        if (pos >= MAXPATH) { fprintf(stderr, "mc: path too long\n"); abort(); }
    }
    if (verbose) labels.push_back(label ? label : "");
    int c = path[pos].chosen;
    if (w && w->sh) { w->sh->path[pos] = c; w->sh->n.store((int)pos + 1, std::memory_order_relaxed); }
    pos++;
    return c;
}
int Ctx::choose(int n, const char* label) { if (n == 1) return 0; return next(n, 0, label); }
int Ctx::deviate(int n, const char* label, int cost) {
    if (n == 1) return 0;
    return next(n, cost, label);
}
std::string Ctx::word(const std::vector<std::string>& a, int minlen, int maxlen) {
    std::string s; int k = (int)a.size();
    for (int i = 0; i < maxlen; i++) {
        int c;
        if (i < minlen) c = 1 + choose(k); else c = choose(k + 1);
        if (!c) break;
        s += a[(size_t)c - 1];
    }
    return s;
}
void Ctx::state(uint64_t h) { if (w && w->counting) w->states.add(h); }
void Ctx::outcome(const std::string& s) {
    uint64_t h = hash_str(s); obs = obs * 31 + h;
    if (w && w->counting) w->outcomes.add(h);
}
void Ctx::sample(const std::string& s) {
    if (!w || !w->sh || !w->counting) return;
    WShared* sh = w->sh;
    // keep early, and exponentially spaced later samples
    uint64_t e = sh->execs.load();
    if (sh->nsamples < MAXSAMPLE && (e == 0 || (e & (e - 1)) == 0 || sh->nsamples == 0))
        snprintf(sh->samples[sh->nsamples++], sizeof sh->samples[0], "%s", s.c_str());
}
void Ctx::fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
void Ctx::eq(const std::string& got, const std::string& want, const char* key, const std::string& what) {
    if (got != want) fail(key, what + ": got " + show(got, 1500) + ", expected " + show(want, 1500));
}

static std::set<std::string> g_known;
static bool g_thorough;

enum Res { RS_OK, RS_PRUNED, RS_VIOL };
static Res run_one(const Phase& ph, Ctx& c, Violation& v) {
    c.pos = 0; c.used = 0; c.obs = 0; c.notes.clear(); c.labels.clear();
    if (c.w && c.w->sh) { c.w->sh->n.store(0); c.w->sh->started.store(now()); }
    Res r = RS_OK;
    try { ph.body(c); }
    catch (Pruned&) { r = RS_PRUNED; }
    catch (Violation& e) { v = e; r = RS_VIOL; }
    catch (std::exception& e) {
        int st; char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        v = Violation{"exception", std::string("unexpected exception ") + (d ? d : typeid(e).name()) + ": " + e.what()};
        free(d); r = RS_VIOL;
    }
    catch (...) { v = Violation{"exception", "unexpected exception of unknown type"}; r = RS_VIOL; }
    if (c.w && c.w->sh) { c.w->sh->started.store(0); if (g_ring) g_ring[c.w->id].add(c.path, std::min(c.pos, c.path.size())); }
    return r;
}

static bool backtrack(Ctx& c, int bound) {
    // truncate to what was actually used, then advance the last decision that still can
    c.path.resize(std::min(c.path.size(), std::max(c.pos, (size_t)0)));
    int used = 0; std::vector<int> before(c.path.size());
    for (size_t i = 0; i < c.path.size(); i++) { before[i] = used; if (c.path[i].chosen) used += c.path[i].cost; }
    while (!c.path.empty()) {
        Ctx::Point& p = c.path.back(); size_t i = c.path.size() - 1;
        if (p.chosen + 1 < p.n && before[i] + p.cost <= bound) { p.chosen++; return true; }
        c.path.pop_back();
    }
    return false;
}

static void worker_main(const Phase& ph, Shared* S, int id, const std::string& tmp) {
    Worker w; w.id = id; w.sh = &S->w[id]; w.all = S; w.split = ph.split; w.knownkeys = g_known;
    Ctx c; c.w = &w; c.bound = ph.bound; c.thorough = g_thorough;
    uint64_t n = 0;
    while (true) {
        if (S->stop.load(std::memory_order_relaxed)) break;
        if ((n++ & 63) == 0 && now() > S->deadline.load()) { w.sh->capped = 1; break; }
        uint64_t tr0 = c.transitions, va0 = c.traces;
        Violation v; Res r = run_one(ph, c, v);
        size_t depth = c.pos;
        if (r != RS_PRUNED) {
            // an execution shorter than the split depth is seen by every worker: count it once
            bool mine = depth > (size_t)w.split;
            if (!mine) { uint64_t idx = w.splitcount++; unsigned char z = 0;
                mine = idx < MAXOWN ? S->own[idx].compare_exchange_strong(z, 1) : id == 0; if (!mine) { c.transitions = tr0; c.traces = va0; S->wasted++; } }
            if (mine) {
                w.sh->execs++; w.sh->points += depth; if (depth > w.sh->maxdepth) w.sh->maxdepth = depth;
                if (r == RS_VIOL) {
                    if (w.knownkeys.count(v.key)) {
                        int k = 0; for (; k < w.sh->nknown; k++) if (v.key == w.sh->known[k].key) break;
                        if (k == w.sh->nknown && k < 32) { w.sh->nknown++; snprintf(w.sh->known[k].key, 128, "%s", v.key.c_str()); snprintf(w.sh->known[k].msg, 1500, "%s", v.msg.c_str()); }
                        if (k < 32) w.sh->known[k].count++;
                    } else {
                        w.sh->vn = (int)depth; for (size_t i = 0; i < depth; i++) w.sh->vpath[i] = c.path[i].chosen;
                        snprintf(w.sh->vkey, sizeof w.sh->vkey, "%s", v.key.c_str());
                        snprintf(w.sh->vmsg, sizeof w.sh->vmsg, "%s", v.msg.c_str());
                        w.sh->has_violation.store(1); S->stop.store(1);
                        break;
                    }
                }
                uint64_t e = w.sh->execs.load();
                if (r == RS_OK && (e <= 20 || (e & 1023) == 0)) {   // determinism: same decisions, same observations
                    uint64_t o = c.obs, t = c.transitions, tr = c.traces; size_t d = c.pos;
                    w.counting = false; Violation v2; Res r2 = run_one(ph, c, v2); w.counting = true;
                    c.transitions = t; c.traces = tr; w.sh->rechecked++;
                    if (r2 == RS_VIOL && !w.knownkeys.count(v2.key)) { // the second time it fails: state is left behind
                        w.sh->vn = (int)depth; for (size_t i = 0; i < depth; i++) w.sh->vpath[i] = c.path[i].chosen;
                        snprintf(w.sh->vkey, sizeof w.sh->vkey, "%s", v2.key.c_str()); snprintf(w.sh->vmsg, sizeof w.sh->vmsg, "%s", v2.msg.c_str());
                        w.sh->has_violation.store(1); S->stop.store(1); break;
                    }
                    if (r2 != RS_OK || c.obs != o || c.pos != d) { w.sh->nondet = 1;
                        fprintf(stderr, "mc: nondeterministic execution in phase %s (%s)\n", ph.name.c_str(), v2.msg.c_str()); S->stop.store(1); break; }
                }
            }
        }
        if (!backtrack(c, ph.bound)) break;
    }
    w.sh->transitions = c.transitions; w.sh->traces = c.traces; w.sh->setfull = w.states.full;
    for (int k = 0; k < 2; k++) {
        HashSet& hs = k ? w.outcomes : w.states;
        FILE* f = fopen((tmp + (k ? "/o" : "/s") + std::to_string(id)).c_str(), "wb");
        if (f) { for (uint64_t h : hs.t) if (h) fwrite(&h, 8, 1, f); fclose(f); }
    }
    w.sh->done = 1;
}

struct ReplayResult { int status; bool viol = false, hang = false, crash = false; std::string key, msg, err, notes; std::vector<int> path; };

// run one decision sequence in a child process
static ReplayResult replay(const Phase& ph, const std::vector<int>& path, double limit, const std::string& tmp, bool verbose, const std::vector<std::vector<int>>* before = nullptr) {
    ReplayResult rr; rr.path = path;
    std::string out = tmp + "/replay.out", errf = tmp + "/replay.err";
    unlink(out.c_str());
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); dup2(fd, 1);
        Worker w; w.replaying = true; w.counting = false;
        if (before) for (auto& b : *before) { Ctx c; c.w = &w; c.bound = 1 << 30; c.thorough = g_thorough; for (int x : b) c.path.push_back(Ctx::Point{-1, x, 0}); Violation v; run_one(ph, c, v); }
        Ctx c; c.w = &w; c.bound = 1 << 30; c.verbose = verbose; c.thorough = g_thorough;
        for (int x : path) c.path.push_back(Ctx::Point{-1, x, 0});
        Violation v; Res r = run_one(ph, c, v);
        FILE* f = fopen(out.c_str(), "wb");
        fprintf(f, "%s\n", r == RS_VIOL ? "VIOL" : "OK");
        fprintf(f, "%s\n", v.key.c_str());
        fprintf(f, "%zu", c.pos); for (size_t i = 0; i < c.pos; i++) fprintf(f, " %d", c.path[i].chosen);
        fprintf(f, "\n%zu\n%s%zu\n", v.msg.size(), v.msg.c_str(), c.notes.size());
        for (auto& s : c.notes) fprintf(f, "%s\n", s.c_str());
        fclose(f);
        _exit(0);
    }
    double t0 = now(); int st = 0; bool killed = false;
    while (true) {
        pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) break;
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; }
        usleep(500);
    }
    rr.status = st;
    { std::ifstream e(errf); std::stringstream ss; ss << e.rdbuf(); rr.err = ss.str(); }
    if (killed) { rr.hang = true; return rr; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        FILE* f = fopen(out.c_str(), "rb"); char buf[256];
        if (!f) { rr.crash = true; return rr; }
        if (!fgets(buf, sizeof buf, f)) buf[0] = 0;
        rr.viol = !strncmp(buf, "VIOL", 4);
        if (fgets(buf, sizeof buf, f)) { rr.key = buf; while (!rr.key.empty() && rr.key.back() == '\n') rr.key.pop_back(); }
        size_t n = 0; if (fscanf(f, "%zu", &n) != 1) n = 0; rr.path.clear();
        for (size_t i = 0; i < n; i++) { int x = 0; if (fscanf(f, "%d", &x) != 1) break; rr.path.push_back(x); }
        if (fscanf(f, "%zu", &n) != 1) n = 0;
        fgetc(f); rr.msg.resize(n); if (n && fread(&rr.msg[0], 1, n, f) != n) {}
        std::string rest; int ch; while ((ch = fgetc(f)) != EOF) rest += (char)ch;
        size_t nl = rest.find('\n'); rr.notes = nl == std::string::npos ? "" : rest.substr(nl + 1);
        fclose(f);
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { rr.crash = false; rr.viol = false; }
    else rr.crash = true;
    return rr;
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o + "\"";
}

}  // namespace mc

using namespace mc;

extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:malloc_context_size=12"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

int main(int argc, char** argv) {
    std::string out, repdir = ".", tmp, replayfile, only;
    int workers = 8; double budget = 300;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") g_thorough = val() == "thorough";
        else if (a == "--out") out = val();
        else if (a == "--replays") repdir = val();
        else if (a == "--tmp") tmp = val();
        else if (a == "--workers") workers = std::min((int)MAXW, atoi(val().c_str()));
        else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--known") g_known.insert(val());
        else if (a == "--replay") replayfile = val();
        else if (a == "--phase") only = val();
    }
    if (tmp.empty()) { char t[] = "/tmp/mcXXXXXX"; tmp = mkdtemp(t); }
    std::vector<Phase> ph; phases(ph, g_thorough);

    if (!replayfile.empty()) {
        std::ifstream f(replayfile); std::string line, name; std::vector<int> path; std::vector<std::vector<int>> before;
        while (std::getline(f, line)) {
            if (line.compare(0, 7, "phase: ") == 0) name = line.substr(7);
            if (line.compare(0, 7, "before:") == 0) { std::stringstream ss(line.substr(7)); int x; before.emplace_back(); while (ss >> x) before.back().push_back(x); }
            if (line.compare(0, 9, "choices: ") == 0) { std::stringstream ss(line.substr(9)); int x; while (ss >> x) path.push_back(x); }
        }
        for (auto& p : ph) if (p.name == name) {
            ReplayResult r = replay(p, path, 120, tmp, true, &before);
            printf("%s\n", r.notes.c_str());
            if (r.hang) { printf("replay: HANG\n"); return 1; }
            if (r.crash) { printf("replay: CRASH status=%d\n%s\n", r.status, r.err.c_str()); return 1; }
            printf("replay: %s %s %s\n", r.viol ? "VIOLATION" : "ok", r.key.c_str(), r.msg.c_str());
            return r.viol ? 1 : 0;
        }
        printf("no such phase\n"); return 2;
    }

    double T0 = now(); std::string json; int rc = 0; bool violated = false; uint64_t total = 0;
    std::map<std::string, std::pair<std::string, uint64_t>> known;
    size_t left = ph.size(); bool first = true;
    Shared* S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    for (auto& p : ph) {
        size_t rem = left--; (void)rem;
        if (!only.empty() && p.name != only) continue;
        madvise(S, sizeof(Shared), MADV_REMOVE);
        memset((void*)S, 0, sizeof(Shared));
        if (!g_ring) { g_ring = (Ring*)mmap(nullptr, sizeof(Ring) * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g_ring == MAP_FAILED) { perror("mmap"); return 2; } }
        for (int i = 0; i < MAXW; i++) if (g_ring[i].pos.load()) g_ring[i].pos.store(0);
        double t0 = now();
        double b = p.budget_s > 0 ? p.budget_s : budget - (t0 - T0);
        S->deadline.store(std::min(t0 + b, T0 + budget));
        int W = p.workers ? std::min(p.workers, workers) : workers;
        std::vector<pid_t> pid(W); fflush(stdout); fflush(stderr);
        for (int i = 0; i < W; i++) {
            pid[i] = fork();
            if (pid[i] == 0) {
                int fd = open((tmp + "/w" + std::to_string(i) + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                dup2(fd, 1); dup2(fd, 2);
                worker_main(p, S, i, tmp); fflush(stderr); _exit(0);
            }
        }
        int alive = W; struct Cand { std::vector<int> path; std::string key, msg; std::string kind; int worker; };
        std::vector<Cand> cands; bool err = false; std::string errmsg;
        std::vector<bool> gone(W, false);
        while (alive) {
            for (int i = 0; i < W; i++) if (!gone[i]) {
                int st; pid_t q = waitpid(pid[i], &st, WNOHANG); WShared& w = S->w[i];
                if (q == pid[i]) {
                    gone[i] = true; alive--;
                    if (w.has_violation) cands.push_back(Cand{std::vector<int>(w.vpath, w.vpath + w.vn), w.vkey, w.vmsg, "violation", i});
                    else if (w.nondet) { err = true; errmsg = "nondeterministic execution"; }
                    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { err = true; errmsg = "divergence while replaying a prefix"; }
                    else if (!w.done) {
                        int n = w.n.load(); cands.push_back(Cand{std::vector<int>(w.path, w.path + n), "crash", fmt("worker died, status %d", st), "crash", i});
                        S->stop.store(1);
                    }
                } else {
                    double s = w.started.load();
                    if (s > 0 && now() - s > p.exec_limit_s) {
                        int n = w.n.load(); cands.push_back(Cand{std::vector<int>(w.path, w.path + n), "hang", "an execution does not terminate", "hang", i});
                        kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); gone[i] = true; alive--; S->stop.store(1);
                    }
                }
            }
            usleep(1000);
        }
        // confirm by replay in a fresh process, then shrink
        if (!cands.empty()) {
            std::stable_sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return a.path.size() < b.path.size(); });
            bool confirmed = false; std::string all;
            for (auto& c : cands) {
                double lim = c.kind == "hang" ? std::max(60.0, 4 * p.exec_limit_s) : 120;
                ReplayResult r = replay(p, c.path, lim, tmp, true);
                auto bad = [&](const ReplayResult& x) {
                    if (c.kind == "hang") return x.hang;
                    if (x.hang || x.crash) return true;
                    return x.viol && !g_known.count(x.key); };
                if (!bad(r)) { all += fmt("unconfirmed %s (%s): %s\n", c.kind.c_str(), c.key.c_str(), c.msg.c_str()); continue; }
                std::vector<int> best = c.path;
                if (c.kind != "hang") {
                    double ts = now();
                    for (size_t i = 0; i < best.size() && now() - ts < 20 && best.size() < 400; i++) {
                        for (int nv : {0, best[i] / 2, best[i] - 1}) {
                            if (nv < 0 || nv >= best[i]) continue;
                            auto t = best; t[i] = nv;
                            ReplayResult x = replay(p, t, 30, tmp, false);
                            if (bad(x) && x.path.size() <= best.size()) { best = x.path.empty() ? t : x.path; break; }
                        }
                    }
                    r = replay(p, best, lim, tmp, true);
                    if (!bad(r)) { best = c.path; r = replay(p, best, lim, tmp, true); }
                }
                std::string kind = r.hang ? "hang" : r.crash ? "crash" : r.key;
                std::string msg = r.hang ? "does not terminate" : r.crash ? fmt("crash (status %d)", r.status) + "\n" + r.err.substr(0, 6000) : r.msg;
                mkdir(repdir.c_str(), 0755);
                std::string pathstr; for (int x : best) pathstr += " " + std::to_string(x);
                std::string file = repdir + "/" + property_id + "-" + p.name + fmt("-%08x.txt", (unsigned)hash_str(pathstr + kind));
                std::ofstream f(file);
                f << "property: " << property_id << "\nphase: " << p.name << "\nkind: " << kind << "\nchoices:" << pathstr << "\n";
                if (pathstr.empty()) f << "\n";
                f << "message: " << msg << "\n--- trace ---\n" << r.notes << "\n";
                f.close();
                printf("phase %s: %s: %s\n%s", p.name.c_str(), kind.c_str(), msg.substr(0, 3000).c_str(), r.notes.substr(0, 4000).c_str());
                printf("\nVIOLATION property=%s replay=%s\n", property_id, file.c_str()); fflush(stdout);
                violated = true; confirmed = true; break;
            }
            // not alone: after what its worker had executed before it
            if (!confirmed) for (auto& c : cands) if (c.kind != "hang") {
                auto hist = g_ring[c.worker].get(); if (!hist.empty() && hist.back() == c.path && c.kind == "violation") hist.pop_back();
                if (hist.empty()) continue;
                auto tail = [&](size_t n) { return std::vector<std::vector<int>>(hist.end() - (long)std::min(n, hist.size()), hist.end()); };
                auto bad = [&](const std::vector<std::vector<int>>& h, ReplayResult* out) { ReplayResult x = replay(p, c.path, 200, tmp, out != nullptr, &h); bool b = !x.hang && (x.crash || (x.viol && !g_known.count(x.key))); if (out) *out = x; return b; };
                std::vector<std::vector<int>> h; bool found = false; for (size_t n = 1; !found; n = n < 8 ? n + 1 : n * 4) { h = tail(n); found = bad(h, nullptr); if (n >= hist.size()) break; }
                if (!found) continue;
                double ts = now(); while (h.size() > 1 && now() - ts < 30) { std::vector<std::vector<int>> a(h.begin(), h.begin() + (long)h.size() / 2), b(h.begin() + (long)h.size() / 2, h.end()); if (bad(a, nullptr)) h = a; else if (bad(b, nullptr)) h = b; else break; }
                ReplayResult r; if (!bad(h, &r)) continue;
                std::string kind = r.crash ? "crash" : r.key, msg = (r.crash ? fmt("crash (status %d)", r.status) + "\n" + r.err.substr(0, 6000) : r.msg) + fmt("\n(only after %zu other execution%s in the same process: state is left behind)", h.size(), h.size() == 1 ? "" : "s");
                mkdir(repdir.c_str(), 0755); std::string pathstr; for (int x : c.path) pathstr += " " + std::to_string(x);
                std::string file = repdir + "/" + property_id + "-" + p.name + fmt("-%08x.txt", (unsigned)hash_str(pathstr + kind)); std::ofstream f(file);
                f << "property: " << property_id << "\nphase: " << p.name << "\nkind: " << kind << "\n"; for (auto& b : h) { f << "before:"; for (int x : b) f << " " << x; f << "\n"; }
                f << "choices:" << pathstr << "\n" << (pathstr.empty() ? "\n" : "") << "message: " << msg << "\n--- trace ---\n" << r.notes << "\n"; f.close();
                printf("phase %s: %s: %s\n%s", p.name.c_str(), kind.c_str(), msg.substr(0, 3000).c_str(), r.notes.substr(0, 4000).c_str()); printf("\nVIOLATION property=%s replay=%s\n", property_id, file.c_str()); fflush(stdout); violated = true; confirmed = true; break;
            }
            if (confirmed) err = false;
            if (!confirmed) { err = true; errmsg = "a reported violation did not replay\n" + all; }
        }
        HashSet st, oc; st.cap = oc.cap = 1u << 26; uint64_t ex = 0, tr = 0, va = 0, md = 0, pts = 0, rec = 0; bool capped = false, setfull = false;
        std::vector<std::string> samples;
        for (int i = 0; i < W; i++) {
            WShared& w = S->w[i]; ex += w.execs; tr += w.transitions; va += w.traces; pts += w.points; rec += w.rechecked;
            md = std::max(md, w.maxdepth); capped |= w.capped; setfull |= w.setfull;
            for (int k = 0; k < w.nsamples && samples.size() < 5; k++) if (k < 2) samples.push_back(w.samples[k]);
            for (int k = 0; k < w.nknown; k++) { auto& e = known[w.known[k].key]; if (e.first.empty()) e.first = w.known[k].msg; e.second += w.known[k].count; }
            for (int k = 0; k < 2; k++) {
                std::string fn = tmp + (k ? "/o" : "/s") + std::to_string(i);
                FILE* f = fopen(fn.c_str(), "rb"); if (!f) continue;
                uint64_t buf[4096]; size_t n; while ((n = fread(buf, 8, 4096, f)) > 0) for (size_t j = 0; j < n; j++) (k ? oc : st).add(buf[j]);
                fclose(f); unlink(fn.c_str());
            }
        }
        total += ex;
        printf("phase %-22s executions=%llu states=%zu transitions=%llu validated=%llu outcomes=%zu bound=%d maxdepth=%llu %s%.1fs\n", p.name.c_str(),
               (unsigned long long)ex, st.n, (unsigned long long)tr, (unsigned long long)va, oc.n, p.bound, (unsigned long long)md, capped ? "CAPPED " : "", now() - t0);
        if (S->wasted.load() > 2 * W * 64) printf("  (%llu short executions repeated by several workers: lower the split depth)\n", (unsigned long long)S->wasted.load());
        fflush(stdout);
        if (err) {
            printf("ERROR phase %s: %s\n", p.name.c_str(), errmsg.c_str()); rc = 2;
            for (int i = 0; i < W; i++) { std::ifstream e(tmp + "/w" + std::to_string(i) + ".err"); std::string l; int k = 0; while (k++ < 20 && std::getline(e, l)) printf("  w%d: %s\n", i, l.c_str()); }
        }
        json += fmt("%s{\"phase\": %s, \"what\": %s, \"executions\": %llu, \"states\": %zu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu, \"distinct_outcomes\": %zu, \"decision_points\": %llu, \"max_depth\": %llu, \"deviation_bound\": %d, \"determinism_rechecks\": %llu, \"exhaustive\": %s, \"state_count_is_lower_bound\": %s, \"wall_s\": %.2f, \"samples\": [",
            first ? "" : ",\n", jstr(p.name).c_str(), jstr(p.what).c_str(), (unsigned long long)ex, st.n, (unsigned long long)tr, (unsigned long long)va, oc.n, (unsigned long long)pts, (unsigned long long)md, p.bound, (unsigned long long)rec,
            (capped || err || !cands.empty()) ? "false" : "true", (setfull || st.full) ? "true" : "false", now() - t0);
        for (size_t i = 0; i < samples.size(); i++) json += (i ? ", " : "") + jstr(samples[i]);
        json += "]}"; first = false;
        if (violated || err) break;
        if (ex == 0 && !capped) { printf("ERROR phase %s explored nothing\n", p.name.c_str()); rc = 2; break; }
    }
    std::string kj; for (auto& k : known) { kj += (kj.empty() ? "" : ", ") + fmt("{\"key\": %s, \"count\": %llu, \"example\": %s}", jstr(k.first).c_str(), (unsigned long long)k.second.second, jstr(k.second.first).c_str()); }
    if (!out.empty()) {
        std::ofstream f(out);
        f << "{\"property\": " << jstr(property_id) << ", \"violations\": " << (violated ? 1 : 0) << ", \"executions\": " << total << ", \"known\": [" << kj << "], \"phases\": [" << json << "]}\n";
    }
    if (violated) return 1;
    return rc;
}
