// C29: whatever the outcome of an operation, everything it acquired is released, and running out of memory is survived.
#include "cases.hpp"
#include "alloc.hpp"
#include "crypto.hpp"
#include "stream.hpp"
#include <fcntl.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <openssl/err.h>
#include <openssl/rand.h>
const char* mc::property_id = "C29";
static const char* const OOM = "out of memory";
static const string& expected(size_t i) { // and everything built on first use is built
    static vector<string> e; static vector<bool> have; if (e.empty()) { e.resize(cases().size()); have.resize(e.size()); } if (!have[i]) { env::clock_now = 1700000000; cases()[i].run(); e[i] = cases()[i].run(); have[i] = true; } return e[i]; }
// is `got` what is expected, save that observations ended in errors?  (allocates nothing)
static bool tolerable(const string& got, const string& want) {
    size_t a = 0, b = 0; bool differs = false; while (a < got.size() || b < want.size()) { size_t x = got.find(END, a), y = want.find(END, b); if (x == string::npos || y == string::npos) return false; bool same = x - a == y - b && got.compare(a, x - a, want, b, y - b) == 0; if (!same) { if (got[a] == '=') return false; if (got[a] == '[' && !differs) return false; differs = true; } else differs = false; a = x + 1; b = y + 1; } return true; }
// empties the thread's error queue of the crypto library, and the texts it keeps for reuse
static void clear_errors() { for (int k = 0; k < 16; k++) { ERR_new(); ERR_set_error_data((char*)"", ERR_TXT_STRING); } ERR_clear_error(); }
// random numbers that are the same in every run, for the number of allocations depends on them
static unsigned long rnd; static int random_octets(unsigned char* p, int n) { for (int i = 0; i < n; i++) { rnd = rnd * 6364136223846793005ul + 1442695040888963407ul; p[i] = (unsigned char)(rnd >> 56); } return 1; }
static void fixed_random() { static RAND_METHOD m = {nullptr, random_octets, nullptr, nullptr, random_octets, [] { return 1; }}; rnd = 1; static bool set; if (!set) { set = true; RAND_set_rand_method(&m); } }
static long fds() { long n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
struct Run { bool oom = false, ok = true, same = true; mem::Left left = {0, 0, 0, nullptr}; long files = 0, count = 0, hits = 0; string got; };
// one execution in the window; `arm` starts the failures and `disarm` ends them
static Run run(size_t i, const std::function<void()>& arm, const std::function<long()>& disarm, bool files = false) {
    const string& want = expected(i); Run r; static char text[3000]; text[0] = 0; env::clock_now = 1700000000; clear_errors(); fixed_random(); if (files) r.files = fds(); const auto& f = cases()[i].run; env::quiet = true; mem::track();
    { string got; bool done = false; arm(); try { got = f(); done = true; } catch (std::bad_alloc&) { r.oom = true; } catch (DKIM::PermanentError&) { r.oom = true; } catch (DKIM::TemporaryError&) { r.oom = true; } r.hits = disarm(); if (done) { r.same = got == want; r.ok = r.same || mem::streamed || tolerable(got, want); if (!r.ok) snprintf(text, sizeof text, "%s", got.c_str()); } clear_errors(); env::Dns none; std::swap(env::dns, none); }
    r.left = mem::untrack(); env::quiet = false; if (files) r.files = fds() - r.files; r.got = text; return r;
}
static void nothing() {} static long zero() { return 0; }
// the verdict on one execution: repeated when something is left, for what is built once is not lost
static Run judge(Ctx& c, size_t i, const string& id, const std::function<void()>& arm, const std::function<long()>& disarm, bool failing, bool files = false, bool leaks = true) {
    Run r = run(i, arm, disarm, files); c.transition(); c.validated(); c.note(id); c.state(id); c.sample(id + (r.oom ? " -> out of memory" : r.same ? " -> as always" : " -> error"));
    c.require(r.ok, "wrong", id + ": gave " + show(r.got, 3000) + " instead of " + show(expected(i), 3000)); if (!failing) c.require(r.same && !r.oom, "unaffected", id + ": the result differs without a failure"); else if (!r.hits) c.require(r.same && !r.oom, "unaffected", id + ": the result differs though nothing failed");
    if (leaks && (r.left.blocks || r.files)) { long least = r.left.blocks, lf = r.files; mem::Left l = r.left; for (int k = 0; k < 3; k++) { Run q = run(i, arm, disarm, files); c.transition(); if (q.left.blocks < least) { least = q.left.blocks; l = q.left; } lf = std::min(lf, q.files); } if (least) { void* tr[20]; int tid; size_t n = __asan_get_alloc_stack(l.at, tr, 20, &tid); for (size_t k = 0; k < n; k++) { char d[300]; __sanitizer_symbolize_pc(tr[k], "%f %S", d, sizeof d); c.note(string("  allocated by ") + d); } } c.require(!least, "left", id + fmt(": %ld blocks (%zu octets, the first %zu) are still allocated afterwards, every time", l.blocks, l.octets, l.first)); c.require(lf <= 0, "left", id + fmt(": %ld file descriptors are still open afterwards, every time", lf)); }
    c.outcome(r.oom ? "oom" : r.same ? "same" : "error"); return r;
}
// the operations for fault injection: all but most of the octet variants
static const vector<size_t>& picked(bool th) { static vector<size_t> v; if (v.empty()) for (size_t i = 0; i < cases().size(); i++) { const string& n = cases()[i].name; size_t o = n.find(" with octet "); if (n.compare(0, 16, "sign 1234567 oct") == 0) continue; if (o == string::npos || n.compare(o + 12, 2, "3b") == 0 || (th && strchr("049cf", n[o + 13]) && strchr("0237c", n[o + 12])) || n.compare(o + 12, 2, "e9") == 0) v.push_back(i); } return v; }
void mc::phases(vector<Phase>& out, bool th) {
    cases(); lib::K();
    { Phase p; p.name = "operations"; p.split = 0; p.what = fmt("each of %zu operations (signing, verification, discovery, key loading, lookups, every parser, codec and canonicalization; successful, refused and failing): nothing it allocated or opened remains", cases().size()); p.body = [](Ctx& c) { size_t i = (size_t)c.choose((int)cases().size()); judge(c, i, cases()[i].name, nothing, zero, false, true); }; out.push_back(p); }
    for (int kind : {(int)mem::NEW | (int)mem::FORMAT, (int)mem::CRYPTO}) { Phase p; p.name = kind & mem::NEW ? "memory" : "crypto-memory"; p.split = kind & mem::NEW || th ? 2 : 1; p.what = fmt("%zu operations with each of the allocations of %s failing alone%s: the results are errors or right, %sand the operation then gives its ordinary result", picked(th).size(), kind & mem::NEW ? "the library and the C++ runtime" : "the crypto library", th || kind & mem::NEW ? " and with all later ones" : "", kind & mem::NEW ? "nothing remains allocated, " : "");
        auto counts = std::make_shared<std::map<size_t, long>>(); for (size_t i : picked(th)) { run(i, nothing, zero); (*counts)[i] = run(i, [kind] { mem::arm(kind, -1, false); }, [] { long n = mem::count; mem::disarm(); return n; }).hits; }
        p.body = [kind, th, counts](Ctx& c) { size_t i = picked(th)[(size_t)c.choose((int)picked(th).size())]; const auto& N = *counts;
            long n = N.at(i); if (!n) throw Pruned(); int at = c.choose((int)n); bool sticky = (th || kind != mem::CRYPTO) && c.choose(2); judge(c, i, cases()[i].name + fmt(", allocation %d%s failing", at, sticky ? " and all later ones" : ""), [kind, at, sticky] { mem::arm(kind, at, sticky); }, [] { long h = mem::hits; mem::disarm(); return h; }, true, false, kind != mem::CRYPTO);
            string again = cases()[i].run(); c.transition(); c.eq(again, expected(i), "afterwards", cases()[i].name + fmt(" after allocation %d failed", at)); }; out.push_back(p); }
    { Phase p; p.name = "crypto"; p.split = 2; p.what = "those operations with each crypto call failing alone and with all later ones"; p.body = [th](Ctx& c) { size_t i = picked(th)[(size_t)c.choose((int)picked(th).size())]; static std::map<size_t, long> N; expected(i); if (!N.count(i)) { long n = 0; run(i, [] { faults::arm(); }, [&n] { n = faults::count; faults::disarm(); vector<string>().swap(faults::trace); return 0l; }); N[i] = n; }
            long n = N[i]; if (!n) throw Pruned(); int at = c.choose((int)n); bool sticky = c.choose(2); int mode = c.choose(2); judge(c, i, cases()[i].name + fmt(", crypto call %d%s failing, mode %d", at, sticky ? " and all later ones" : "", mode), [at, sticky, mode] { faults::arm(at, -1, sticky, mode); }, [] { long h = faults::hits; faults::disarm(); vector<string>().swap(faults::trace); return h; }, true); }; out.push_back(p); }
    { Phase p; p.name = "streams"; p.split = 2; p.what = "the operations on streams with a read error at every 7th offset of every pass"; p.body = [](Ctx& c) { static vector<size_t> W; if (W.empty()) for (size_t i = 0; i < cases().size(); i++) if (cases()[i].stream) W.push_back(i); size_t i = W[(size_t)c.choose((int)W.size())]; int at = c.choose(150) * 7, pass = c.choose(3); expected(i); auto arm = [at, pass] { tweak = [at, pass](std::istream& in) { auto* s = dynamic_cast<std::istringstream*>(&in); static std::unique_ptr<PlanBuf> b; b.reset(new PlanBuf(s->str())); b->fail_pass = pass; b->fail_at = (size_t)at; b->every = 5; in.rdbuf(b.get()); drop = [] { b.reset(); }; }; }; auto disarm = [] { tweak = nullptr; if (drop) drop(); drop = nullptr; return 1l; };
            judge(c, i, cases()[i].name + fmt(", read error at %d in pass %d", at, pass), arm, disarm, true); }; out.push_back(p); }
}
