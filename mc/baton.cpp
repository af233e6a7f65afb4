// Compiled without any sanitizer: the hand-over uses raw futex calls and is invisible to ThreadSanitizer.
#include "baton.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdint>
#include <cstring>
#include <linux/futex.h>
#include <set>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
extern "C" char __data_start, _end;
namespace baton {
struct T { long n, at; bool trace, on; };
static T ts[4]; static int N; static volatile int word[4], finished[4], started[4]; static __thread T* me; static __thread int mine;
struct Loc { uintptr_t pc; long first, second, last; };
static std::vector<long>* hot; static Loc* seen; static const size_t SEEN = 1 << 15;
static void fwait(volatile int* w, int v, const timespec* t) { syscall(SYS_futex, w, FUTEX_WAIT, v, t, nullptr, 0); }
static void fwake(volatile int* w) { syscall(SYS_futex, w, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0); }
static void give(int id) { __atomic_store_n(&word[id], 1, __ATOMIC_SEQ_CST); fwake(&word[id]); }
void init(int n) { N = n; memset(ts, 0, sizeof ts); for (int i = 0; i < 4; i++) word[i] = finished[i] = started[i] = 0; hot = new std::vector<long>; seen = new Loc[SEEN](); }
void start() { started[0] = 1; give(0); }
void enter(int id, long at, bool trace) { ts[id].at = at; ts[id].trace = trace; ts[id].n = 0; mine = id; me = &ts[id]; me->on = false; }
void wait_turn(int id) { while (!__atomic_load_n(&word[id], __ATOMIC_SEQ_CST)) fwait(&word[id], 0, nullptr); me->on = me->trace || me->at >= 0; }
void leave(int) { me->on = false; }
static bool gone(int id) { return __atomic_load_n(&finished[id], __ATOMIC_SEQ_CST); }
static void hand_over(int id, bool fresh) { // a thread that has not begun yet (when the baton is given up early), else the lowest unfinished one
    if (fresh) for (int i = 0; i < N; i++) if (i != id && !started[i]) { started[i] = 1; give(i); return; }
    for (int i = 0; i < N; i++) if (i != id && !gone(i)) { started[i] = 1; give(i); return; } }
// stop; go on when the baton comes back, or when nobody makes progress because the others wait for something this thread holds
static void preempt(int id) { bool others = false; for (int i = 0; i < N; i++) if (i != id && !gone(i)) others = true; if (!others) return; __atomic_store_n(&word[id], 0, __ATOMIC_SEQ_CST); hand_over(id, true);
    for (int i = 0; i < 15 && !__atomic_load_n(&word[id], __ATOMIC_SEQ_CST); i++) { timespec t = {0, 10000000}; fwait(&word[id], 0, &t); } }
void done(int id) { __atomic_store_n(&finished[id], 1, __ATOMIC_SEQ_CST); hand_over(id, false); }
long points(int id) { return ts[id].n; }
const std::vector<long>& interesting() { return *hot; }
void exit_process() { _exit(0); }
static bool visit(uintptr_t pc, long n) { size_t h = (pc * 0x9e3779b97f4a7c15ull) >> 49; for (size_t i = 0; i < SEEN; i++) { Loc& s = seen[(h + i) & (SEEN - 1)]; if (s.pc == pc) { if (!s.second) s.second = n; s.last = n; return false; } if (!s.pc) { s.pc = pc; s.first = n; s.second = 0; s.last = 0; return true; } } return false; }
std::vector<long> places() { std::set<long> r; for (size_t i = 0; i < SEEN; i++) if (seen[i].pc) { r.insert(seen[i].first); if (seen[i].second) r.insert(seen[i].second); if (seen[i].last) r.insert(seen[i].last); } return std::vector<long>(r.begin(), r.end()); }
enum Kind { BLOCK, ENTRY, ACCESS };
static inline __attribute__((always_inline)) void point(Kind k, uintptr_t pc, bool shared) {
    T* t = me; if (!t || !t->on) return; long n = ++t->n;
    if (t->trace) { t->on = false; bool f = visit(pc, n); if (shared || (k == ENTRY && f)) hot->push_back(n); t->on = true; return; }
    if (n == t->at) { t->on = false; preempt(mine); }
}
static inline bool isstatic(uintptr_t a) { return a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end; }
}
using namespace baton;
extern "C" {
#define PC (uintptr_t)__builtin_return_address(0)
void __sanitizer_cov_trace_pc(void) { point(BLOCK, PC, false); }
void __cyg_profile_func_enter(void* f, void*) { point(ENTRY, (uintptr_t)f, false); }
void __cyg_profile_func_exit(void*, void*) {}
#define A(n) void __sanitizer_cov_load##n(void* p) { point(ACCESS, PC, isstatic((uintptr_t)p)); } void __sanitizer_cov_store##n(void* p) { point(ACCESS, PC, isstatic((uintptr_t)p)); }
A(1) A(2) A(4) A(8) A(16)
}
