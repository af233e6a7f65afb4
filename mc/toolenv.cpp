// Seams of the dkimtool executable: the clock is VERIF_CLOCK, the resolver answers from the
// table in the file VERIF_DNS (lines "name<TAB>kind<TAB>text", kind txt, nx or fail).
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <netdb.h>
#include <resolv.h>
#include <string>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
extern "C" const char* __asan_default_options() { return "exitcode=99:detect_leaks=0:allocator_may_return_null=1"; }
extern "C" const char* __ubsan_default_options() { return "exitcode=99:print_stacktrace=0"; }
static long now() { const char* e = getenv("VERIF_CLOCK"); return e ? atol(e) : 1700000000; }
static int answer(int* herr, const char* dname, unsigned char* ans, int anslen) {
    std::string line, name = dname; *herr = HOST_NOT_FOUND; const char* p = getenv("VERIF_DNS"); if (!p) return -1; std::ifstream f(p);
    while (std::getline(f, line)) {
        size_t a = line.find('\t'), b = line.find('\t', a + 1); if (a == std::string::npos || b == std::string::npos || strcasecmp(line.substr(0, a).c_str(), dname)) continue;
        std::string kind = line.substr(a + 1, b - a - 1), text = line.substr(b + 1), rd, o("\x12\x34\x81\x80\0\1\0\1\0\0\0\0", 12);
        if (kind == "fail") { *herr = TRY_AGAIN; return -1; } if (kind != "txt") return -1;
        for (size_t q = 0; q < name.size();) { size_t e = name.find('.', q); if (e == std::string::npos) e = name.size(); if (e > q) { o += (char)(e - q); o += name.substr(q, e - q); } q = e + 1; }
        o += std::string("\0\0\x10\0\1", 5);
        for (size_t q = 0; q == 0 || q < text.size(); q += 200) { std::string s = text.substr(q, 200); rd += (char)s.size(); rd += s; }
        o += std::string("\xc0\x0c\0\x10\0\1\0\0\1\x2c", 10); o += (char)(rd.size() >> 8); o += (char)rd.size(); o += rd; *herr = 0;
        memcpy(ans, o.data(), (int)o.size() < anslen ? o.size() : (size_t)anslen); return (int)o.size();
    }
    return -1;
}
extern "C" {
time_t time(time_t* t) __THROW { long r = now(); if (t) *t = r; return r; }
int gettimeofday(struct timeval* tv, void*) __THROW { if (tv) { tv->tv_sec = now(); tv->tv_usec = 0; } return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) __THROW { if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { ts->tv_sec = now(); ts->tv_nsec = 0; return 0; } return (int)syscall(SYS_clock_gettime, c, ts); }
#undef res_nquery
int res_nquery(res_state s, const char* dname, int, int, unsigned char* ans, int anslen) { int e; int r = answer(&e, dname, ans, anslen); s->res_h_errno = e; return r; }
#undef res_query
int res_query(const char* dname, int, int, unsigned char* ans, int anslen) { int e; int r = answer(&e, dname, ans, anslen); h_errno = e; return r; }
}
