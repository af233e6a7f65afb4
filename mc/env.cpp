#include "env.hpp"
#include <cstring>
#include <netdb.h>
#include <resolv.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
namespace env { long clock_now = 1700000000, clock_tick = 0; std::vector<long> clock_reads; bool clock_log = false; static long read() { long r = clock_now; clock_now += clock_tick; if (clock_log) clock_reads.push_back(r); return r; } Dns dns; bool quiet = false; std::vector<std::string> dns_queries; int dns_class, dns_type; }
extern "C" {
time_t time(time_t* t) __THROW { long r = env::read(); if (t) *t = r; return r; }
int gettimeofday(struct timeval* tv, void*) __THROW { if (tv) { tv->tv_sec = env::read(); tv->tv_usec = 0; } return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) __THROW {
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { ts->tv_sec = env::read(); ts->tv_nsec = 0; return 0; }
    return (int)syscall(SYS_clock_gettime, c, ts);
}
static int answer(int* herr, const char* dname, int cl, int type, unsigned char* ans, int anslen) {
    if (!env::quiet) env::dns_queries.push_back(dname); env::dns_class = cl; env::dns_type = type;
    if (env::dns.fail) { *herr = env::dns.herr; h_errno = env::dns.herr; return -1; }
    *herr = 0;
    size_t n = env::dns.packet.size(); if ((int)n > anslen) n = (size_t)anslen;
    memcpy(ans, env::dns.packet.data(), n); const std::string& f = env::dns.fill; if (!f.empty()) for (size_t i = n; i < (size_t)anslen && i < n + 1024; i++) ans[i] = (unsigned char)f[(i - n) % f.size()];
    return env::dns.len >= 0 ? env::dns.len : (int)env::dns.packet.size();
}
#undef res_nquery
int res_nquery(res_state s, const char* dname, int cl, int type, unsigned char* ans, int anslen) {
    int e; int r = answer(&e, dname, cl, type, ans, anslen); s->res_h_errno = e; return r;
}
#undef res_query
int res_query(const char* dname, int cl, int type, unsigned char* ans, int anslen) {
    int e; return answer(&e, dname, cl, type, ans, anslen);
}
}
