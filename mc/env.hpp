// Seams: everything nondeterministic the library asks the environment for is decided here
// by link-time interposition (the harness executable defines the symbols).
#pragma once
#include <string>
#include <vector>
#include <ctime>
namespace env {
extern long clock_now;                // virtual wall clock (seconds)
extern long clock_tick;               // advance of the clock at each reading (0 = stands still)
extern std::vector<long> clock_reads; // values handed out while clock_log is set
extern bool clock_log;
// resolver script
struct Dns { bool fail = false; int herr = 0; std::string packet; int len = -1; /* reported length, -1 = packet size */ std::string fill; /* written over the rest of the buffer */ };
extern Dns dns; extern std::vector<std::string> dns_queries; extern int dns_class, dns_type;
extern bool quiet;                    // queries are not recorded
}
