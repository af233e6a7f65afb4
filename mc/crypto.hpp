// The crypto primitives the library may call, interposed: the explorer decides which call fails.
#pragma once
#include <string>
#include <vector>
namespace faults {
extern bool on;              // count (and fail) calls made directly by the library
extern long count;           // calls made since on was set
extern long fail1, fail2;    // indices of the failing calls (-1 none)
extern bool sticky;          // every call from fail1 on fails
extern int mode;             // 0 nothing done, failure reported; 1 the same with a negative code; 2 done, but failure reported
extern long hits;            // failures injected
extern std::vector<std::string> trace; // names of the calls
void arm(long f1 = -1, long f2 = -1, bool sticky = false, int mode = 0);
void disarm();
}
