// Controlled scheduler of C15: exactly one thread holds the baton; it is handed over at chosen points only.
#pragma once
#include <vector>
namespace baton {
void init(int n);                                  // before the threads are created
void start();                                      // give the baton to thread 0
void enter(int id, long at, bool trace);           // called by the thread itself; at = point at which it hands over once (-1 never)
void wait_turn(int id);
void leave(int id);                                // no more points
void done(int id);                                 // hand the baton on
long points(int id);
const std::vector<long>& interesting();            // first entries of functions and accesses to static memory of thread 0 (trace)
std::vector<long> places();                         // first, second and last time thread 0 was at each point of the program (trace)
[[noreturn]] void exit_process();
}
