// The allocator, interposed: the explorer decides which allocation fails, and what is still allocated is known.
#pragma once
#include <cstddef>
#include <string>
namespace mem {
enum Kind { NEW = 1, CRYPTO = 2, FORMAT = 4 };      // operator new; the crypto library; malloc, calloc, realloc, str(n)dup, (v)asprintf called by the library
void arm(int kinds, long fail_at, bool sticky);     // count allocations of these kinds; number fail_at (and all later ones) fails
void disarm();
extern long count, hits;
extern long streamed;                               // failures an output stream of the C++ library recorded in its state instead of passing on
void track();                                       // from now on
struct Left { long blocks; size_t octets, first; void* at; };
Left untrack();                                     // blocks allocated since then that are still there
}
