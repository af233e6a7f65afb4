// A deterministic measure of work: basic blocks of the library executed, octets handled by the
// C library's memory functions and octets hashed.  Nothing depends on the speed of the machine.
// Compiled with -fno-builtin; the memory functions are plain or string-instruction loops.
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t cost_count;
void __sanitizer_cov_trace_pc(void) { ++cost_count; }
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) { cost_count += n; void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* memmove(void* d, const void* s, size_t n) { cost_count += n; void* r = d; if ((uintptr_t)d - (uintptr_t)s >= n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); else { char* a = (char*)d; const char* b = (const char*)s; while (n--) a[n] = b[n]; } return r; }
void* memset(void* d, int ch, size_t n) { cost_count += n; void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(ch) : "memory"); return r; }
void* memchr(const void* s, int ch, size_t n) { const unsigned char* p = (const unsigned char*)s; size_t i = 0; for (; i < n; i++) if (p[i] == (unsigned char)ch) { cost_count += i; return (void*)(p + i); } cost_count += n; return nullptr; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) { cost_count += i; return p[i] < q[i] ? -1 : 1; } cost_count += n; return 0; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; cost_count += n; return n; }
}
extern "C" int __real_EVP_DigestUpdate(void* c, const void* d, size_t n);
extern "C" int __wrap_EVP_DigestUpdate(void* c, const void* d, size_t n) { cost_count += n + 1; return __real_EVP_DigestUpdate(c, d, n); }
