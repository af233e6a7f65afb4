#include "alloc.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include <openssl/crypto.h>
#include <unistd.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
// calls made by the library (and this program) itself are wrapped at link time
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); char* __real_strdup(const char*); char* __real_strndup(const char*, size_t); }
namespace mem {
long count, hits, streamed; static int kinds; static long fail_at = -1; static bool sticky;
void arm(int k, long f, bool s) { count = hits = streamed = 0; fail_at = f; sticky = s; kinds = k; }
void disarm() { kinds = 0; fail_at = -1; }
static bool deny(int k) { if (!(kinds & k)) return false; long n = count++; bool f = fail_at >= 0 && (n == fail_at || (sticky && n > fail_at)); if (f) hits++; return f; }
// the blocks allocated while tracking
static const size_t SLOTS = 1 << 20; struct Slot { const volatile void* p; size_t n; }; static Slot slot[SLOTS]; static const volatile void* const GONE = (void*)1; static uint32_t used[SLOTS]; static size_t nused; static bool tracking;
static size_t at(const volatile void* p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 44; }
static void on_malloc(const volatile void* p, size_t n) { if (!tracking || !p) return; size_t i = at(p); while (slot[i].p && slot[i].p != GONE && slot[i].p != p) i = (i + 1) % SLOTS; if (!slot[i].p) { if (nused > SLOTS / 2) { fprintf(stderr, "alloc: table full\n"); _exit(97); } used[nused++] = (uint32_t)i; } slot[i] = {p, n}; }
static void on_free(const volatile void* p) { if (!tracking || !p) return; for (size_t i = at(p); slot[i].p; i = (i + 1) % SLOTS) if (slot[i].p == p) { slot[i].p = GONE; return; } }
void track() { static bool hooked; if (!hooked) { hooked = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } nused = 0; tracking = true; }
Left untrack() { tracking = false; Left l = {0, 0, 0, nullptr}; for (size_t k = 0; k < nused; k++) { Slot& s = slot[used[k]]; if (s.p != GONE) { l.blocks++; l.octets += s.n; if (!l.first) { l.first = s.n; l.at = (void*)s.p; } } s = {nullptr, 0}; } return l; }
static void* crypto_malloc(size_t n, const char*, int) { return deny(CRYPTO) ? nullptr : __real_malloc(n); }
static void* crypto_realloc(void* p, size_t n, const char*, int) { return deny(CRYPTO) ? nullptr : __real_realloc(p, n); }
static void crypto_free(void* p, const char*, int) { free(p); }
__attribute__((constructor(101))) static void install() { if (!CRYPTO_set_mem_functions(crypto_malloc, crypto_realloc, crypto_free)) { fprintf(stderr, "alloc: CRYPTO_set_mem_functions failed\n"); _exit(97); } }
static void* allocate(size_t n) { void* p = deny(NEW) ? nullptr : __real_malloc(n ? n : 1); return p; }
}
void* operator new(size_t n) { void* p = mem::allocate(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = mem::allocate(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mem::allocate(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mem::allocate(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
extern "C" int vasprintf(char** out, const char* f, va_list a) {
    if (mem::deny(mem::FORMAT)) { *out = nullptr; errno = ENOMEM; return -1; }
    va_list b; va_copy(b, a); int n = vsnprintf(nullptr, 0, f, b); va_end(b); if (n < 0) return -1; *out = (char*)__real_malloc((size_t)n + 1); return vsnprintf(*out, (size_t)n + 1, f, a);
}
extern "C" {
static void* denied() { errno = ENOMEM; return nullptr; }
void* __wrap_malloc(size_t n) { return mem::deny(mem::FORMAT) ? denied() : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return mem::deny(mem::FORMAT) ? denied() : __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return mem::deny(mem::FORMAT) ? denied() : __real_realloc(p, n); }
char* __wrap_strdup(const char* s) { return mem::deny(mem::FORMAT) ? (char*)denied() : __real_strdup(s); }
char* __wrap_strndup(const char* s, size_t n) { return mem::deny(mem::FORMAT) ? (char*)denied() : __real_strndup(s, n); }
int asprintf(char** out, const char* f, ...) { va_list a; va_start(a, f); int n = vasprintf(out, f, a); va_end(a); return n; }
}
extern "C" void* __cxa_begin_catch(void* e) noexcept {
    static void* (*next)(void*) = (void* (*)(void*))dlsym(RTLD_NEXT, "__cxa_begin_catch");
    if (mem::hits) { Dl_info i; if (dladdr(__builtin_return_address(0), &i) && i.dli_sname && (strstr(i.dli_sname, "ostream") || strncmp(i.dli_sname, "_ZNSo", 5) == 0)) mem::streamed++; }
    return next(e);
}
