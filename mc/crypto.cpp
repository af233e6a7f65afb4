#include "crypto.hpp"
#include <dlfcn.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/sha.h>
#include <openssl/x509.h>
#include <sodium.h>
namespace faults {
bool on, sticky; long count, fail1 = -1, fail2 = -1, hits; int mode; std::vector<std::string> trace;
static bool inside;
void arm(long f1, long f2, bool st, int m) { on = true; count = hits = 0; fail1 = f1; fail2 = f2; sticky = st; mode = m; trace.clear(); }
void disarm() { on = false; fail1 = fail2 = -1; }
static bool step(const char* name) { long n = count++; trace.push_back(name); bool f = n == fail1 || n == fail2 || (sticky && fail1 >= 0 && n > fail1); if (f) hits++; return f; }
template <class R> static R bad(int) { return R(mode == 1 ? -1 : 0); }
template <> RSA* bad<RSA*>(int) { return nullptr; }
template <> EVP_PKEY* bad<EVP_PKEY*>(int) { return nullptr; }
template <> EVP_MD_CTX* bad<EVP_MD_CTX*>(int) { return nullptr; }
template <> EVP_PKEY_CTX* bad<EVP_PKEY_CTX*>(int) { return nullptr; }
template <> unsigned char* bad<unsigned char*>(int) { return nullptr; }
}
#define REAL(name) static decltype(&name) real = (decltype(&name))dlsym(RTLD_NEXT, #name)
#define WRAP(ret, failure, name, params, args)                                   \
    ret name params {                                                           \
        REAL(name);                                                             \
        if (!faults::on || faults::inside) return real args;                      \
        bool f = faults::step(#name);                                            \
        if (f && faults::mode != 2) return failure;                              \
        faults::inside = true; ret result_ = real args; faults::inside = false;         \
        return f ? failure : result_;                                                 \
    }
#define OSSL(ret, name, params, args) WRAP(ret, faults::bad<ret>(0), name, params, args)
#define SODIUM(name, params, args) WRAP(int, -1, name, params, args)
extern "C" {
OSSL(EVP_MD_CTX*, EVP_MD_CTX_new, (void), ())
OSSL(int, EVP_MD_CTX_copy, (EVP_MD_CTX* o, const EVP_MD_CTX* i), (o, i))
OSSL(int, EVP_MD_CTX_copy_ex, (EVP_MD_CTX* o, const EVP_MD_CTX* i), (o, i))
OSSL(int, EVP_DigestInit, (EVP_MD_CTX* c, const EVP_MD* t), (c, t))
OSSL(int, EVP_DigestInit_ex, (EVP_MD_CTX* c, const EVP_MD* t, ENGINE* e), (c, t, e))
OSSL(int, EVP_DigestInit_ex2, (EVP_MD_CTX* c, const EVP_MD* t, const OSSL_PARAM* p), (c, t, p))
OSSL(int, EVP_DigestUpdate, (EVP_MD_CTX* c, const void* d, size_t n), (c, d, n))
OSSL(int, EVP_DigestFinal, (EVP_MD_CTX* c, unsigned char* m, unsigned int* n), (c, m, n))
OSSL(int, EVP_DigestFinal_ex, (EVP_MD_CTX* c, unsigned char* m, unsigned int* n), (c, m, n))
OSSL(int, EVP_Digest, (const void* d, size_t n, unsigned char* m, unsigned int* l, const EVP_MD* t, ENGINE* e), (d, n, m, l, t, e))
OSSL(int, EVP_DigestSignInit, (EVP_MD_CTX* c, EVP_PKEY_CTX** p, const EVP_MD* t, ENGINE* e, EVP_PKEY* k), (c, p, t, e, k))
OSSL(int, EVP_DigestSign, (EVP_MD_CTX* c, unsigned char* s, size_t* n, const unsigned char* d, size_t l), (c, s, n, d, l))
OSSL(int, EVP_DigestSignFinal, (EVP_MD_CTX* c, unsigned char* s, size_t* n), (c, s, n))
OSSL(int, EVP_DigestVerifyInit, (EVP_MD_CTX* c, EVP_PKEY_CTX** p, const EVP_MD* t, ENGINE* e, EVP_PKEY* k), (c, p, t, e, k))
OSSL(int, EVP_DigestVerify, (EVP_MD_CTX* c, const unsigned char* s, size_t n, const unsigned char* d, size_t l), (c, s, n, d, l))
OSSL(int, EVP_DigestVerifyFinal, (EVP_MD_CTX* c, const unsigned char* s, size_t n), (c, s, n))
OSSL(EVP_PKEY_CTX*, EVP_PKEY_CTX_new, (EVP_PKEY* k, ENGINE* e), (k, e))
OSSL(int, EVP_PKEY_sign_init, (EVP_PKEY_CTX* c), (c))
OSSL(int, EVP_PKEY_sign, (EVP_PKEY_CTX* c, unsigned char* s, size_t* n, const unsigned char* d, size_t l), (c, s, n, d, l))
OSSL(int, EVP_PKEY_verify_init, (EVP_PKEY_CTX* c), (c))
OSSL(int, EVP_PKEY_verify, (EVP_PKEY_CTX* c, const unsigned char* s, size_t n, const unsigned char* d, size_t l), (c, s, n, d, l))
OSSL(int, RSA_sign, (int t, const unsigned char* m, unsigned int ml, unsigned char* s, unsigned int* sl, RSA* r), (t, m, ml, s, sl, r))
OSSL(int, RSA_verify, (int t, const unsigned char* m, unsigned int ml, const unsigned char* s, unsigned int sl, RSA* r), (t, m, ml, s, sl, r))
OSSL(int, SHA1_Init, (SHA_CTX* c), (c))
OSSL(int, SHA1_Update, (SHA_CTX* c, const void* d, size_t n), (c, d, n))
OSSL(int, SHA1_Final, (unsigned char* m, SHA_CTX* c), (m, c))
OSSL(int, SHA256_Init, (SHA256_CTX* c), (c))
OSSL(int, SHA256_Update, (SHA256_CTX* c, const void* d, size_t n), (c, d, n))
OSSL(int, SHA256_Final, (unsigned char* m, SHA256_CTX* c), (m, c))
OSSL(EVP_PKEY*, d2i_PUBKEY, (EVP_PKEY** a, const unsigned char** p, long n), (a, p, n))
OSSL(RSA*, d2i_RSA_PUBKEY, (RSA** a, const unsigned char** p, long n), (a, p, n))
OSSL(RSA*, d2i_RSAPrivateKey, (RSA** a, const unsigned char** p, long n), (a, p, n))
OSSL(EVP_PKEY*, d2i_AutoPrivateKey, (EVP_PKEY** a, const unsigned char** p, long n), (a, p, n))
OSSL(RSA*, EVP_PKEY_get1_RSA, (EVP_PKEY* k), (k))
OSSL(EVP_PKEY*, PEM_read_bio_PrivateKey, (BIO* b, EVP_PKEY** x, pem_password_cb* cb, void* u), (b, x, cb, u))
OSSL(RSA*, PEM_read_bio_RSAPrivateKey, (BIO* b, RSA** x, pem_password_cb* cb, void* u), (b, x, cb, u))
SODIUM(crypto_sign_detached, (unsigned char* s, unsigned long long* n, const unsigned char* m, unsigned long long l, const unsigned char* k), (s, n, m, l, k))
SODIUM(crypto_sign_verify_detached, (const unsigned char* s, const unsigned char* m, unsigned long long l, const unsigned char* k), (s, m, l, k))
SODIUM(crypto_sign, (unsigned char* s, unsigned long long* n, const unsigned char* m, unsigned long long l, const unsigned char* k), (s, n, m, l, k))
SODIUM(crypto_sign_open, (unsigned char* s, unsigned long long* n, const unsigned char* m, unsigned long long l, const unsigned char* k), (s, n, m, l, k))
SODIUM(crypto_sign_seed_keypair, (unsigned char* p, unsigned char* k, const unsigned char* s), (p, k, s))
}
