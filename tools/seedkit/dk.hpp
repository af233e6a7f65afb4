// helper of the demonstrations: sign and verify through the public interface
#pragma once
#include "Signatory.hpp"
#include "Validatory.hpp"
#include "Tokenizer.hpp"
#include "TagList.hpp"
#include "Canonicalization.hpp"
#include "QuotedPrintable.hpp"
#include "EncodedWord.hpp"
#include "Base64.hpp"
#include "Resolver.hpp"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
using std::string; using std::vector;
static const char* const SEED = "AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8=";
static const char* const PUB = "A6EHv/POEL4dcN0Y50vAmWfk1jCbpQ1fHdyGZBJVMbg=";
static const string REC = string("v=DKIM1; k=ed25519; p=") + PUB;
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #x); exit(1); } } while (0)
static DKIM::SignatoryOptions& base(DKIM::SignatoryOptions& o) { o.SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetPrivateKey(SEED).SetDomain("example.com").SetSelector("sel"); return o; }
static string sign(const string& m, const DKIM::SignatoryOptions& o) { std::istringstream in(m); DKIM::Signatory s(in); return s.CreateSignature(o); }
// result per signature: "pass" or the authentication result class
static vector<string> verify(const string& m, const string& rec = REC, DKIM::Validatory::ValidatorType t = DKIM::Validatory::DKIM) {
    std::istringstream in(m); DKIM::Validatory v(in, t); v.CustomDNSResolver = [rec](const string&, string& o, void*) { o = rec; return true; }; vector<string> r;
    for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) { DKIM::Signature s; DKIM::PublicKey p; try { v.GetSignature(i, s); v.GetPublicKey(s, p); v.CheckSignature(i, s, p); r.push_back("pass"); } catch (DKIM::PermanentError& e) { r.push_back(e.getAuthenticationResult()); } catch (DKIM::TemporaryError& e) { r.push_back(e.getAuthenticationResult()); } }
    return r;
}
static bool passes(const string& m, const string& rec = REC) { auto r = verify(m, rec); return r.size() == 1 && r[0] == "pass"; }
static string canon(const string& body, DKIM::CanonMode mode, bool lim = false, size_t n = 0, bool* ok = nullptr) { std::istringstream in(body); string o; bool r = DKIM::Conversion::CanonicalizationBody(in, mode, 0, lim, n, [&](const char* p, size_t k) { o.append(p, k); }); if (ok) *ok = r; return o; }
#include <sodium.h>
static string sha256(const string& s) { unsigned char h[32]; crypto_hash_sha256(h, (const unsigned char*)s.data(), s.size()); return string((char*)h, 32); }
static string b64(const string& s) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string o; for (size_t i = 0; i < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16 | (i + 1 < s.size() ? (unsigned char)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (unsigned char)s[i + 2] : 0); o += A[v >> 18]; o += A[v >> 12 & 63]; o += i + 1 < s.size() ? A[v >> 6 & 63] : '='; o += i + 2 < s.size() ? A[v & 63] : '='; } return o; }
// a signature made without the library: `field` ends in "b=", `covered` is the canonical text of the signed fields
static string craft(const string& field, const string& covered) { unsigned char seed[32], pk[32], sk[64], sg[64]; for (int i = 0; i < 32; i++) seed[i] = (unsigned char)i; crypto_sign_seed_keypair(pk, sk, seed); string h = sha256(covered + field); crypto_sign_detached(sg, nullptr, (const unsigned char*)h.data(), 32, sk); return field + b64(string((char*)sg, 64)); }
static string field(const string& tags, const string& h, const string& body) { return "DKIM-Signature: v=1; a=ed25519-sha256;" + tags + (tags.find("d=") == string::npos ? " d=example.com;" : "") + " s=sel; h=" + h + "; bh=" + b64(sha256(body)) + "; b="; }
