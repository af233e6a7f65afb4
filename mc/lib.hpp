// Shared glue between the harnesses and the library's public API.
#pragma once
#include <pthread.h>
#include <exception>
#include <unistd.h>
#include "mc.hpp"
#include "ref.hpp"
#include "keys.hpp"
#include "env.hpp"
#include "Signatory.hpp"
#include "Validatory.hpp"
#include "Canonicalization.hpp"
#include "MailParser.hpp"
#include "TagList.hpp"
#include "Tokenizer.hpp"
#include "Base64.hpp"
#include "QuotedPrintable.hpp"
#include "EncodedWord.hpp"
#include "Util.hpp"
#include "Resolver.hpp"
#include <functional>
#include <memory>
#include <sstream>

namespace lib {
using std::string; using std::vector;

// run f on a thread with a stack of `bytes`; what it throws is thrown here
inline void small_stack(size_t bytes, std::function<void()> f) {
    struct J { std::function<void()>* f; std::exception_ptr e; } j = {&f, nullptr}; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, bytes); pthread_t t;
    if (pthread_create(&t, &a, [](void* p) -> void* { J* j = (J*)p; try { (*j->f)(); } catch (...) { j->e = std::current_exception(); } return nullptr; }, &j)) { fprintf(stderr, "pthread_create failed\n"); _exit(97); }
    pthread_join(t, nullptr); pthread_attr_destroy(&a); if (j.e) std::rethrow_exception(j.e);
}
// run f; classify how it ended: "" or the authentication result class; `what` gets the text.
// Any other exception escapes to the explorer and is a violation.
template <class F> string classify(F&& f, string* what = nullptr) {
    try { f(); return ""; }
    catch (DKIM::PermanentError& e) { if (what) *what = e.what(); return e.getAuthenticationResult(); }
    catch (DKIM::TemporaryError& e) { if (what) *what = e.what(); return e.getAuthenticationResult(); }
}
struct Keys {                     // reference keys, loaded once
    ref::Key rsa512, rsa1024, rsa2048, rsaB, edA, edB, rsa4096, rsa1023, rsa1025, rsa2047;
    Keys() : rsa512(ref::rsa_key(keys::rsa512_priv, keys::rsa512_pub)), rsa1024(ref::rsa_key(keys::rsa1024_priv, keys::rsa1024_pub)), rsa2048(ref::rsa_key(keys::rsa2048_priv, keys::rsa2048_pub)),
             rsaB(ref::rsa_key(keys::rsaB_priv, keys::rsaB_pub)), edA(ref::ed_key(keys::edA_seed, keys::edA_pub)), edB(ref::ed_key(keys::edB_seed, keys::edB_pub)),
             rsa4096(ref::rsa_key(keys::rsa4096_priv, keys::rsa4096_pub)), rsa1023(ref::rsa_key(keys::rsa1023_priv, keys::rsa1023_pub)), rsa1025(ref::rsa_key(keys::rsa1025_priv, keys::rsa1025_pub)), rsa2047(ref::rsa_key(keys::rsa2047_priv, keys::rsa2047_pub)) {}
};
inline const Keys& K() { static Keys k; return k; }
inline string record(const ref::Key& k) { return "v=DKIM1; k=" + k.type + "; p=" + k.pub64; }
using Dns = std::function<bool(const string&, string&)>;
inline Dns fixed(const string& rec) { return [rec](const string&, string& out) { out = rec; return true; }; }

struct Verdict { string cls, what, domain, selector; bool pass() const { return cls.empty(); } string str() const { return cls.empty() ? "pass" : cls; } };
inline Verdict check_one(DKIM::Validatory& v, DKIM::Message::HeaderList::const_iterator i) {
    DKIM::Signature s; DKIM::PublicKey p; Verdict r;
    r.cls = classify([&] { v.GetSignature(i, s); v.GetPublicKey(s, p); v.CheckSignature(i, s, p); }, &r.what);
    r.domain = s.GetDomain(); r.selector = s.GetSelector();
    return r;
}
inline void set_dns(DKIM::Validatory& v, const Dns& d) { v.CustomDNSResolver = [d](const string& q, string& o, void*) { return d(q, o); }; }
inline vector<Verdict> verify(const string& msg, const Dns& d, DKIM::Validatory::ValidatorType t = DKIM::Validatory::DKIM) {
    std::istringstream in(msg); DKIM::Validatory v(in, t); set_dns(v, d);
    vector<Verdict> r; for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) r.push_back(check_one(v, i));
    return r;
}
inline string verdicts(const vector<Verdict>& v) { string o; for (auto& x : v) o += (o.empty() ? "" : ",") + x.str(); return o; }
// sign; returns class ("" ok)
inline string sign(const string& msg, const DKIM::SignatoryOptions& o, string& out, string* what = nullptr) {
    out.clear(); return classify([&] { std::istringstream in(msg); DKIM::Signatory s(in); out = s.CreateSignature(o); }, what);
}
inline vector<string> split_fields(const string& s) { // several emitted signature fields
    vector<string> r; auto m = ref::split(s); for (auto& f : m.h) r.push_back(f.raw); return r;
}
}  // namespace lib
