// C11: what a key record may verify, through whole verifications.
#include "cfg.hpp"
using namespace mc; using std::string; using std::vector;
const char* mc::property_id = "C11";
struct S { string msg; ref::Sig s; bool arc; };
static const S& sig(int alg, int id, bool arc) { // 0 rsa-sha256, 1 rsa-sha1, 2 ed25519
    static std::map<int, S> cache; int k = (alg * 4 + id) * 2 + arc; auto it = cache.find(k); if (it != cache.end()) return it->second;
    string m = "From: a@example.com\r\nTo: b\r\n\r\nbody\r\n"; static const char* A[] = {"rsa-sha256", "rsa-sha1", "ed25519-sha256"}; static const char* I[] = {"", "i=joe@example.com; ", "i=joe@sub.Example.com; ", "i=@EXAMPLE.COM; "};
    string v = string(arc ? " i=1; " : " v=1; ") + "a=" + A[alg] + "; c=relaxed/relaxed; d=Example.com; s=sel; " + (arc ? "" : I[id]) + "h=from:to; bh=@BH@; b=@B@"; S r; r.arc = arc; string f = ref::make_sig(m, arc ? "ARC-Message-Signature" : "DKIM-Signature", v, cfg::key(alg == 2 ? 2 : 3), "", "", env::clock_now); r.msg = f + "\r\n" + m; ref::Msg p = ref::split(r.msg); ref::parse_sig(p.h[0], env::clock_now, r.s); return cache[k] = r;
}
static void check(Ctx& c, const string& rec, const S& g, bool genuine) {
    ref::KeyRec k; string why = ref::parse_key(rec, k); bool malformed = !why.empty(); if (why.empty()) why = ref::key_policy(k, g.s);
    std::istringstream in(g.msg); DKIM::Validatory v(in, g.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM); string asked; lib::set_dns(v, [&](const string& q, string& o) { asked = q; o = rec; return true; });
    DKIM::Signature s; DKIM::PublicKey pk; string what; string cls = lib::classify([&] { auto i = v.GetSignatures().begin(); v.GetSignature(i, s); v.GetPublicKey(s, pk); v.CheckSignature(i, s, pk); }, &what); c.transition(); c.validated(); c.state(rec + "|" + g.msg.substr(0, 120)); c.sample(show(rec, 500) + " -> " + (why.empty() ? "may verify" : "refused: " + why)); c.note(show(rec, 3000)); c.note(show(g.msg, 1500));
    string tag = " for record " + show(rec, 1500) + " and " + g.s.alg + "-" + g.s.digest + (g.arc ? " ARC" : "") + " i=" + g.s.maildomain; c.require(asked == "sel._domainkey.example.com", "query", "asked for " + asked);
    if (why == "p not base64") { c.outcome("lenient base64"); return; } // how much of a damaged p= is decoded is not prescribed
    if (!why.empty()) { c.require(cls == "permerror", "verified", "the record must not verify (" + why + ") but gave " + (cls.empty() ? "pass" : cls) + tag); c.outcome("refused " + why); if (malformed) return; }
    else if (cls == "permerror" && ref::loose(k.t)) { c.outcome("refused"); return; }
    else if (genuine) c.require(cls.empty(), "refused", "the record allows the signature but: " + cls + " " + what + tag);
    else { c.require(cls == "fail", "other-key", "a different key gave " + (cls.empty() ? "pass" : cls) + tag); }
    c.require(pk.SoftFail() == k.y, "testing", string("testing mode reported as ") + (pk.SoftFail() ? "set" : "unset") + tag); c.outcome((cls.empty() ? "pass" : cls) + (k.y ? "y" : ""));
}
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "tags"; int b = th ? 4 : 3; p.what = "key records with valid, invalid, empty and absent values of every tag, up to " + std::to_string(b) + " different from the default, against signatures with each algorithm, with and without a subdomain identity, DKIM and ARC";
      p.body = [](Ctx& c) { int alg = c.choose(3), id = c.choose(3); bool arc = id == 2 ? false : c.choose(2); const S& g = sig(alg, id == 2 ? 2 : id, arc); bool ed = alg == 2; const ref::Key &me = cfg::key(ed ? 2 : 3), &other = cfg::key(ed ? 6 : 5), &alien = cfg::key(ed ? 3 : 2);
          static const vector<string> V = {"v=DKIM1; ", "", "v=; ", "v=DKIM2; ", "v=dkim1; ", "v=1; ", "v=DKIM1 x; "}; static const vector<string> H = {"", "h=sha256; ", "h=sha1; ", "h=sha1:sha256; ", "h=; ", "h=sha512; ", "h=SHA256; ", "h=sha256:x; ", "h= x : sha1 ; ", "h=sha256::sha1; ", "h=:; ", "h=sha2561; "}; static const vector<string> SV = {"", "s=email; ", "s=*; ", "s=tlsrpt; ", "s=; ", "s=tlsrpt:email; ", "s=x:*; ", "s=EMAIL; ", "s=emailx; ", "s=email:; ", "s=:email; ", "s=a:b; "}; static const vector<string> TF = {"", "t=y; ", "t=s; ", "t=y:s; ", "t=; ", "t=x; ", "t= x : s ; ", "t=Y; ", "t=s:; ", "t=::; ", "t=ys; "}; static const vector<string> X = {"", "n=note b c; ", "g=*; ", "x=1; ", "K=x; ", "bad", "v=DKIM1; ", "H=none; ", "r=\x80; "};
          string rec = c.dev(V, "v") + c.dev(H, "h"); int k = c.deviate(7, "k"); string kt = me.type; if (k == 0) rec += ed ? "k=ed25519; " : ""; if (k == 1) rec += "k=" + me.type + "; "; if (k == 2) rec += "k=" + alien.type + "; "; if (k == 3) rec += "k=; "; if (k == 4) rec += "k=RSA; "; if (k == 5) rec += "k=dsa; "; if (k == 6) {}
          rec += c.dev(SV, "s") + c.dev(TF, "t") + c.dev(X, "x"); int pv = c.deviate(14, "p"); bool genuine = true; const string& P = me.pub64; string raw = ref::unb64(P);
          if (pv == 0) rec += "p=" + P; if (pv == 1) { rec += "p=" + other.pub64; genuine = false; } if (pv == 2) rec += "p="; if (pv == 3) {} if (pv == 4) { rec += "p=" + alien.pub64; genuine = false; } if (pv == 5) { string w; for (size_t i = 0; i < P.size(); i++) { if (i && i % 20 == 0) w += i % 40 ? " " : "\r\n\t"; w += P[i]; } rec += "p=" + w + " ;"; } if (pv == 6) { rec += "p=" + ref::b64enc(raw.substr(0, raw.size() - 1)); genuine = false; } if (pv == 7) { rec += "p=" + ref::b64enc(raw.substr(1)); genuine = false; } if (pv == 8) { rec += string("p=") + keys::ec_pub; genuine = false; } if (pv == 9) rec += "p= ; "; if (pv == 10) rec += "P=" + P; if (pv == 11) rec += "p=" + P + "; p=" + P; if (pv == 12) { rec += "p=" + ref::b64enc(string(32, '\0')); genuine = false; if (ed) return; } if (pv == 13) rec += "\t p = " + P + " ; ";
          // an ed25519 record may be longer than 32 octets only by mistake; a truncated RSA key is no key
          check(c, rec, g, genuine); }; p.bound = b; p.split = 6; out.push_back(p); }
    auto words = [&](const char* name, const char* tag, vector<string> A, int n, bool ids) { Phase p; p.name = name; string al; for (auto& a : A) al += show(a); p.what = string(tag) + "= with every value over " + al + " up to " + std::to_string(n) + " symbols, against " + (ids ? "identities inside and equal to the domain, DKIM and ARC" : "every algorithm"); string t = tag; p.body = [t, A, n, ids](Ctx& c) { string v = c.word(A, 0, n); int alg = ids ? 2 : c.choose(3), id = ids ? c.choose(4) : 0; bool arc = ids ? c.choose(2) : false; check(c, t + "=" + v + "; k=" + (alg == 2 ? "ed25519" : "rsa") + "; p=" + cfg::key(alg == 2 ? 2 : 3).pub64, sig(alg, id, arc), true); }; out.push_back(p); };
    words("h-values", "h", {"sha256", "sha1", ":", " ", "x", "\r\n "}, th ? 6 : 5, false); words("s-values", "s", {"email", "*", ":", " ", "x"}, th ? 7 : 6, false); words("t-values", "t", {"s", "y", ":", " ", "x"}, th ? 6 : 5, true);
    { Phase p; p.name = "records"; int n = th ? 5 : 4; p.what = "every record of up to " + std::to_string(n) + " parts from {v, k, p, h, s, t, junk, separators}"; p.body = [n](Ctx& c) { const string& P = cfg::key(2).pub64; static const vector<string> A = {"v=DKIM1;", "k=ed25519;", "p=" + P + ";", "p=" + P, "k=rsa;", "h=sha1;", "h=sha256;", "s=x;", "t=s", ";", " ", "p=;", "a", "\"", "\\;"}; check(c, c.word(A, 0, n), sig(2, 2, false), true); }; out.push_back(p); }
    { Phase p; p.name = "octets"; p.what = "every octet value at every position of an ed25519 record (replacement and insertion)"; p.body = [](Ctx& c) { string r = "v=DKIM1; h=sha256; k=ed25519; s=email; t=y; p=" + cfg::key(2).pub64; size_t tail = r.size() - 44; int pos = c.choose((int)r.size()), ins = c.choose(2); char x = (char)c.choose(256); string q = r; if (ins) q.insert((size_t)pos, 1, x); else q[(size_t)pos] = x; if ((size_t)pos >= tail) { ref::KeyRec k; string d; bool strict = ref::parse_key(q, k).empty(); if (!strict || k.p != ref::unb64(cfg::key(2).pub64)) { // lenient base64 decoding and other key points are not compared
                  auto v = lib::verify(sig(2, 0, false).msg, lib::fixed(q)); c.transition(); c.outcome(v[0].str()); return; } } check(c, q, sig(2, 0, false), true); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "rsa-der"; p.what = "every truncation and every single bit flip of the DER of an RSA key: no record that is not the key verifies"; p.body = [](Ctx& c) { string d = ref::unb64(cfg::key(3).pub64); int k = c.choose(2); string e = d; if (k) { int bit = c.choose((int)d.size() * 8); e[(size_t)bit / 8] ^= (char)(1 << (bit % 8)); } else e = d.substr(0, (size_t)c.choose((int)d.size())); string rec = "p=" + ref::b64enc(e); auto v = lib::verify(sig(0, 0, false).msg, lib::fixed(rec)); c.transition(); c.validated(); c.state(rec);
          // harmless only if the flipped bit leaves modulus and exponent as they are
          bool same = false; { const unsigned char* q = (const unsigned char*)e.data(); EVP_PKEY* x = e.empty() ? nullptr : d2i_PUBKEY(nullptr, &q, (long)e.size()); if (x) { same = EVP_PKEY_base_id(x) == EVP_PKEY_RSA && EVP_PKEY_eq(x, cfg::key(3).pkey) == 1; EVP_PKEY_free(x); } } c.require(v[0].pass() == same, same ? "refused" : "verified", fmt("variant of the key gave ") + v[0].str() + ": " + v[0].what + " " + show(rec)); c.outcome(v[0].str()); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "key-types"; p.what = "records of each k= with a p= that is the right key in another wrapping (RSASSA-PSS, RSAES-OAEP, a certificate's outer sequence, an ed25519 key in SubjectPublicKeyInfo or with octets added) or a key of another kind, and signatures with every algorithm"; p.body = [](Ctx& c) { int alg = c.choose(3); bool arc = c.choose(2); static const vector<string> K = {"", "k=rsa; ", "k=ed25519; "}; string k = K[(size_t)c.choose(3)]; string e = ref::unb64(cfg::key(2).pub64), r = ref::unb64(cfg::key(3).pub64), bits; { size_t at = r.find('\x03'); while (at != string::npos && !((unsigned char)r[at + 1] + at + 2 == r.size())) at = r.find('\x03', at + 1); c.require(at != string::npos, "harness", "no bit string in the test key"); bits = r.substr(at); } // key 3 has 512 bits, so that every length is short
          auto seq = [](const string& x) { return string("\x30") + (char)x.size() + x; }; auto oid = [&](const string& o, const string& params) { return seq(seq(string("\x06") + (char)o.size() + o + params) + bits); }; string pk = "\x2a\x86\x48\x86\xf7\x0d\x01\x01", null("\x05\0", 2), spki("\x30\x2a\x30\x05\x06\x03\x2b\x65\x70\x03\x21\0", 12);
          const string P[] = {r, oid(pk + "\x01", null), oid(pk + "\x0a", ""), oid(pk + "\x0a", seq("")), oid(pk + "\x0a", null), oid(pk + "\x07", ""), oid(pk + "\x07", null), oid(pk + "\x0b", null), seq(r), bits.substr(3).insert(0, string("\x31")), ref::unb64(keys::ec_pub), ref::unb64(keys::p384_pub), ref::unb64(keys::dsa_pub), ref::unb64(keys::x25519_pub), e, spki + e, e + string(1, '\0'), string(1, '\0') + e, e + e, e.substr(0, 31), "\x04\x20" + e, ref::unb64(keys::edA_seed) + e, ref::unb64(cfg::key(6).pub64)};
          int which = c.choose((int)(sizeof P / sizeof *P)); const string& p = P[which]; bool same = alg == 2 ? p == e : which < 2; check(c, "v=DKIM1; " + k + "p=" + ref::b64enc(p), sig(alg, 0, arc), same); }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "long"; p.what = "records with h=, s= and t= lists of 1..40, 63..65, 127..129, 255..257, 1000 values with the deciding one first, in the middle, last or absent among unknown values or repetitions of another known one; as many unknown tags before or behind p=; notes and white space of that length"; p.body = [](Ctx& c) { static vector<int> N; if (N.empty()) { for (int i = 1; i <= 40; i++) N.push_back(i); for (int i : {63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}) N.push_back(i); } int n = c.pick(N), w = c.choose(6), f = c.choose(w < 3 ? 9 : 5), alg = c.choose(2), id = c.choose(3); const string P = "p=" + cfg::key(alg ? 2 : 3).pub64, K = alg ? "k=ed25519; " : ""; auto list = [&](const string& x) { int at = f % 5 == 0 ? 0 : f % 5 == 1 ? n / 2 : f % 5 == 2 ? n - 1 : -1; string o, other = w == 0 ? "sha1" : w == 1 ? "tlsrpt" : n & 2 ? "y" : "x"; for (int i = 0; i < n; i++) o += (i ? (n & 1 ? ":" : " : ") : "") + (i == at || f == 4 ? x : f > 4 ? other : fmt("x%d", i)); return o; }; string r;
          if (w == 0) r = K + "h=" + list("sha256") + "; " + P; else if (w == 1) r = K + "s=" + list(n & 1 ? "email" : "*") + "; " + P; else if (w == 2) r = K + "t=" + list(n & 2 ? "s" : "y") + "; " + P; else if (w == 3) { string u; for (int i = 0; i < n; i++) u += fmt("u%d=%d; ", i, i); r = f == 0 ? u + K + P : f == 1 ? K + P + "; " + u : f == 2 ? K + u + P : f == 3 ? u + "v=DKIM1; " + K + P : u + u + K + P; } else if (w == 4) r = K + "n=" + string((size_t)n * 3, f & 1 ? 'x' : ';') + (f & 1 ? "; " : "") + P; else r = K + string((size_t)n, ' ') + "p=" + (f & 1 ? string((size_t)n, '\t') : "") + cfg::key(alg ? 2 : 3).pub64 + string((size_t)n, f & 2 ? ' ' : ';'); check(c, r, sig(alg ? 2 : 0, id, false), true); }; p.split = 3; out.push_back(p); }
}
