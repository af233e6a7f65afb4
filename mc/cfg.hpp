// A signing configuration as a value, how to apply it to the library's options, and what the
// properties say about it (refusal, selected fields), computed by the reference model.
#pragma once
#include "lib.hpp"
#include <set>
#include <algorithm>
namespace cfg {
using std::string; using std::vector; using std::list;
struct Sig { int key = 1; /* 0 none, 1 rsa1024, 2 ed25519 A, 3 rsa512, 4 rsa2048, 5 rsa B, 6 ed25519 B, 7 rsa4096, 8 rsa1023 with exponent 3, 9 rsa1025, 10 rsa2047 */ string domain = "example.com", selector = "sel"; };
inline bool is_ed(int k) { return k == 2 || k == 6; }
inline const ref::Key& key(int k) { const auto& K = lib::K(); switch (k) { case 2: return K.edA; case 3: return K.rsa512; case 4: return K.rsa2048; case 5: return K.rsaB; case 6: return K.edB; case 7: return K.rsa4096; case 8: return K.rsa1023; case 9: return K.rsa1025; case 10: return K.rsa2047; default: return K.rsa1024; } }
inline const char* keytext(int k) { switch (k) { case 2: return keys::edA_seed; case 3: return keys::rsa512_priv; case 4: return keys::rsa2048_pem; case 5: return keys::rsaB_pem; case 6: return keys::edB_seed; case 7: return keys::rsa4096_priv; case 8: return keys::rsa1023_priv; case 9: return keys::rsa1025_priv; case 10: return keys::rsa2047_priv; default: return keys::rsa1024_pem; } }
struct Cfg {
    vector<Sig> sigs = {Sig()}; bool sha1 = false, rh = false, rb = false;
    int hdrmode = 0; /* 0 default list, 1 SetHeaders, 2 AddHeaders, 3 DelHeaders */ list<string> hdr, over;
    bool hasl = false; unsigned long l = 0; bool hast = false; long t = 0; bool hasx = false; long x = 0; bool xabs = true; string ident; unsigned long arc = 0;
};
inline void apply(const Cfg& c, DKIM::SignatoryOptions& o) {
    const Sig& p = c.sigs[0];
    o.SetSignatureAlgorithm(is_ed(p.key) ? DKIM::DKIM_SA_ED25519 : DKIM::DKIM_SA_RSA); if (p.key) o.SetPrivateKey(keytext(p.key));
    if (!p.domain.empty()) o.SetDomain(p.domain); if (!p.selector.empty()) o.SetSelector(p.selector);
    for (size_t i = 1; i < c.sigs.size(); i++) { const Sig& s = c.sigs[i]; auto& a = o.AddAdditionalSignature(); a.SetSignatureAlgorithm(is_ed(s.key) ? DKIM::DKIM_SA_ED25519 : DKIM::DKIM_SA_RSA); if (s.key) a.SetPrivateKey(keytext(s.key)); if (!s.domain.empty()) a.SetDomain(s.domain); if (!s.selector.empty()) a.SetSelector(s.selector); }
    o.SetDigestAlgorithm(c.sha1 ? DKIM::DKIM_A_SHA1 : DKIM::DKIM_A_SHA256); o.SetCanonModeHeader(c.rh ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE); o.SetCanonModeBody(c.rb ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE);
    if (c.hdrmode == 1) o.SetHeaders(c.hdr); if (c.hdrmode == 2) o.AddHeaders(c.hdr); if (c.hdrmode == 3) o.DelHeaders(c.hdr); if (!c.over.empty()) o.SetOversignHeaders(c.over);
    if (c.hasl) o.SetSignBodyLength(c.l); if (c.hast) o.SetTimestamp(c.t); if (c.hasx) o.SetExpiration(c.x, c.xabs); if (!c.ident.empty()) o.SetIdentity(c.ident); if (c.arc) o.SetARCInstance(c.arc);
}
inline const vector<string>& defaults() { static const vector<string> d = {"from", "sender", "reply-to", "subject", "date", "message-id", "to", "cc", "mime-version", "content-type", "content-transfer-encoding", "content-id", "content-description", "resent-date", "resent-from", "resent-sender", "resent-to", "resent-cc", "resent-message-id", "in-reply-to", "references", "list-id", "list-help", "list-unsubscribe", "list-unsubscribe-post", "list-subscribe", "list-post", "list-owner", "list-archive", "cfbl-address", "cfbl-feedback-id"}; return d; }
inline bool listable(const string& n) { if (n.empty()) return false; for (char ch : n) if (!(ch >= 0x21 && ch <= 0x7e) || ch == ':' || ch == ';') return false; return true; }
// names the configuration signs (lower case); all = every field
inline std::set<string> names(const Cfg& c, bool& all) {
    std::set<string> s; if (c.hdrmode != 1) for (auto& d : defaults()) s.insert(d);
    if (c.hdrmode == 1 || c.hdrmode == 2) for (auto& h : c.hdr) s.insert(ref::lower(h)); if (c.hdrmode == 3) for (auto& h : c.hdr) s.erase(ref::lower(h));
    all = s.empty(); if (!all) for (auto& h : c.over) s.insert(ref::lower(h)); return s;
}
inline vector<size_t> selected(const Cfg& c, const ref::Msg& m) { bool all; auto n = names(c, all); vector<size_t> r; for (size_t i = 0; i < m.h.size(); i++) if (listable(ref::lower(m.h[i].name)) && (all || n.count(ref::lower(m.h[i].name)))) r.push_back(i); return r; }
// why signing must be refused ("" = must succeed)
inline string refusal(const Cfg& c, const string& msg) {
    ref::Msg m = ref::split(msg); auto sel = selected(c, m); bool from = false;
    auto bare = [](const string& s) { for (size_t i = 0; i < s.size(); i++) if (s[i] == '\r' && (i + 1 >= s.size() || s[i + 1] != '\n')) return true; return false; };
    for (size_t i : sel) { if (ref::lower(m.h[i].name) == "from") from = true; if (c.rh && bare(m.h[i].raw)) return "bare CR"; }
    for (auto& o : c.over) { if (!listable(ref::lower(o))) return "oversign name"; if (ref::lower(o) == "from") from = true; }
    if (!from) return "from"; if (c.arc > 50) return "arc instance";
    if (c.hasl && c.l > ref::body_canon(ref::body_of(msg, m), c.rb).size()) return "body limit";
    for (auto& s : c.sigs) { if (s.domain.empty() || s.selector.empty()) return "no domain or selector"; if (!s.key) return "no key"; if (is_ed(s.key) && c.sha1) return "ed25519 with sha1";
        if (!c.ident.empty() && !c.arc) { size_t k = c.ident.rfind('@'); if (k == string::npos) return "identity"; string d = ref::lower(c.ident.substr(k + 1)), sd = ref::lower(s.domain), suf = "." + sd; if (d != sd && !(d.size() > sd.size() && d.size() >= suf.size() && d.compare(d.size() - suf.size(), suf.size(), suf) == 0)) return "identity domain"; } }
    return "";
}
inline lib::Dns dns(const Cfg& c) { return [c](const string& q, string& out) { for (auto& s : c.sigs) if (q == s.selector + "._domainkey." + ref::lower(s.domain)) { out = lib::record(key(s.key)); return true; } out.clear(); return true; }; }
inline string show(const Cfg& c) {
    string o; for (auto& s : c.sigs) o += mc::fmt("{key%d %s %s}", s.key, s.domain.c_str(), s.selector.c_str()); o += c.sha1 ? " sha1" : ""; o += c.rh ? " h=relaxed" : ""; o += c.rb ? " b=relaxed" : "";
    if (c.hdrmode) { o += mc::fmt(" hdr%d(", c.hdrmode); for (auto& h : c.hdr) o += h + ","; o += ")"; } if (!c.over.empty()) { o += " over("; for (auto& h : c.over) o += h + ","; o += ")"; }
    if (c.hasl) o += mc::fmt(" l=%lu", c.l); if (c.hast) o += mc::fmt(" t=%ld", c.t); if (c.hasx) o += mc::fmt(" x=%ld%s", c.x, c.xabs ? "" : " relative"); if (!c.ident.empty()) o += " i=" + c.ident; if (c.arc) o += mc::fmt(" arc=%lu", c.arc); return o;
}
// every combination of two or three (wide: more) ordinary values of every option at once
inline Cfg product(mc::Ctx& c, string& m, bool wide) {
    static const vector<string> M = {"From: a@example.com\r\nSubject: x  y \r\nX-A: 1\r\nSubject: z\r\nTo: q\r\n\r\nbody  text \r\n\r\nmore\r\n\r\n", "Received: r\r\n f\r\nfrom: A <a@b>\n\t(c)\nTO:q\n\nx \n", "subject:\r\nFrom : one\r\nx-a:\r\nFrom: two\r\n\r\n", "From: n\r\nDKIM-Signature: v=1; b=x\r\nARC-Message-Signature: i=1\r\n"};
    Cfg g; int k = c.choose(3), o; g.sigs[0].key = k == 2 ? 2 : 3; g.sha1 = k == 1; g.rh = c.choose(2); g.rb = c.choose(2); m = M[(size_t)c.choose(wide ? 4 : 3)];
    o = c.choose(wide ? 5 : 3); if (o == 1) g.hdrmode = 1; if (o == 2) { g.hdrmode = 1; g.hdr = {"X-a", "FROM", "subject", "from", "nil"}; } if (o == 3) { g.hdrmode = 2; g.hdr = {"X-A", "received"}; } if (o == 4) { g.hdrmode = 3; g.hdr = {"TO", "subject"}; }
    o = c.choose(wide ? 3 : 2); if (o == 1) g.over = {"From", "subject", "x-a"}; if (o == 2) g.over = {"nil"};
    o = c.choose(wide ? 4 : 2); if (o) { g.hasl = true; size_t n = ref::body_canon(ref::body_of(m, ref::split(m)), g.rb).size(); g.l = o == 1 ? n / 2 : o == 2 ? 0 : n; }
    o = c.choose(wide ? 3 : 2); if (o) { g.hast = true; g.t = o == 1 ? 1699999990 : -1; } o = c.choose(3); if (o) { g.hasx = true; g.xabs = o == 1; g.x = o == 1 ? 1700003600 : 3600; }
    if (c.choose(2)) g.ident = "joe+x=y@sub.Example.com"; if (c.choose(2)) g.arc = 7;
    o = c.choose(wide ? 3 : 2); if (o) { Sig q; q.key = k == 1 ? 5 : 6; q.domain = "EXAMPLE.com"; q.selector = "two"; g.sigs.push_back(q); if (o == 2) { q.key = 3; q.selector = "three"; g.sigs.push_back(q); } }
    if (wide && c.choose(2)) { g.sigs[0].domain = "Example.Com"; g.sigs[0].selector = "a.B-c"; } return g;
}
// messages in which one thing is large
static const int LARGE_KINDS = 10;
inline const vector<int>& large_sizes() { static const vector<int> v = {1000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 24575, 32767, 32768, 65535, 65536, 65537, 100000, 131072, 262145, 1048577}; return v; }
inline const string& large(int kind, int size) {
    static int k0 = -1, n0; static string m; if (k0 == kind && n0 == size) return m; k0 = kind; n0 = size; string u, h = "From: a@b\r\n", t = "To: z\r\n", b = "\r\nbody\r\n"; size_t n = (size_t)size; auto rep = [&](const string& x) { string o; o.reserve(n + x.size()); while (o.size() < n) o += x; return o; };
    switch (kind) { case 0: b = "\r\n" + string(n, 'x'); break; case 1: b = "\r\n" + rep("a line of the body \r\n"); break; case 2: b = "\r\n" + rep("\r\n") + "x"; break; case 3: b = "\n" + rep("a \t b\n") + " "; break; case 4: h += "Subject: " + string(n, 's') + "\r\n"; break; case 5: h += "Subject: x" + rep("\r\n\t folded") + "\r\n"; break;
        case 6: { string o; for (int i = 0; o.size() < n && i < 6000; i++) o += mc::fmt("X-%d: value\r\n", i); h = o + h; break; } case 7: { for (int i = 0; h.size() < n && i < 6000; i++) h += mc::fmt("Subject: value %d\r\n", i); break; } case 8: h = "From:" + string(n / 2, ' ') + "a" + string(n / 2, '\t') + "b \r\n"; break; default: b = "\r\n" + rep(" ") + "y" + rep("\t") + "\r\n"; }
    m = h + t + b; return m;
}
}  // namespace cfg
