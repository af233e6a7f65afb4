// C21: emitted signature fields are well formed and say exactly what was configured.
#include "cfg.hpp"
using namespace mc;
using std::string;
using std::vector;
using cfg::Cfg;
const char* mc::property_id = "C21";

static vector<string> lines(const string& s) { vector<string> r; size_t p = 0; for (;;) { size_t e = s.find("\r\n", p); if (e == string::npos) { r.push_back(s.substr(p)); return r; } r.push_back(s.substr(p, e - p)); p = e + 2; } }
static string list(const vector<string>& v) { string o; for (auto& x : v) o += x + ":"; return o; }

static void run(Ctx& c, const Cfg& g, const string& msg) {
    string out, what; DKIM::SignatoryOptions o; cfg::apply(g, o);
    string cls = lib::sign(msg, o, out, &what), why = cfg::refusal(g, msg);
    c.transition(); c.state(cfg::show(g) + "|" + msg); c.note(cfg::show(g)); c.note(show(msg)); c.note(show(out, 4000)); c.sample(cfg::show(g) + " -> " + show(out, 300));
    string tag = " for " + cfg::show(g) + " and " + show(msg, 1000) + ": " + show(out, 3000);
    if (!cls.empty()) { c.require(out.empty(), "output-with-error", "refused with output" + tag); c.require(!why.empty(), "refused", what + tag); c.outcome("refused"); return; }
    c.require(why.empty(), "not-refused", "must be refused (" + why + ")" + tag);
    // --- physical form
    const char* name = g.arc ? "ARC-Message-Signature" : "DKIM-Signature"; size_t fields = 0;
    for (auto& l : lines(out)) {
        c.require(!l.empty(), "line", "empty line in the output" + tag);
        for (char x : l) c.require((x >= 0x20 && x <= 0x7e) || x == '\t', "octet", "octet outside printable ASCII in the output" + tag);
        if (l[0] != ' ' && l[0] != '\t') { fields++; c.require(l.compare(0, strlen(name) + 1, string(name) + ":") == 0, "name", "a line starts with something else than the field name" + tag); }
        else c.require(l.find_first_not_of(" \t") != string::npos, "line", "continuation line of white space only" + tag);
    }
    c.require(fields == g.sigs.size(), "count", fmt("%zu fields instead of %zu", fields, g.sigs.size()) + tag);
    // --- content, each field on its own
    ref::Msg em = ref::split(out); c.require(em.h.size() == g.sigs.size() && em.body < 0, "count", "the output is not just the fields" + tag);
    ref::Msg pm = ref::split(msg); auto sel = cfg::selected(g, pm); std::multiset<string> names; for (size_t i : sel) names.insert(ref::lower(pm.h[i].name)); for (auto& x : g.over) names.insert(ref::lower(x));
    vector<bool> used(g.sigs.size());
    string full = out + "\r\n" + msg; ref::Msg fm = ref::split(full);
    for (size_t f = 0; f < em.h.size(); f++) {
        ref::Sig s; string bad = ref::parse_sig(em.h[f], g.hasx ? 0 : env::clock_now, s); c.require(bad.empty() || bad == "x", "invalid", "not a valid signature field (" + bad + ")" + tag);
        size_t k = 0; for (; k < g.sigs.size(); k++) if (!used[k] && ref::lower(g.sigs[k].domain) == s.domain && g.sigs[k].selector == s.t["s"].value && (cfg::is_ed(g.sigs[k].key) ? "ed25519" : "rsa") == s.alg) break;
        c.require(k < g.sigs.size(), "identity", "domain, selector and algorithm are not those of a configured signature" + tag); used[k] = true;
        std::map<string, string> want; auto& t = s.t;
        if (g.arc) want["i"] = fmt("%lu", g.arc); else want["v"] = "1";
        want["a"] = string(cfg::is_ed(g.sigs[k].key) ? "ed25519-" : "rsa-") + (g.sha1 ? "sha1" : "sha256"); want["d"] = t["d"].value; want["s"] = g.sigs[k].selector;
        c.eq(ref::lower(t["d"].value), ref::lower(g.sigs[k].domain), "domain", "d=" + tag);
        if (t.count("c")) want["c"] = t["c"].value; c.require(s.rh == g.rh && s.rb == g.rb, "canonicalization", "c=" + tag);
        long ts = g.hast ? (g.t == -1 ? env::clock_now : g.t) : env::clock_now; if (g.hast) want["t"] = fmt("%ld", ts); if (g.hasx) want["x"] = fmt("%ld", g.xabs ? g.x : ts + g.x);
        if (g.hasl) want["l"] = fmt("%lu", g.l);
        if (!g.ident.empty() && !g.arc) { want["i"] = t.count("i") ? t["i"].value : ""; string id; c.require(t.count("i") && ref::qpdec(t["i"].value, id) && id == g.ident, "i", "identity " + show(g.ident) + tag); }
        want["h"] = t["h"].value; std::multiset<string> got; for (auto& x : s.h) got.insert(ref::lower(x)); c.require(got == names, "h", "h= lists " + list(s.h) + tag);
        want["bh"] = t["bh"].value; want["b"] = t["b"].value;
        for (auto& w : want) c.require(t.count(w.first) && t[w.first].value == w.second, "tag", "tag " + w.first + "=" + (t.count(w.first) ? t[w.first].value : "(absent)") + ", expected " + w.second + tag);
        for (auto& x : t) c.require(want.count(x.first), "extra", "unexpected tag " + x.first + tag);
        // the listed order is the hashing order: the signature verifies with fields selected in the listed order
        string v = ref::verdict(full, fm, f, cfg::key(g.sigs[k].key), 0); c.require(v.empty(), "order", "the emitted field does not verify: " + v + tag);
        // --- folding of h= and b=
        const string& raw = em.h[f].raw; size_t base = em.h[f].valueOff; size_t longest = 0; for (auto& x : s.h) longest = std::max(longest, x.size());
        for (const char* n : {"h", "b", "bh"}) { size_t from = base + t[n].off, to = base + t[n].end; size_t b = raw.rfind("\r\n", from); b = b == string::npos ? 0 : b + 2; while (b < to) { size_t e = raw.find("\r\n", b); if (e == string::npos) e = raw.size(); c.require(e - b <= 82 || (n[0] == 'h' && longest + 8 > 82 && e - b <= longest + 8), "folding", fmt("a line of %zu characters", e - b) + tag); b = e + 2; } }
        c.validated();
    }
    c.outcome(fmt("%zu %zu %d", out.size(), fields, (int)g.arc));
}
static const string& plain() { static string m = "From: a@example.com\r\nSubject: x\r\nSubject: y\r\nTo: z\r\n\r\nbody\r\n\r\n"; return m; }
static const vector<string> HOST = {"a", "1", "-", ".", ";", " ", "\r\n ", "_", string(1, '\0'), "\xc3", "=", ":", "@"};
static bool domain_ok(const string& s) {
    size_t p = 0; for (;;) { size_t e = s.find('.', p); string l = s.substr(p, e == string::npos ? string::npos : e - p); auto an = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); };
        if (l.empty() || !an(l[0]) || !an(l.back())) return false; for (char c : l) if (!an(c) && c != '-') return false; if (e == string::npos) return true; p = e + 1; }
}
template <class O> static void names(Ctx& c, O& o, const string& d, bool sel, const string& before) {
    string what, cls = lib::classify([&] { if (sel) o.SetSelector(d); else o.SetDomain(d); }, &what); bool ok = domain_ok(d); c.transition(); c.validated(); c.state((sel ? "s" : "d") + d);
    c.require(cls == (ok ? "" : "permerror"), ok ? "valid-refused" : "invalid-accepted", string(sel ? "selector " : "domain ") + show(d) + (cls.empty() ? " accepted" : " refused: " + what)); c.eq(sel ? o.GetSelector() : o.GetDomain(), ok ? d : before, "setting", "setting after the call with " + show(d)); c.outcome(ok ? "ok" : "refused");
}
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "options"; p.bound = th ? 4 : 3; p.what = "key types x digest x canonicalizations, all; every other option deviating from the default, up to " + std::to_string(p.bound) + " at once (header lists, oversigning, limit, timestamp, expiry, identity, ARC, additional signatures, domain, selector, message)";
      p.body = [](Ctx& c) {
          using L = std::list<string>; Cfg g; g.sigs[0].key = c.choose(2) ? 2 : 3; g.rh = c.choose(2); g.rb = c.choose(2); g.sha1 = c.deviate(2);
          static const vector<string> M = {plain(), "From: a\nX: b\n\n", "from: a\r\n" + string(60, 'n') + ": 1\r\nFrom: q\r\n", "To: only\r\n\r\n", "From: a\r\nDKIM-Signature: x\r\nReceived: r\r\n f\r\n\r\nb"}; const string& m = c.dev(M);
          static const vector<L> H = {{}, {}, {"from"}, {"FROM", "To", "x"}, {"subject"}}; int h = c.deviate(6); if (h && h < 5) { g.hdrmode = 1; g.hdr = H[(size_t)h]; } if (h == 5) { g.hdrmode = 2; g.hdr = {"X", "received"}; }
          static const vector<L> OV = {{}, {"from"}, {"From", "Subject", "x-y"}, {"a;b"}, {"b=c", "from"}, {"a\r\n b"}, {"\xc3"}}; g.over = c.dev(OV);
          int l = c.deviate(4); if (l) { g.hasl = true; g.l = l == 1 ? 0 : l == 2 ? 2 : 99999; } int t = c.deviate(5); if (t) { g.hast = true; g.t = t == 1 ? -1 : t == 2 ? 0 : t == 3 ? 1 : 99999999999L; } int x = c.deviate(6); if (x) { g.hasx = true; g.xabs = x < 4; g.x = x == 1 ? 0 : x == 2 ? 1 : x == 3 ? 2000000000000L : x == 4 ? 0 : 86400; }
          static const vector<string> ID = {"", "joe@example.com", "@sub.example.com", "a;b=c\r\n d: \x80@example.com", "a@b@Example.COM", "=3D@example.com", string(90, 'q') + "@example.com"}; g.ident = c.dev(ID); static const vector<unsigned long> AR = {0, 1, 50, 10}; g.arc = c.dev(AR);
          int a = c.deviate(5); auto add = [&](int k, const char* d, const char* s) { cfg::Sig q; q.key = k; q.domain = d; q.selector = s; g.sigs.push_back(q); }; if (a == 1) add(2, "example.com", "ed"); if (a == 2) { add(5, "example.com", "r2"); add(6, "sub.example.com", "e2"); } if (a == 3) add(3, "EXAMPLE.com", "sel"); if (a == 4) { add(2, "example.com", "x1"); add(3, "example.com", "x2"); add(2, "example.com", "x3"); }
          int d = c.deviate(4); if (d == 1) g.sigs[0].domain = "Example.Com"; if (d == 2) { g.sigs[0].domain = string(63, 'd') + ".com"; g.sigs[0].selector = string(63, 's'); } if (d == 3) g.sigs[0].selector = "a.b-c";
          run(c, g, m); }; p.split = 6; out.push_back(p); }
    { Phase p; p.name = "field-names"; int n = th ? 5 : 4; p.what = "messages with a field name of every string over {a : ; = , SP, TAB, octet 0x80, DEL, NUL, CR} up to " + std::to_string(n) + " symbols, all fields signed or that name listed or oversigned"; p.body = [n](Ctx& c) { static const vector<string> A = {"a", ";", "=", ",", " ", "\t", "\x80", "\x7f", string(1, '\0'), "\r", "b"}; string nm = c.word(A, 0, n); int mode = c.choose(3); Cfg g; g.sigs[0].key = 2; g.hdrmode = 1; if (mode == 1) g.hdr = {"from", nm}; if (mode == 2) { g.hdr = {"from"}; g.over = {nm}; } run(c, g, "From: a@b\r\n" + nm + ": v\r\nTo: x\r\n\r\nb\r\n"); }; out.push_back(p); }
    { Phase p; p.name = "identities"; p.split = 2; int n = th ? 6 : 4; p.what = "identities with every local part over 12 hostile symbols up to " + std::to_string(n) + ", and every single octet"; p.body = [n](Ctx& c) { string id; if (c.choose(2)) { id = string("x") + (char)c.choose(256) + "y"; } else { static const vector<string> A = {"a", ";", "=", "\r\n", "\n", " ", "\"", "@", string(1, '\0'), "\xff", "\t", "i="}; id = c.word(A, 0, n); } Cfg g; g.sigs[0].key = 2; g.ident = id + "@example.com"; run(c, g, plain()); }; out.push_back(p); }
    { Phase p; p.name = "mail-domains"; int n = th ? 6 : 5; p.what = "identities with every domain over {a b . A} up to " + std::to_string(n) + " symbols, and domains of every length up to 300 that are unrelated, end in d= with and without a dot, start with it or hold it inside, against six domains of one or two signatures: signed exactly if equal to or below d="; p.split = 3; p.body = [n](Ctx& c) { static const vector<string> A = {"a", "b", ".", "A"}, D = {"a", "a.b", "B.a", "b.a.b", "example.com", "aa.bb"}; string d = c.pick(D), i; int w = c.choose(7), second = c.choose(2); if (w < 2) { i = c.word(A, 0, w ? n : 2); if (w == 0) i += "." + d; } else { int m = c.choose(301); string x((size_t)m, 'x'); i = w == 2 ? x : w == 3 ? x + d : w == 4 ? x + "." + d : w == 5 ? d + "." + x : x + "." + d + ".y"; if (m > 10) for (size_t k = 5; k + 1 < (size_t)m; k += 7) i[w == 5 ? i.size() - k : k] = '.'; } Cfg g; g.sigs[0].key = 2; g.sigs[0].domain = d; if (second) { cfg::Sig q = g.sigs[0]; q.key = 6; q.domain = "b"; q.selector = "s2"; g.sigs.push_back(q); } g.ident = "u@" + i; run(c, g, plain()); }; out.push_back(p); }
    { Phase p; p.name = "domains"; int n = th ? 6 : 5; p.what = "SetDomain and SetSelector, on the main and on an additional signature, with every string over 13 symbols up to " + std::to_string(n) + ": refused exactly if not labels of letters, digits and inner hyphens"; p.body = [n](Ctx& c) { int w = c.choose(4); string d = c.word(HOST, 0, n); DKIM::SignatoryOptions o; auto& a = o.AddAdditionalSignature(); o.SetDomain("d.com").SetSelector("s"); a.SetDomain("d.com"); a.SetSelector("s"); if (w < 2) names(c, o, d, w, w ? "s" : "d.com"); else names(c, a, d, w == 3, w == 3 ? "s" : "d.com"); }; out.push_back(p); }
    { Phase p; p.name = "domain-octets"; p.what = "every octet first, inside and last in a label"; p.body = [](Ctx& c) { int w = c.choose(4), k = c.choose(5); char x = (char)c.choose(256); static const char* pre[] = {"", "a", "ab.", "a", "a."}; static const char* post[] = {"b", "b", "", "", ".b"}; string d = string(pre[k]) + x + post[k]; DKIM::SignatoryOptions o; auto& a = o.AddAdditionalSignature(); if (w < 2) names(c, o, d, w, ""); else names(c, a, d, w == 3, ""); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "folding"; p.what = "1 to 60 fields with names of every length 1 to 100, and two-length mixes: folding of h="; p.body = [th](Ctx& c) { int n = 1 + c.choose(th ? 60 : 24), len = 1 + c.choose(100), other = c.pick(vector<int>{0, 1, 37, 79}); Cfg g; g.sigs[0].key = 2; g.hdrmode = 1; string m; for (int i = 0; i < n; i++) m += string((size_t)(other && i % 2 ? other : len), (char)('a' + i % 26)) + ": v\r\n"; m += "From: a\r\n\r\n"; run(c, g, m); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "long-names"; p.what = "domains and selectors of 1 to 127 labels of every length 1 to 63 up to 253 octets, well formed or with one ill-formed label or octet at the start, in the middle or at the end: option calls, and emitted fields"; p.body = [](Ctx& c) { int len = 1 + c.choose(63), n = 1 + c.choose(4), w = c.choose(4), bad = c.choose(13); static const int COUNT[] = {1, 2, 5, 127}; n = COUNT[n - 1]; if (n * (len + 1) - 1 > 253) n = 254 / (len + 1); vector<string> l; for (int i = 0; i < n; i++) l.push_back(string((size_t)len, (char)('a' + i % 26))); int at = bad % 3 == 0 ? 0 : bad % 3 == 1 ? n / 2 : n - 1; string& x = l[(size_t)at]; switch (bad ? 1 + (bad - 1) / 3 : 0) { case 1: x = "-" + x.substr(1); break; case 2: x[x.size() - 1] = '-'; break; case 3: x = ""; break; case 4: x[x.size() / 2] = '_'; break; } string d; for (size_t i = 0; i < l.size(); i++) d += (i ? "." : "") + l[i];
          DKIM::SignatoryOptions o; auto& a = o.AddAdditionalSignature(); o.SetDomain("d.com").SetSelector("s"); a.SetDomain("d.com"); a.SetSelector("s"); if (w < 2) names(c, o, d, w, w ? "s" : "d.com"); else names(c, a, d, w == 3, w == 3 ? "s" : "d.com"); if (!bad) { Cfg g; g.sigs[0].key = 2; if (w & 1) g.sigs[0].selector = d; else g.sigs[0].domain = d; if (w & 2) { cfg::Sig q = g.sigs[0]; g.sigs[0] = cfg::Sig(); g.sigs[0].key = 2; g.sigs.push_back(q); } run(c, g, plain()); } }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "long-lists"; p.what = "1..40, 63..65, 127..129, 255..257, 1000 fields of one name, of different names, or of alternating names of 1 and 78 characters, signed all, listed, or oversigned as often; identities of up to 2000 octets in three alphabets"; p.body = [](Ctx& c) { static vector<int> N; if (N.empty()) { for (int i = 1; i <= 40; i++) N.push_back(i); for (int i : {63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}) N.push_back(i); } int n = c.pick(N), mode = c.choose(5), f = c.choose(3); Cfg g; g.sigs[0].key = 2; g.rh = n & 1;
          if (mode == 4) { string u = f == 0 ? "x" : f == 1 ? "a;=" : "\xc3\xa9 "; while ((int)g.ident.size() < n * 2) g.ident += u; g.ident += "@example.com"; run(c, g, plain()); return; } string m; auto nm = [&](int i) { return f == 0 ? string("X-Field") : f == 1 ? fmt("X-%d", i) : i % 2 ? string(78, 'y') : string("z"); };
          if (mode == 3) { for (int i = 0; i < n; i++) g.over.push_back(nm(i)); run(c, g, plain()); return; } for (int i = 0; i < n; i++) m += nm(i) + ": " + std::to_string(i) + "\r\n"; m += "From: a\r\n\r\nb\r\n"; if (mode == 1) { g.hdrmode = 1; g.hdr = {"from"}; for (int i = 0; i < n; i += 2) g.hdr.push_back(nm(i)); } if (mode == 2) g.over = {nm(0), nm(n / 2), nm(n), "from"}; run(c, g, m); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "product"; p.split = 7; p.what = string("every combination of ") + (th ? "2-5" : "2-3") + " ordinary values of every option at once (keys, digest, canonicalizations, message, headers, oversigning, limit, timestamp, expiry, identity, ARC, additional signatures)"; p.body = [th](Ctx& c) { string m; Cfg g = cfg::product(c, m, th); run(c, g, m); }; out.push_back(p); }
}
