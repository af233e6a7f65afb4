// C12: DNS answers, through the real resolver code with res_nquery decided by the explorer.
#include "cfg.hpp"
#include <netdb.h>
using namespace mc; using std::string; using std::vector;
const char* mc::property_id = "C12";
static string u16(int n) { return string(1, (char)(n >> 8)) + (char)n; }
static string header(int qd, int an, int ns, int ar) { return "\x12\x34\x81\x80" + u16(qd) + u16(an) + u16(ns) + u16(ar); }
static string dname(const string& n) { string o; size_t p = 0; while (p < n.size()) { size_t d = n.find('.', p); if (d == string::npos) d = n.size(); o += (char)(d - p); o += n.substr(p, d - p); p = d + 1; } return o + '\0'; }
static const string Q = "sel._domainkey.example.com";
static string question() { return dname(Q) + u16(16) + u16(1); }
static string rr(const string& owner, int type, const string& rdata, int cl = 1) { return owner + u16(type) + u16(cl) + string("\0\0\x01\x2c", 4) + u16((int)rdata.size()) + rdata; }
static string strs(const vector<string>& v) { string o; for (auto& s : v) { o += (char)s.size(); o += s; } return o; }
// independent reading of a packet: true if it is well formed in question and answer section; text = TXT strings in order
static bool skip(const string& p, size_t& o) { for (;;) { if (o >= p.size()) return false; unsigned char l = (unsigned char)p[o]; if (l == 0) { o++; return true; } if (l >= 0xc0) { if (o + 2 > p.size()) return false; o += 2; return true; } if (l >= 0x40) return false; o += 1u + l; } }
static bool read(const string& p, string& text) {
    text.clear(); if (p.size() < 12) return false; auto w = [&](size_t o) { return ((unsigned char)p[o] << 8) | (unsigned char)p[o + 1]; }; size_t o = 12; int qd = w(4), an = w(6);
    for (int i = 0; i < qd; i++) { if (!skip(p, o)) return false; o += 4; if (o > p.size()) return false; }
    for (int i = 0; i < an; i++) { if (!skip(p, o) || o + 10 > p.size()) return false; int t = w(o); size_t n = (size_t)w(o + 8); o += 10; if (o + n > p.size()) return false; if (t == 16) for (size_t q = o, e = o + n; q < e;) { size_t l = (unsigned char)p[q]; if (q + 1 + l > e) return false; text += p.substr(q + 1, l); q += 1 + l; } o += n; }
    return true;
}
static string lookup(string& out, const string& q = Q) { static DKIM::Util::Resolver r; out.clear(); return r.GetTXT(q, out) ? "ok" : "temp"; }
static const vector<string>& fills() { static const vector<string> f = {string(1, '\0'), "\xff", "A", string("\xc0\x0c\x00\x10\x00\x01\x00\x00\x01\x2c\x00\x05\x04" "evil", 17), "\x01"}; return f; }
static void packet(Ctx& c, const string& p, int len = -1) {
    string want; bool good = len <= (int)p.size() && (len < 0 || true); good = read(len >= 0 && len < (int)p.size() ? p.substr(0, (size_t)len) : p, want) && len <= (int)p.size(); string first, firsttext; bool have = false; c.state(p); c.note(show(p, 2000)); c.sample(show(p, 300));
    for (auto& f : fills()) { if (good && &f != &fills()[0] && &f != &fills()[3]) continue; env::dns = env::Dns(); env::dns.packet = p; env::dns.len = len; env::dns.fill = f; string out; string r = lookup(out); c.transition(); c.validated();
        if (good) { c.require(r == "ok", "refused", "a well formed answer was reported as failure: " + show(p, 1500)); c.eq(out, want, "text", "text of " + show(p, 1500)); }
        if (have) c.require(r == first && out == firsttext, "outside", "the result depends on octets after the packet: " + show(p, 1500)); have = true; first = r; firsttext = out; }
    c.outcome(first + (good ? " good " : " bad ") + (firsttext.empty() ? "0" : "1"));
}
struct Sm { string msg; }; // signed message with domain d and selector s
static const string& sigmsg(const string& d, const string& s, int alg) { static std::map<string, string> m; string k = d + "|" + s + (char)('0' + alg); auto i = m.find(k); if (i != m.end()) return i->second; string x = "From: a@example.com\r\n\r\nbody\r\n"; return m[k] = ref::make_sig(x, "DKIM-Signature", string(" v=1; a=") + (alg ? "ed25519-sha256" : "rsa-sha256") + "; d=" + d + "; s=" + s + "; h=from; bh=@BH@; b=@B@", cfg::key(alg ? 2 : 3), "", "", env::clock_now) + "\r\n" + x; }
static string verify(const string& m, string* what) { std::istringstream in(m); DKIM::Validatory v(in); DKIM::Signature s; DKIM::PublicKey pk; return lib::classify([&] { auto i = v.GetSignatures().begin(); v.GetSignature(i, s); v.GetPublicKey(s, pk); v.CheckSignature(i, s, pk); }, what); }
void mc::phases(vector<Phase>& out, bool th) {
    static const vector<string> owners = {string("\xc0\x0c", 2), string(1, '\0'), dname(Q), string("\x01x\xc0\x0c", 4), dname("other.example.org")};
    static const vector<vector<string>> texts = {{"abc"}, {"a", "bc"}, {""}, {}, {string(255, 'x')}, {string(255, 'y'), "z", "", "w"}, {string("\0\xff\xc0\x0c", 4)}, {"", ""}};
    { Phase p; p.name = "answers"; int n = th ? 4 : 3, b = th ? 4 : 2; p.what = "well formed answers: 0-2 questions, up to " + std::to_string(n) + " answer records of every kind (TXT with 8 string shapes, CNAME, A, RRSIG, empty, unknown) with every owner form, authority and additional records";
      p.body = [n](Ctx& c) { int qd = c.dev(vector<int>{1, 0, 2}), an = c.choose(n + 1); string body; for (int i = 0; i < qd; i++) body += question(); for (int i = 0; i < an; i++) { string o = c.dev(owners); int kind = c.choose(7); switch (kind) { case 0: case 1: body += rr(o, 16, strs(kind == 0 ? texts[(size_t)c.choose(3)] : texts[(size_t)c.choose(5) + 3])); break; case 2: body += rr(o, 5, dname("x.example.org")); break; case 3: body += rr(o, 1, "\x7f\x01\x01\x01"); break; case 4: body += rr(o, 46, string("\0\x10", 2) + string(20, 't')); break; case 5: body += rr(o, 99, strs({"spf"})); break; case 6: body += rr(o, 65535, ""); break; } }
          int ns = c.deviate(2), ar = c.deviate(2); if (ns) body += rr(owners[0], 16, strs({"authority"})); if (ar) body += rr(owners[0], 16, strs({"additional"})); packet(c, header(qd, an, ns, ar) + body); }; p.bound = b; p.split = 4; out.push_back(p); }
    static const vector<string> base = { header(1, 1, 0, 0) + question() + rr(owners[0], 16, strs({"v=DKIM1; p=abc"})), header(1, 2, 0, 1) + question() + rr(owners[0], 5, dname("k.example.org")) + rr(dname("k.example.org"), 16, strs({"v=DKIM1; ", "p=abc"})) + rr(owners[1], 16, strs({"add"})), header(0, 2, 0, 0) + rr(owners[1], 16, strs({"a", ""})) + rr(owners[3], 16, strs({"b"})) };
    { Phase p; p.name = "octets"; p.what = "3 answers with every octet replaced by every value, then truncated nowhere or at every place after it"; p.body = [th](Ctx& c) { string b = c.pick(base); int pos = c.choose((int)b.size()); b[(size_t)pos] = (char)c.choose(256); if (c.choose(2)) { int cut = th ? c.choose((int)b.size() - pos) : c.choose(std::min(6, (int)b.size() - pos)); b = b.substr(0, b.size() - (size_t)cut - 1); } packet(c, b); }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "pairs"; p.what = "pairs of octets of a short answer replaced by boundary values"; p.body = [](Ctx& c) { string b = base[2]; static const vector<int> V = {0, 1, 2, 10, 16, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xff}; int x = c.choose((int)b.size()), y = c.choose((int)b.size()); if (y <= x) return; b[(size_t)x] = (char)c.pick(V); b[(size_t)y] = (char)c.pick(V); packet(c, b); }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "truncation"; p.what = "4 answers cut at every length, including shorter than the header, with the full and the cut length reported"; p.body = [](Ctx& c) { vector<string> v = base; v.push_back(header(1, 3, 0, 0) + question() + rr(owners[0], 16, strs(texts[5])) + rr(owners[4], 16, strs(texts[4])) + rr(owners[0], 16, strs({"e"}))); const string b = v[(size_t)c.choose(4)]; string q = b.substr(0, (size_t)c.choose((int)b.size() + 1)); packet(c, q); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "counts"; p.what = "every question and answer count up to 65535 at powers of two and their neighbours with few records present"; p.body = [](Ctx& c) { static vector<int> N; if (N.empty()) for (int i = 0; i <= 16; i++) for (int d = -1; d <= 1; d++) { int x = (1 << i) + d; if (x >= 0 && x < 65536) N.push_back(x); } string b = c.pick(base); int a = c.pick(N), q = c.choose(2) ? c.pick(N) : -1; b.replace(6, 2, u16(a)); if (q >= 0) b.replace(4, 2, u16(q)); packet(c, b); }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "big"; p.what = "answers of every size around 64 KiB, and reported lengths beyond the buffer"; p.body = [](Ctx& c) { int total = 65536 - c.choose(40); string head = header(1, 0, 0, 0) + question(); string body; int an = 0; string want; while ((int)(head.size() + body.size()) + 12 + 256 <= total) { string t(255, (char)('a' + an % 26)); body += rr(owners[0], 16, strs({t})); an++; } int left = total - (int)(head.size() + body.size()) - 12 - 1; if (left >= 0) { body += rr(owners[0], 16, strs({string((size_t)left, 'z')})); an++; } head.replace(6, 2, u16(an)); string p = head + body; int over = c.choose(6); if (over == 0) { packet(c, p); return; }
          env::dns = env::Dns(); env::dns.packet = p; env::dns.len = over == 1 ? 65537 : over == 2 ? 65536 + 100 : over == 3 ? 1 << 20 : over == 4 ? 0x7fffffff : 65537 + total; string o; string r = lookup(o); c.transition(); c.validated(); c.require(r == "temp", "oversized", fmt("an answer of %d octets was used", env::dns.len)); c.outcome("oversized"); }; p.split = 1; out.push_back(p); }
    { Phase p; p.name = "errors"; p.what = "lookup failures of every kind, good answers without TXT, and good keys in several layouts, through whole verifications with both key types"; p.body = [](Ctx& c) { int alg = c.choose(2); const string& m = sigmsg("example.com", "sel", alg); string P = lib::record(cfg::key(alg ? 2 : 3)); int k = c.choose(16); env::dns = env::Dns(); string want; string name;
          auto ans = [&](int an, const string& b) { env::dns.packet = header(1, an, 0, 0) + question() + b; };
          switch (k) { case 0: env::dns.fail = true; env::dns.herr = HOST_NOT_FOUND; want = "permerror"; break; case 1: env::dns.fail = true; env::dns.herr = NO_DATA; want = "permerror"; break; case 2: env::dns.fail = true; env::dns.herr = NO_RECOVERY; want = "permerror"; break; case 3: env::dns.fail = true; env::dns.herr = TRY_AGAIN; want = "temperror"; break; case 4: env::dns.fail = true; env::dns.herr = -1; want = "temperror"; break;
            case 5: ans(0, ""); want = "permerror"; break; case 6: ans(1, rr(owners[0], 5, dname("a.b"))); want = "permerror"; break; case 7: ans(1, rr(owners[0], 16, strs({""}))); want = "permerror"; break; case 8: { vector<string> v; for (size_t i = 0; i < P.size(); i += 255) v.push_back(P.substr(i, 255)); ans(1, rr(owners[0], 16, strs(v))); break; } case 9: { vector<string> v; for (char x : P) v.push_back(string(1, x)); ans(1, rr(owners[2], 16, strs(v))); break; } case 10: { string b = rr(owners[0], 5, dname("k.x")); vector<string> v; for (size_t i = 0; i < P.size(); i += 200) { v.push_back(P.substr(i, 200)); v.push_back(""); } ans(2, b + rr(dname("k.x"), 16, strs(v))); break; } case 11: { vector<string> v; for (size_t i = 0; i < P.size(); i += 250) v.push_back(P.substr(i, 250)); ans(2, rr(owners[0], 46, string(30, 'r')) + rr(owners[0], 16, strs(v))); break; } case 12: ans(1, rr(owners[0], 16, strs({"v=DKIM1; p="}))); want = "permerror"; break; case 13: env::dns.packet = string(65536, '\0'); env::dns.len = 65537; want = "temperror"; break; case 14: { vector<string> v; for (size_t i = 0; i < P.size(); i += 100) v.push_back(P.substr(i, 100)); string b; int an = 0; for (auto& s : v) { b += rr(owners[0], 16, strs({s})); an++; } ans(an, b); break; } case 15: { vector<string> v; for (size_t i = 0; i < P.size(); i += 255) v.push_back(P.substr(i, 255)); ans(1, rr(owners[0], 16, strs(v))); env::dns.packet += rr(owners[0], 16, strs({"junk"})); break; } }
          env::dns_queries.clear(); string what; string r = verify(m, &what); c.transition(); c.validated(); c.state(fmt("%d/%d", alg, k)); c.require(r == want, "class", fmt("DNS case %d gave ", k) + (r.empty() ? "pass" : r) + " " + what + ", expected " + (want.empty() ? "pass" : want)); c.require(env::dns_queries.size() == 1 && env::dns_queries[0] == Q && env::dns_class == 1 && env::dns_type == 16, "query", "query was " + (env::dns_queries.empty() ? string("none") : env::dns_queries[0])); c.outcome(r + what); }; p.split = 1; out.push_back(p); }
    { Phase p; p.name = "names"; p.what = "query names for domains and selectors of many shapes, with the resolver and with a custom resolver"; p.body = [](Ctx& c) { static const vector<string> D = {"example.com", "EXAMPLE.com", "a", "a.b", "x-y.example.co.uk", "xn--a.example", "1.2.3.4", string(63, 'a') + ".example.com", string(63, 'a') + "." + string(63, 'b') + "." + string(50, 'c') + ".com", "d_e.com"}; static const vector<string> S = {"sel", "Sel", "a", "s1.s2", "s-1", "2024._x", string(63, 's'), "s_t"}; string d = c.pick(D), s = c.pick(S); int custom = c.choose(2); const string& m = sigmsg(d, s, 1); string P = lib::record(cfg::key(2)); string want = s + "._domainkey." + ref::lower(d); string got; int cl = 1, ty = 16; string what;
          if (custom) { std::istringstream in(m); DKIM::Validatory v(in); int n = 0; void* seen = nullptr; int marker; v.CustomDNSData = &marker; v.CustomDNSResolver = [&](const string& q, string& o, void* dt) { n++; got = q; seen = dt; o = P; return true; }; DKIM::Signature sg; DKIM::PublicKey pk; string r = lib::classify([&] { auto i = v.GetSignatures().begin(); v.GetSignature(i, sg); v.GetPublicKey(sg, pk); v.CheckSignature(i, sg, pk); }, &what); c.require(n == 1 && seen == &marker, "custom", "custom resolver called " + std::to_string(n) + " times"); c.require(r.empty(), "verdict", r + what); }
          else { env::dns = env::Dns(); env::dns.packet = header(1, 1, 0, 0) + question() + rr(owners[0], 16, strs({P})); env::dns_queries.clear(); string r = verify(m, &what); c.require(env::dns_queries.size() == 1, "count", "several queries"); got = env::dns_queries[0]; cl = env::dns_class; ty = env::dns_type; c.require(r.empty(), "verdict", r + what); }
          c.transition(); c.validated(); c.state(d + "/" + s); c.eq(ref::lower(got), ref::lower(want), "query", "query name"); c.require(cl == 1 && ty == 16, "query-type", "class or type"); c.outcome(got); }; p.split = 2; out.push_back(p); }
}
