// C01: everything the signer emits verifies; what could never verify is refused.
#include "cfg.hpp"
using namespace mc; using std::string; using std::vector; using cfg::Cfg;
const char* mc::property_id = "C01";
static void run(Ctx& c, const Cfg& g, const string& msg) {
    if (g.sigs.size() > 1) for (auto& o : g.over) if (ref::lower(o) == (g.arc ? "arc-message-signature" : "dkim-signature")) { c.outcome("outside"); return; } // forbids the very fields that are added with it
    c.sample(cfg::show(g) + " | " + show(msg)); c.note("configuration: " + cfg::show(g)); c.note("message: " + show(msg));
    string out, what, cls; DKIM::SignatoryOptions o; cfg::apply(g, o); cls = lib::sign(msg, o, out, &what);
    string why = cfg::refusal(g, msg); c.transition(); c.state(cfg::show(g) + "|" + msg);
    string tag = " for " + cfg::show(g) + " and " + show(msg);
    if (!why.empty()) { c.require(cls == "permerror", "not-refused", "must be refused (" + why + ") but gave " + (cls.empty() ? "a signature" : cls) + tag); c.require(out.empty(), "output-with-error", "refused but produced output"); c.outcome("refused " + why); return; }
    c.require(cls.empty(), "refused", "signing was refused with " + cls + " (" + what + ")" + tag); c.note("signature: " + show(out, 3000));
    string full = out + "\r\n" + msg; auto v = lib::verify(full, cfg::dns(g), g.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
    auto before = lib::verify(msg, cfg::dns(g), g.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM);
    c.require(v.size() == g.sigs.size() + before.size(), "count", fmt("%zu signatures found instead of %zu", v.size(), g.sigs.size() + before.size()) + tag);
    for (size_t i = 0; i < g.sigs.size(); i++) c.require(v[i].pass(), "does-not-verify", fmt("signature %zu: ", i) + v[i].cls + " (" + v[i].what + ")" + tag);
    // every configured domain/selector is there
    std::multiset<string> a, b; for (auto& s : g.sigs) a.insert(ref::lower(s.domain) + "/" + s.selector); for (size_t i = 0; i < g.sigs.size(); i++) b.insert(v[i].domain + "/" + v[i].selector); c.require(a == b, "identity", "domains and selectors of the signatures differ from the configured ones" + tag);
    c.validated(); c.outcome(lib::verdicts(v) + fmt("%zu", out.size()));
}
static string message(Ctx& c, bool dev) {
    auto pick = [&](const vector<string>& v) -> const string& { return dev ? c.dev(v, "message part") : c.pick(v, "message part"); };
    static const vector<string> FROM = {"From: Joe <joe@example.com>\r\n", "from:a@b\r\n", "FROM : \tx\r\n y \r\n\tz\r\n", "From:\r\n", "From: a@b\nSender: c@d\n", "From: a\r\nFrom: b\r\n", "From: \xc3\xa9\x80\xff;:=\r\n"};
    static const vector<string> REST = {"Subject: Hi  there \r\nTo: x@y\r\n", "", "Subject: one\r\nSubject: two\r\nsubject: three\r\n", "X-Other: z\r\nsuBject:\t\r\nDate: now\n", "noc\r\nSub;ject: q\r\nSubject: s\r\n", "Subject: a\r\n b\r\n\tc\r\n\r \r\n", "To: a\r\nX y: v\r\n: empty\r\nX\xe9: w\r\nCc: d\r\n", "DKIM-Signature: v=1; a=rsa-sha256; d=example.com; s=sel; h=from; bh=x; b=y\r\nSubject: s\r\n", "Subject: bare\rcr\r\nTo: x\r\n"};
    static const vector<string> BODY = {"\r\nHello  world \t\r\n\r\n\r\n", "\r\n", "", "\r\nno newline", "\n\n\n", "\nlf only\n a\tb \n", "\r\n\r\r\n \r\n", "\r\n" + string(8190, 'q') + " \t \r\n\r\nx" };
    string f = pick(FROM), r = pick(REST), b = pick(BODY); return (dev ? c.deviate(2) : c.choose(2)) ? r + f + b : f + r + b;
}
static void options(Ctx& c, Cfg& g, const string& msg) {
    using L = std::list<string>;
    static const vector<L> HD = {{}, {"from"}, {"From", "SUBJECT", "x-none"}, {}, {"subject"}, {"from", "from", "to", "subject", "subject"}, {"Sub;ject", "from", "x y", "noc"}};
    int h = c.deviate(10, "headers"); if (h == 1) { g.hdrmode = 1; g.hdr = HD[1]; } if (h == 2) { g.hdrmode = 1; g.hdr = HD[2]; } if (h == 3) { g.hdrmode = 1; } if (h == 4) { g.hdrmode = 1; g.hdr = HD[4]; } if (h == 5) { g.hdrmode = 1; g.hdr = HD[5]; } if (h == 6) { g.hdrmode = 2; g.hdr = {"X-Other", "from"}; } if (h == 7) { g.hdrmode = 3; g.hdr = {"FROM"}; } if (h == 8) { g.hdrmode = 1; g.hdr = HD[6]; } if (h == 9) { g.hdrmode = 3; g.hdr = {"Subject", "x", "to"}; }
    static const vector<L> OV = {{}, {"from"}, {"From", "subject"}, {"x-none"}, {"from", "FROM"}, {"subject", "subject", "x-other"}, {"a:b"}, {""}, {"DKIM-Signature", "from"}, {"arc-message-signature"}}; g.over = c.dev(OV, "oversign");
    long n = (long)ref::body_canon(ref::body_of(msg, ref::split(msg)), g.rb).size(); int l = c.deviate(6, "limit"); if (l) { long v[] = {0, 0, 1, n - 1, n, n + 1}; g.hasl = true; g.l = (unsigned long)std::max(0L, v[l]); }
    int t = c.deviate(4, "timestamp"); if (t) { g.hast = true; g.t = t == 1 ? -1 : t == 2 ? 0 : 1699999999; }
    int x = c.deviate(5, "expiry"); if (x) { g.hasx = true; g.xabs = x < 3; g.x = x == 1 ? env::clock_now : x == 2 ? 4000000000L : x == 3 ? 0 : 3600; if (!g.xabs && g.hast && g.t == 0) g.x = 1800000000L; if (!g.xabs && g.hast && g.t == 1699999999) g.x += 1; }
    static const vector<string> ID = {"", "@example.com", "joe@example.com", "j;o=e: \"x\"@Sub.EXAMPLE.com", "a@b@example.com", "joe@example.org", "joe", "joe@xexample.com", "\xff\x01@example.com", "very" + string(100, 'i') + "@example.com"}; g.ident = c.dev(ID, "identity");
    static const vector<unsigned long> AR = {0, 1, 50, 51, 7}; g.arc = c.dev(AR, "arc");
    int a = c.deviate(8, "additional"); auto add = [&](int k, const char* d, const char* s) { cfg::Sig q; q.key = k; q.domain = d; q.selector = s; g.sigs.push_back(q); };
    if (a == 1) add(2, "example.com", "ed"); if (a == 2) add(5, "example.com", "rsab"); if (a == 3) { add(6, "example.com", "edb"); add(3, "example.com", "r512"); } if (a == 4) add(0, "example.com", "none"); if (a == 5) add(5, "example.org", "other"); if (a == 6) add(5, "", "nodom"); if (a == 7) { add(2, "Example.COM", "ed"); add(5, "sub.example.com", "x"); }
    int d = c.deviate(5, "domain"); if (d == 1) g.sigs[0].domain = "EXAMPLE.com"; if (d == 2) g.sigs[0].domain = ""; if (d == 3) g.sigs[0].selector = ""; if (d == 4) { g.sigs[0].selector = "a.b-c.2024"; g.sigs[0].domain = "x"; }
}
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "options"; p.what = std::string("key type {rsa,ed25519,none} x digest x both canonicalizations, all; message shape and every option deviating from the default, up to ") + (th ? "3" : "2") + " deviations";
      p.body = [](Ctx& c) { Cfg g; static const int KT[] = {1, 2, 0}; g.sigs[0].key = KT[c.choose(3, "key")]; g.rh = c.choose(2, "hcanon"); g.rb = c.choose(2, "bcanon"); g.sha1 = c.choose(2, "digest"); string m = message(c, true); options(c, g, m); run(c, g, m); }; p.bound = th ? 3 : 2; p.split = 9; out.push_back(p); }
    { Phase p; p.name = "messages"; p.what = "every combination of From, rest, body and order variants x both canonicalizations x {rsa,ed25519} x {default list, all fields, oversigned}";
      p.body = [](Ctx& c) { Cfg g; string m = message(c, false); g.rh = c.choose(2); g.rb = c.choose(2); g.sigs[0].key = c.choose(2) ? 2 : 3; int k = c.choose(3); if (k) g.hdrmode = 1; if (k == 2) { g.hdr = {"from"}; g.over = {"from", "subject", "to"}; } run(c, g, m); }; p.split = 4; out.push_back(p); }
    { Phase p; p.name = "bodies"; int n = th ? 7 : 5; p.what = "every body over {a,LF,SP,CR,TAB} up to length " + std::to_string(n) + " x body canonicalization x limits {none,0,1,2,3,4,len+1}";
      p.body = [n](Ctx& c) { static const vector<string> A = {"a", "\n", " ", "\r", "\t"}; string b = c.word(A, 0, n); Cfg g; g.sigs[0].key = 2; g.rb = c.choose(2); int l = c.choose(7); string m = "From: a@b\r\n\r\n" + b; if (l) { g.hasl = true; g.l = l == 6 ? ref::body_canon(b, g.rb).size() + 1 : (unsigned long)l - 1; } run(c, g, m); }; out.push_back(p); }
    { Phase p; p.name = "headers"; int n = th ? 7 : 5; p.what = "every From value and every extra field over {a,colon,SP,TAB,CRLF SP,semicolon} up to length " + std::to_string(n) + " x header canonicalization, all fields signed";
      p.body = [n](Ctx& c) { static const vector<string> A = {"a", ":", " ", "\r\n ", ";", "\t"}; int w = c.choose(2); string s = c.word(A, 0, n); Cfg g; g.sigs[0].key = 2; g.hdrmode = 1; g.rh = c.choose(2); string m = w ? "From:" + s + "\r\n\r\nx" : "From: a\r\nX" + s + "\r\nTo: z\r\n\r\nx"; run(c, g, m); }; out.push_back(p); }
    { Phase p; p.name = "manyheaders"; p.what = "1..120 fields with names of 1..90 characters: all foldings of the h= list";
      p.body = [](Ctx& c) { int n = 1 + c.choose(40); n = n > 30 ? (n - 30) * 12 : n; int len = 1 + c.choose(90); Cfg g; g.sigs[0].key = 2; g.hdrmode = 1; g.rh = c.choose(2); string m; for (int i = 0; i < n; i++) m += string((size_t)len, (char)('a' + i % 26)) + fmt(": %d\r\n", i); m += "From: a\r\n\r\n"; run(c, g, m); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "key-sizes"; int n = th ? 2000 : 250; p.what = "RSA keys of 512, 1023 (exponent 3), 1024, 1025, 2047, 2048 and 4096 bits and ed25519 x digest x " + std::to_string(n) + " messages (signature values with every kind of first and last octet)";
      p.body = [n](Ctx& c) { static const int KT[] = {3, 2, 1, 8, 9, 10, 4, 7}; int k = c.choose(8); Cfg g; g.sigs[0].key = KT[k]; g.sha1 = c.choose(2); int m = k == 7 ? n / 25 : k >= 5 ? n / 10 : n; int i = c.choose(m); g.rb = i & 1; run(c, g, fmt("From: a@b\r\n\r\nmessage %d\r\n", i)); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "lengths"; p.what = "domains, selectors and identities of every length 1..100";
      p.body = [](Ctx& c) { int n = 1 + c.choose(100), w = c.choose(3); Cfg g; g.sigs[0].key = 2; g.rh = c.choose(2); string s((size_t)n, 'a'); if (w == 0) g.sigs[0].domain = s + ".example.com"; if (w == 1) g.sigs[0].selector = s; if (w == 2) g.ident = s + "@example.com"; run(c, g, "From: a\r\n\r\n"); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "additional"; p.what = "1..20, 31..33, 63..65, 127..129, 255..257 additional signatures with keys, domains and selectors in turn, complete or with one that lacks a key, a domain, or does not cover the identity, first, in the middle or last"; p.body = [](Ctx& c) { static vector<int> N; if (N.empty()) { for (int i = 1; i <= 20; i++) N.push_back(i); for (int i : {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}) N.push_back(i); } int n = c.pick(N), bad = c.choose(4), at = c.choose(3), mode = c.choose(4); if (!bad && at) throw Pruned(); Cfg g; static const int KT[] = {2, 3, 6, 2, 2}; g.sigs[0].key = KT[mode]; g.rh = mode & 1; if (mode == 2) g.ident = "joe@sub.example.com"; if (mode == 3) g.arc = 3; for (int i = 0; i < n; i++) { cfg::Sig q; q.key = KT[i % 5]; q.domain = i % 3 ? "example.com" : "Example.COM"; q.selector = fmt("s%d", i); g.sigs.push_back(q); } cfg::Sig& q = g.sigs[(size_t)(at == 0 ? 1 : at == 1 ? 1 + n / 2 : n)]; if (bad == 1) q.key = 0; if (bad == 2) q.domain = ""; if (bad == 3) q.domain = "other.sub.example.com"; run(c, g, "From: a@b\r\nTo: x\r\n\r\nbody\r\n"); }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "large"; p.what = "messages with a body, field, number of fields or run of white space of 1000..1048577 octets (powers of two and their neighbours) x both canonicalizations x digest x {default list, all fields, limit, oversigned}"; p.body = [](Ctx& c) { int k = c.choose(cfg::LARGE_KINDS), n = c.pick(cfg::large_sizes()); Cfg g; int w = c.choose(4), o = c.choose(4); g.rh = w & 1; g.rb = w & 2; g.sigs[0].key = o & 1 ? 3 : 2; g.sha1 = o == 3; if (o) g.hdrmode = 1; if (o == 3) { g.hdr = {"from"}; g.over = {"from", "subject", "x-0"}; } const string& m = cfg::large(k, n); if (o == 2 && n <= 131072) { g.hasl = true; g.l = (unsigned long)n / 2; } run(c, g, m); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "product"; p.split = 7; p.what = string("every combination of ") + (th ? "2-5" : "2-3") + " ordinary values of every option at once (keys, digest, canonicalizations, message, headers, oversigning, limit, timestamp, expiry, identity, ARC, additional signatures)"; p.body = [th](Ctx& c) { string m; Cfg g = cfg::product(c, m, th); run(c, g, m); }; out.push_back(p); }
}
