// C02: library signer -> reference verifier, and reference signer (any legal layout of the
// signature field) -> library verifier.
#include "cfg.hpp"
using namespace mc; using std::string; using std::vector; using cfg::Cfg;
const char* mc::property_id = "C02";
static const vector<string>& messages() { static const vector<string> M = {
    "From: Joe <joe@example.com>\r\nSubject: Is  dinner \t ready?\r\nTo: a@b\r\n\r\nHi.\r\n\r\nWe lost  the game. \t\r\n\r\n\r\n",
    "Subject: one\r\nFROM : x\r\n y\r\nsubject:two\r\nTo: c\r\nTo:  d \r\n\r\n", "From: a\nSubject: b\n\nlf body\n x\t\n", "from:\r\n", "To: a\r\nX-A: 1\r\nFrom: z\r\nX-A: 2\r\nX-a : 3 \r\n\r\n no end",
    "From: a\r\nSubject: b : c : \xc3\xa9\r\n\r\n\t\r\n \r\n\r\n" }; return M; }
static void tolib(Ctx& c, const Cfg& g, const string& msg) { // library signs, reference verifies
    string out, what; DKIM::SignatoryOptions o; cfg::apply(g, o); string cls = lib::sign(msg, o, out, &what); c.transition(); c.state(cfg::show(g) + "|" + msg); c.sample("library signs " + cfg::show(g) + " | " + show(msg));
    string tag = " for " + cfg::show(g) + " and " + show(msg); c.note("signature " + show(out, 3000));
    if (!cfg::refusal(g, msg).empty()) { c.require(!cls.empty() && out.empty(), "not-refused", "refusal expected" + tag); c.outcome("refused"); return; }
    c.require(cls.empty(), "refused", "signing refused: " + what + tag);
    string full = out + "\r\n" + msg; ref::Msg p = ref::split(full); size_t n = g.sigs.size(); string o1;
    ref::Msg orig = ref::split(msg); c.require(p.h.size() == orig.h.size() + n, "fields", "the output is not exactly one field per signature" + tag);
    // what must be covered: every configured instance, and one more for each oversigned name
    std::multiset<string> want; for (size_t i : cfg::selected(g, orig)) want.insert(ref::lower(orig.h[i].name)); for (auto& x : g.over) want.insert(ref::lower(x));
    std::multiset<string> keys; for (size_t i = 0; i < n; i++) {
        ref::Sig s; string e = ref::parse_sig(p.h[i], env::clock_now, s); c.require(e.empty(), "unparseable", "signature is not acceptable: " + e + tag);
        const cfg::Sig* k = nullptr; for (auto& q : g.sigs) if (ref::lower(q.domain) == s.domain && q.selector == s.selector) k = &q; c.require(k, "who", "d=/s= of the emitted signature are not configured" + tag);
        keys.insert(k->selector); string v = ref::verdict(full, p, i, cfg::key(k->key), env::clock_now); c.require(v.empty(), "reference-rejects", "the reference verifier says " + v + tag);
        std::multiset<string> got; for (auto& h : s.h) got.insert(ref::lower(h)); c.require(got == want, "coverage", "h= does not list the configured fields" + tag); o1 += s.alg + s.digest; }
    c.require(keys.size() == n, "who", "a signature is missing" + tag); c.validated(); c.outcome(o1 + fmt("%zu", want.size()));
}
static void fromref(Ctx& c, bool arc, const string& msg, const string& name, const string& value, const ref::Key& k, const string& bpre, const string& bpost, int wrap, const string& sep, int where) {
    string f = ref::make_sig(msg, name, value, k, bpre, bpost, env::clock_now, wrap, sep); c.require(f.compare(0, 5, "ERROR") != 0, "harness", "reference refuses its own layout " + show(value) + ": " + f);
    ref::Msg p = ref::split(msg); string head; size_t at = where == 0 ? 0 : where == 1 ? p.h.size() : p.h.size() / 2; string full; // insert the field before field number `at`
    for (size_t i = 0; i <= p.h.size(); i++) { if (i == at) full += f + "\r\n"; if (i < p.h.size()) full += p.h[i].raw + "\r\n"; }
    if (p.body >= 0) full += "\r\n" + msg.substr((size_t)p.body);
    c.transition(); c.state(full); c.sample("reference signs " + show(f, 700)); c.note("message " + show(full, 4000)); ref::Msg q = ref::split(full); size_t idx = at; string rv = ref::verdict(full, q, idx, k, env::clock_now); c.require(rv.empty(), "harness", "reference rejects itself: " + rv);
    auto v = lib::verify(full, lib::fixed(lib::record(k)), arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM); c.require(v.size() == 1, "discovery", fmt("%zu signatures found", v.size()));
    c.require(v[0].pass(), "library-rejects", "the library says " + v[0].cls + " (" + v[0].what + ") for " + show(full, 3000)); c.require(v[0].domain == "example.com" && v[0].selector == "sel", "who", "domain or selector differ"); c.validated(); c.outcome(fmt("%zu", hash_str(value)));
}
static void layout(Ctx& c, bool full) {
    // canonicalization and key are enumerated, everything else deviates
    int arc = c.deviate(2, "arc"); int key = c.choose(full ? 8 : 2, "key"); int hc = c.choose(2, "hcanon"), bc = c.choose(2, "bcanon"); const string& msg = c.dev(messages(), "message");
    static const int KN[] = {2, 3, 1, 4, 7, 8, 9, 10}; const ref::Key& k = cfg::key(KN[key]); bool sha1 = key && c.deviate(2, "sha1");
    static const vector<string> WSs = {" ", "", "\r\n ", "\t", "\r\n\t  ", "  \r\n "}; // before a tag
    static const vector<string> IN = {"", " ", "\r\n\t"};                             // around = and before ;
    static const vector<string> HL = {"From:Subject:To", "from", "FROM : subject:\r\n\tTo:Subject : x-a:X-A:x-missing", "subject:from:from:from", "X-a:x-A:to:to:to:From", "Subject\r\n : From", "from:subject:to:from:subject:to", "dkim-signature:From:DKIM-Signature", "from:arc-message-signature", "MIME-Version:Date:Sender:From:Resent-From:list-unsubscribe-post"};
    string cval; int co = c.deviate(2, "c form"); if (co) { if (!bc) cval = hc ? "relaxed" : ""; else cval = hc ? "relaxed/relaxed" : "simple/relaxed"; if (!bc && !hc) cval = ""; } else cval = string(hc ? "relaxed" : "simple") + (bc ? "/relaxed" : "/simple");
    vector<std::pair<string, string>> tags; tags.push_back(arc ? std::make_pair(string("i"), string("1")) : std::make_pair(string("v"), string("1")));
    tags.push_back({"a", k.type + (sha1 ? "-sha1" : "-sha256")}); if (!cval.empty()) tags.push_back({"c", cval}); static const vector<string> D = {"example.com", "Example.COM", "EXAMPLE.com"}; tags.push_back({"d", c.dev(D, "d")}); tags.push_back({"s", "sel"});
    int q = c.deviate(2, "q"); if (q) tags.push_back({"q", "dns/txt"}); int id = arc ? 0 : c.deviate(4, "i"); if (id) tags.push_back({"i", id == 1 ? "@example.com" : id == 2 ? "joe=20x=3B@Sub.example.COM" : "j=40o@\r\n example.com"});
    int t = c.deviate(3, "t x"); if (t) { tags.push_back({"t", "1600000000"}); tags.push_back({"x", t == 1 ? "4000000000" : "1700000000"}); } int l = c.deviate(4, "l"); if (l) tags.push_back({"l", l == 1 ? "0" : l == 2 ? "3" : "00000000000000000000000000001"});
    int z = c.deviate(7, "extra"); if (z == 1) tags.push_back({"z", "From:a|b=c"}); if (z == 2) tags.push_back({"B", "upper"}); if (z == 3) tags.push_back({"xb", ""}); if (z == 4) tags.push_back({"bb", "b=\r\n b="}); if (z == 5) tags.push_back({"r", "!~<>@:"}); if (z == 6) tags.push_back({"a_1", "b=x"});
    tags.push_back({"h", c.dev(HL, "h")}); tags.push_back({"bh", "@BH@"}); tags.push_back({"b", "@B@"});
    int ord = c.deviate(7, "order"); size_t n = tags.size(); if (ord == 1) std::reverse(tags.begin(), tags.end()); if (ord == 2) std::rotate(tags.begin(), tags.begin() + (long)n - 1, tags.end()); if (ord == 3) std::swap(tags[n - 1], tags[n - 2]); if (ord == 4) std::rotate(tags.begin(), tags.begin() + (long)n / 2, tags.end()); if (ord == 5) std::rotate(tags.begin() + 1, tags.begin() + (long)n - 1, tags.end()); if (ord == 6) std::sort(tags.begin(), tags.end());
    int wide = c.deviate(4, "white space everywhere"); int at = c.deviate((int)tags.size() + 1, "white space at one tag"); string s0, s1, s2, s3; if (at) { int w = c.choose(4, "where"); const string& ws = c.pick(WSs, "white space"); (w == 0 ? s0 : w == 1 ? s1 : w == 2 ? s2 : s3) = ws; }
    string value; for (size_t i = 0; i < n; i++) { bool me = at && (int)i == at - 1; string b0 = wide == 1 ? "\r\n\t" : wide == 2 ? "" : wide == 3 ? " \t" : " "; if (i == 0 && wide == 2) b0 = ""; string b1 = wide == 3 ? " " : "", b2 = wide == 3 ? "\r\n " : "", b3 = wide == 3 ? " " : ""; if (me) { if (!s0.empty()) b0 = s0; if (!s1.empty()) b1 = s1; if (!s2.empty()) b2 = s2; if (!s3.empty()) b3 = s3; }
        value += (i ? ";" : "") + b0 + tags[i].first + b1 + "=" + b2 + tags[i].second + b3; }
    int tail = c.deviate(5, "end"); value += tail == 0 ? "" : tail == 1 ? ";" : tail == 2 ? "; " : tail == 3 ? "\r\n " : ";\r\n\t";
    static const vector<string> BW = {"", " ", "\r\n\t", "\r\n  \t", "\t \r\n "}; string bpre = c.dev(BW, "before b"), bpost = c.dev(BW, "after b"); if (c.deviate(2, "wide b")) bpre = bpost = "\r\n ";
    static const vector<int> WR = {0, 64, 10, 1}; int wrap = c.dev(WR, "wrap b"); static const vector<string> SEP = {"\r\n\t ", " ", "\r\n ", "\t"}; const string& sep = wrap ? c.dev(SEP, "separator") : SEP[0];
    static const vector<string> ND = {"DKIM-Signature", "dkim-signature", "DKIM-SIGNATURE ", "Dkim-Signature\t"}, NA = {"ARC-Message-Signature", "arc-message-signature", "ARC-MESSAGE-SIGNATURE ", "Arc-Message-Signature\t"};
    const string& nm = c.dev(arc ? NA : ND, "name"); int where = c.deviate(3, "position"); if (where && !arc) {} fromref(c, arc, msg, nm, value, k, bpre, bpost, wrap, sep, where);
}
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "reference-to-library"; p.what = std::string("signature fields written by the reference signer: key type x both canonicalizations, all; message, tag order, white space at every place, folding and wrapping of b= and bh=, optional tags, header name forms, position: up to ") + (th ? "3" : "2") + " deviations";
      p.body = [](Ctx& c) { layout(c, false); }; p.bound = th ? 3 : 2; p.split = 8; out.push_back(p); }
    { Phase p; p.name = "key-sizes"; p.what = "as above with RSA keys of 512, 1023 (exponent 3), 1024, 1025, 2047, 2048 and 4096 bits and ed25519 keys, one deviation"; p.body = [](Ctx& c) { layout(c, true); }; p.bound = 1; p.split = 5; out.push_back(p); }
    { Phase p; p.name = "library-to-reference"; p.what = std::string("signatures written by the library: every message x canonicalizations x key types, options deviating up to ") + (th ? "3" : "2");
      p.body = [](Ctx& c) { Cfg g; static const int KT[] = {1, 2}; g.sigs[0].key = KT[c.choose(2)]; g.rh = c.choose(2); g.rb = c.choose(2); const string& m = c.pick(messages()); g.sha1 = c.deviate(2);
          int h = c.deviate(6); if (h == 1) { g.hdrmode = 1; g.hdr = {"from"}; } if (h == 2) g.hdrmode = 1; if (h == 3) { g.hdrmode = 2; g.hdr = {"X-A"}; } if (h == 4) { g.hdrmode = 3; g.hdr = {"SUBJECT"}; } if (h == 5) { g.hdrmode = 1; g.hdr = {"FROM", "x-a", "X-A", "none"}; }
          static const vector<std::list<string>> OV = {{}, {"from"}, {"From", "subject", "x-a"}, {"none", "None"}}; g.over = c.dev(OV); int l = c.deviate(3); if (l) { g.hasl = true; g.l = l == 1 ? 0 : 2; } int t = c.deviate(3); if (t) { g.hast = true; g.t = t == 1 ? -1 : 5; } int x = c.deviate(3); if (x) { g.hasx = true; g.xabs = x == 1; g.x = x == 1 ? 4000000000L : 3000000000L; }
          static const vector<string> ID = {"", "@example.com", "a;=\t b@sub.example.com", "a@b@Example.com"}; g.ident = c.dev(ID); static const vector<unsigned long> AR = {0, 1, 50}; g.arc = c.dev(AR); int a = c.deviate(4); auto add = [&](int k, const char* d, const char* s) { cfg::Sig q; q.key = k; q.domain = d; q.selector = s; g.sigs.push_back(q); }; if (a == 1) add(2, "example.com", "ed"); if (a == 2) add(5, "example.com", "rsab"); if (a == 3) { add(6, "example.com", "edb"); add(3, "Example.com", "r512"); }
          tolib(c, g, m); }; p.bound = th ? 3 : 2; p.split = 5; out.push_back(p); }
    { Phase p; p.name = "bodies"; int n = th ? 7 : 5; p.what = "every body over {a,LF,SP,CR,TAB} up to length " + std::to_string(n) + ", both body canonicalizations, signed by the reference, verified by the library, and back";
      p.body = [n](Ctx& c) { static const vector<string> A = {"a", "\n", " ", "\r", "\t"}; string b = c.word(A, 0, n); int bc = c.choose(2), dir = c.choose(2); string m = "From: a@b\r\n\r\n" + b; if (dir) { Cfg g; g.sigs[0].key = 2; g.rb = bc; tolib(c, g, m); } else fromref(c, false, m, "DKIM-Signature", string(" v=1; a=ed25519-sha256; c=simple/") + (bc ? "relaxed" : "simple") + "; d=example.com; s=sel; h=from; bh=@BH@; b=@B@", cfg::key(2), "", "", 0, "", 0); }; out.push_back(p); }
    { Phase p; p.name = "headers"; int n = th ? 7 : 5; p.what = "every field value over {a,colon,SP,TAB,CRLF SP} up to length " + std::to_string(n) + ", both header canonicalizations, both directions";
      p.body = [n](Ctx& c) { static const vector<string> A = {"a", ":", " ", "\r\n ", "\t"}; string s = c.word(A, 0, n); int hc = c.choose(2), dir = c.choose(2); string m = "From:" + s + "\r\n\r\nx"; if (dir) { Cfg g; g.sigs[0].key = 2; g.rh = hc; tolib(c, g, m); } else fromref(c, false, m, "DKIM-Signature", string(" v=1; a=ed25519-sha256; c=") + (hc ? "relaxed" : "simple") + "; d=example.com; s=sel; h=from; bh=@BH@; b=@B@", cfg::key(2), "", "", 0, "", 0); }; out.push_back(p); }
    { Phase p; p.name = "large"; int top = th ? 1048577 : 131072; p.what = "messages with a body, field, number of fields or run of white space of 1000.." + std::to_string(top) + " octets (powers of two and their neighbours), both canonicalizations, both directions"; p.body = [top](Ctx& c) { int k = c.choose(cfg::LARGE_KINDS), n = c.pick(cfg::large_sizes()); if (n > top) throw Pruned(); int w = c.choose(4), o = c.choose(4); const string& m = cfg::large(k, n); if (o < 2) { Cfg g; g.sigs[0].key = o ? 3 : 2; g.rh = w & 1; g.rb = w & 2; if (o) g.hdrmode = 1; tolib(c, g, m); return; } string h = "from:subject:to"; if (o == 3 && k == 7) for (int i = 0; i < n / 20; i++) h += ":subject"; if (o == 3 && k == 6) for (int i = 0; i < n / 20; i++) h += fmt(":x-%d", i); if (o == 3 && k != 6 && k != 7) h += ":none:from"; fromref(c, false, m, "DKIM-Signature", string(" v=1; a=ed25519-sha256; c=") + (w & 1 ? "relaxed" : "simple") + (w & 2 ? "/relaxed" : "/simple") + "; d=example.com; s=sel; h=" + h + "; bh=@BH@; b=@B@", cfg::key(2), "", "", 0, "", o == 3 ? 2 : 0); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "product"; p.split = 6; p.what = string("signature fields written by the reference signer: every combination of two ") + (th ? "or three " : "") + "layouts of every part at once (algorithm, canonicalizations, message, h=, d= and i=, t= and x=, l=, q= and z=, order, white space, folding of b= and bh=, name and position, DKIM and ARC); the library's signatures: every combination of two or three values of every option";
      p.body = [th](Ctx& c) {
          if (c.choose(2)) { string m; Cfg g = cfg::product(c, m, th); tolib(c, g, m); return; }
          int k = c.choose(3), hc = c.choose(2), bc = c.choose(2); bool arc = c.choose(2); const string& msg = messages()[(size_t)c.choose(th ? 5 : 2)]; const ref::Key& key = cfg::key(k == 2 ? 2 : 3);
          vector<std::pair<string, string>> t; t.push_back(arc ? std::make_pair(string("i"), string("12")) : std::make_pair(string("v"), string("1"))); t.push_back({"a", k == 2 ? "ed25519-sha256" : k ? "rsa-sha1" : "rsa-sha256"}); t.push_back({"c", string(hc ? "relaxed" : "simple") + (bc ? "/relaxed" : "/simple")});
          int d = c.choose(2), h = c.choose(2), x = c.choose(2), l = c.choose(th ? 3 : 2), ord = c.choose(th ? 3 : 2), wide = c.choose(th ? 3 : 2), b = c.choose(2), w = c.choose(2), n = c.choose(2);
          t.push_back({"d", d ? "Example.COM" : "example.com"}); t.push_back({"s", "sel"}); if (d && !arc) t.push_back({"i", "a=3Db=40c@x.EXAMPLE.com"}); if (x) { t.push_back({"t", "1699999999"}); t.push_back({"q", "dns/txt"}); t.push_back({"x", "1700000000"}); t.push_back({"z", "From:a|To:b"}); } if (l) t.push_back({"l", l == 1 ? "5" : "0"});
          t.push_back({"h", h ? "Subject:FROM\r\n : from:subject:subject:X-a:to" : "from:subject"}); t.push_back({"bh", "@BH@"}); t.push_back({"b", "@B@"}); size_t N = t.size(); if (ord == 1) std::rotate(t.begin(), t.begin() + (long)N - 1, t.end()); if (ord == 2) std::reverse(t.begin(), t.end());
          string v; for (size_t i = 0; i < N; i++) v += string(i ? ";" : "") + (wide == 1 ? "\r\n\t " : wide ? "" : " ") + t[i].first + (wide == 1 ? " =\t" : "=") + t[i].second + (wide == 1 ? " " : ""); if (w) v += "; ";
          fromref(c, arc, msg, arc ? (n ? "ARC-MESSAGE-signature " : "ARC-Message-Signature") : n ? "dkim-SIGNATURE\t" : "DKIM-Signature", v, key, b ? " \r\n\t" : "", b ? "\t" : "", w ? 40 : 0, b ? "\r\n\t" : "\r\n ", n ? 1 : 0); };
      out.push_back(p); }
}
