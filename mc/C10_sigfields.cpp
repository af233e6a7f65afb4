// C10: acceptance and reported values of signature fields.
#include "cfg.hpp"
using namespace mc; using std::string; using std::vector;
const char* mc::property_id = "C10";
static string dump(const ref::Sig& s) { string h; for (auto& x : s.h) h += show(x) + ","; return (s.arc ? "arc" : "dkim") + string(" ") + s.alg + "-" + s.digest + (s.rh ? " r" : " s") + (s.rb ? "/r " : "/s ") + show(s.domain) + show(s.selector) + h + show(s.local) + "@" + show(s.maildomain) + fmt(" l=%d,%lu i=%lu", s.hasl, s.l, s.inst); }
static string dump(const DKIM::Signature& s) { string h; for (auto& x : s.GetSignedHeaders()) h += show(x) + ","; return (s.IsARC() ? "arc" : "dkim") + string(" ") + (s.GetSignatureAlgorithm() == DKIM::DKIM_SA_RSA ? "rsa" : "ed25519") + "-" + (s.GetDigestAlgorithm() == DKIM::DKIM_A_SHA1 ? "sha1" : "sha256") + (s.GetCanonModeHeader() == DKIM::DKIM_C_RELAXED ? " r" : " s") + (s.GetCanonModeBody() == DKIM::DKIM_C_RELAXED ? "/r " : "/s ") + show(s.GetDomain()) + show(s.GetSelector()) + h + show(s.GetMailLocalPart()) + "@" + show(s.GetMailDomain()) + fmt(" l=%d,%lu i=%lu", s.GetBodySizeLimit(), s.GetBodySize(), s.GetARCInstance()); }
static void check(Ctx& c, const string& raw) {
    ref::Msg m = ref::split(raw + "\r\n\r\n"); if (m.h.size() != 1 || !m.h[0].colon) { c.outcome("no field"); return; }
    ref::Sig w; string why = ref::parse_sig(m.h[0], env::clock_now, w); auto h = std::make_shared<DKIM::Header>(); { std::istringstream in(raw + "\r\n\r\n"); DKIM::Message p; while (p.ParseLine(in) && !p.IsDone()) {} h = p.GetHeaders().front(); }
    DKIM::Signature s; string what, cls = lib::classify([&] { s.Parse(h); }, &what); c.transition(); c.validated(); c.state(raw); c.sample(show(raw, 600) + " -> " + (why.empty() ? "accepted" : "refused: " + why)); c.note(show(raw, 3000));
    if (!why.empty()) { c.require(cls == "permerror", "accepted", "must be refused (" + why + ") but gave " + (cls.empty() ? "success" : cls) + ": " + show(raw, 2000)); c.outcome("refused " + why); return; }
    if (cls == "permerror" && ref::loose(w.t)) { c.outcome("refused"); return; }
    c.require(cls.empty(), "refused", "valid field refused: " + what + ": " + show(raw, 2000)); w.arc = ref::lower(m.h[0].name) == "arc-message-signature"; string a = dump(s), b = dump(w); c.eq(a, b, "values", "values of " + show(raw, 1500));
    if (w.b_ok) c.eq(s.GetSignatureData(), w.b, "b", "signature data"); if (w.bh_ok) c.eq(s.GetBodyHash(), w.bh, "bh", "body hash"); c.require(s.GetQueryType() == DKIM::Signature::DKIM_Q_DNSTXT, "q", "query type");
    for (auto& kv : w.t) { DKIM::TagListEntry e; c.require(s.GetTag(kv.first, e) && e.GetValue() == kv.second.value, "tag", "tag " + kv.first); } c.outcome(b);
}
struct T { const char* n; vector<string> v; bool arc, dkim; };
static const string& Z(const string& s) { static std::map<string, string> m; return m[s] = s; }
static const vector<T>& tags() { static const string B = "MTIzNDU2Nzg5MDEyMzQ1Njc4OTAxMjM0NTY3ODkwMTI="; static const vector<T> t = {
    {"v", {"1", "\x01", "", "2", "1.0", "01", "1 1", "DKIM1"}, false, true},
    {"a", {"rsa-sha256", "rsa-sha1", "ed25519-sha256", "\x01", "", "RSA-SHA256", "rsa-sha512", "ed25519-sha1", "rsa-sha256x", "rsa", "rsa -sha256", "sha256", "rsa-sha256:rsa-sha1"}, true, true},
    {"b", {"QUJDRA==", "QUJD\r\n\tREVG", "\x01", "", "=", "Q U J D", "!!!!", B + "\r\n " + B}, true, true}, {"bh", {B, "\x01", "", "MTIzNDU2Nzg5MDEy\r\n MzQ1Njc4OTAxMjM0NTY3ODkwMTI=", "QQ==", "?", "MTIz"}, true, true},
    {"c", {"\x01", "simple", "relaxed", "simple/relaxed", "relaxed/simple", "relaxed/relaxed", "simple/simple", "", "/", "relaxed/", "/relaxed", "Relaxed", "relaxed/relaxed/x", "relaxed /simple", "relaxed/Simple", "nofws", "simple/nofws", "simplerelaxed"}, true, true},
    {"d", {"example.com", "\x01", "", "EXAMPLE.Com", "a", "sub.example.com", "exa mple.com", "example.com."}, true, true},
    {"h", {"from:to", "\x01", "", "From", "to:FROM : Subject", "to:subject", "from:", ":from", "from::to", "from:to:from:From", "fromx:xfrom", "from to", "\r\n\tFrom:\r\n\tTo", "a:b:c:d:e:f:from", "from:x;y"}, true, true},
    {"i", {"\x01", "@example.com", "joe@example.com", "joe@sub.example.com", "joe@a.b.EXAMPLE.com", "joe", "", "joe@example.org", "joe@xexample.com", "joe@.example.com", "a@b@example.com", "a@example.com@b", "a=40b@example.com", "a=40example.com", "a=4@example.com", "a=4x@example.com", "j=20o=3Be@ex=61mple.com", "jo\r\n e@example.com", "joe@", "joe@com", "joe@example.com ", "=C3=A9@example.com", "\"a b\"@example.com", "1", "a=0Ab@example.com", "a=3b@example.com"}, false, true},
    {"i", {"1", "50", "2", "\x01", "", "0", "51", "-1", "+1", "1x", "x", "01", "0050", "99999999999999999999", "4294967297", "18446744073709551617", "1.5", "1 2", "joe@example.com"}, true, false},
    {"l", {"\x01", "0", "1", "00", "4096", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "+1", "1x", "x", "", "0x10", "1e3", "1 2", "1.0", string(76, '0'), string(75, '0') + "7", string(77, '0'), string(77, '1')}, true, true},
    {"q", {"\x01", "dns/txt", "", "dns", "DNS/TXT", "dns/txt/x", "http"}, true, true}, {"s", {"sel", "\x01", "", "SEL.a-b", "1", "se l", "s\xc3"}, true, true}, {"t", {"\x01", "1", "", "x", "99999999999999999999"}, true, true},
    {"x", {"\x01", "1700000000", "1699999999", "1700000001", "0", "1", "2147483647", "4294967296", "9223372036854775807"}, true, true}, {"z", {"\x01", "From:a|To:b", "", "d=x", "b"}, true, true}, {"D", {"\x01", "evil.org"}, true, true}};
    return t; }
static string build(Ctx& c, bool arc) {
    string o; int n = 0; for (auto& t : tags()) { if (arc ? !t.arc : !t.dkim) continue; const string& v = t.v[(size_t)c.deviate((int)t.v.size(), t.n)]; if (v == "\x01") continue; o += string(n++ ? "; " : " ") + t.n + "=" + v; } int e = c.deviate(4, "end"); if (e == 1) o += ";"; if (e == 2) o += "; d=twice.org"; if (e == 3) o += ";;"; return o;
}
static void with(Ctx& c, bool arc, const char* tag, const string& v) { string o = arc ? "ARC-Message-Signature:" : "DKIM-Signature:"; int n = 0; bool in = false; for (auto& t : tags()) { if (arc ? !t.arc : !t.dkim) continue; string x = t.v[0]; if (!strcmp(t.n, tag)) { x = v; in = true; } if (x == "\x01") continue; o += string(n++ ? "; " : " ") + t.n + "=" + x; } (void)in; check(c, o); }
void mc::phases(vector<Phase>& out, bool th) {
    (void)Z; { Phase p; p.name = "tags"; int b = th ? 4 : 3; p.what = "DKIM and ARC signature fields: every tag takes valid, invalid, empty and absent values, up to " + std::to_string(b) + " of them different from the default; header name forms";
      p.body = [](Ctx& c) { bool arc = c.choose(2); static const vector<string> ND = {"DKIM-Signature:", "dkim-signature:", "Dkim-Signature :"}, NA = {"ARC-Message-Signature:", "arc-message-signature:", "ARC-MESSAGE-SIGNATURE\t:"}; string n = c.dev(arc ? NA : ND); check(c, n + build(c, arc)); }; p.bound = b; p.split = 8; out.push_back(p); }
    auto words = [&](const char* name, const char* tag, bool arc, vector<string> A, int n) { Phase p; p.name = name; string al; for (auto& a : A) al += show(a); p.what = string(arc ? "ARC " : "DKIM ") + tag + "= with every value over " + al + " up to " + std::to_string(n) + " symbols"; string t = tag; p.body = [t, arc, A, n](Ctx& c) { with(c, arc, t.c_str(), c.word(A, 0, n)); }; out.push_back(p); };
    words("i-values", "i", false, {"a", "@", "example.com", ".", "=40", "=3B", "=", "\r\n "}, th ? 6 : 5); words("l-values", "l", false, {"0", "9", "1", "-", " ", "x", "18446744073709551", "9223372036854775"}, th ? 6 : 5); words("h-values", "h", false, {"from", ":", " ", "to", "FROM", "\r\n\t", ","}, th ? 7 : 6);
    words("c-values", "c", false, {"simple", "relaxed", "/", " ", "s"}, th ? 7 : 6); words("a-values", "a", false, {"rsa", "-", "sha256", "sha1", "ed25519", " "}, 5); words("arc-instances", "i", true, {"0", "1", "5", "9", "-", " ", "x"}, th ? 6 : 5); words("d-values", "d", false, {"a", "A", ".", "-", " ", "example.com"}, 5); words("q-values", "q", false, {"dns", "/", "txt", "DNS", " "}, 5); words("v-values", "v", false, {"1", "0", ".", " ", "2"}, 4);
    { Phase p; p.name = "identity-domains"; int n = th ? 7 : 5; p.what = "d= with every value over {a b . A} up to 3 symbols and i= with every domain over the same up to " + std::to_string(n) + ": accepted exactly if equal or a subdomain"; p.split = 3; p.body = [n](Ctx& c) { static const vector<string> A = {"a", "b", ".", "A"}; string d = c.word(A, 1, 3), m = c.word(A, 0, n); check(c, "DKIM-Signature: v=1; a=rsa-sha256; b=QUJDRA==; bh=MTIzNDU2Nzg5MDEyMzQ1Njc4OTAxMjM0NTY3ODkwMTI=; d=" + d + "; h=from; s=s; i=u@" + m); }; out.push_back(p); }
    { Phase p; p.name = "identity-lengths"; p.what = "d= of every length 1..70 and i= with a domain of every length 0..300 that is unrelated, ends in d= without a dot, is a subdomain, starts with d=, or holds it inside"; p.body = [](Ctx& c) { int n = 1 + c.choose(70), w = c.choose(5), m = c.choose(301); string d = n < 4 ? string((size_t)n, 'd') : "d." + string((size_t)n - 2, 'e'), x((size_t)m, 'x'), i = w == 0 ? x : w == 1 ? x + d : w == 2 ? x + "." + d : w == 3 ? d + "." + x : x + "." + d + ".y"; if (m > 10) for (size_t k = 5; k + 1 < (size_t)m; k += 7) i[w == 3 ? i.size() - k : k] = '.'; check(c, "DKIM-Signature: v=1; a=rsa-sha256; b=QUJDRA==; bh=MTIzNDU2Nzg5MDEyMzQ1Njc4OTAxMjM0NTY3ODkwMTI=; d=" + d + "; h=from; s=s; i=u@" + i); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "octets"; p.what = "every octet value at the start, in the middle and at the end of each tag value, and at the start of the whole field";
      p.body = [](Ctx& c) { bool arc = c.choose(2); auto& t = tags()[(size_t)c.choose((int)tags().size())]; if (arc ? !t.arc : !t.dkim) return; int w = c.choose(3); string X(1, (char)c.choose(256)); if (X == "\n") return; string v = t.v[0] == "\x01" ? t.v[1] : t.v[0]; with(c, arc, t.n, w == 0 ? X + v : w == 1 ? v.substr(0, v.size() / 2) + X + v.substr(v.size() / 2) : v + X); }; p.split = 4; out.push_back(p); }
    { Phase p; p.name = "range"; p.what = "every ARC instance 0..1100, every l= 0..1100 and 2^k-1..2^k+1 for k up to 70";
      p.body = [](Ctx& c) { int w = c.choose(3); if (w == 0) with(c, true, "i", std::to_string(c.choose(1100))); else if (w == 1) with(c, false, "l", std::to_string(c.choose(1100))); else { int k = 1 + c.choose(70), d = c.choose(3); unsigned __int128 v = ((unsigned __int128)1 << k) + (unsigned)d - 1; string s; while (v) { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } if (s.empty()) s = "0"; with(c, c.choose(2), "l", s); } }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "long"; p.what = "h= lists of 1..40, 63..65, 127..129, 255..257, 1000, 5000 names with From first, in the middle, last, absent, or repeated, with and without white space and folding; as many unknown tags before, between or after the known ones, one repeated, or all; values of i=, d=, s=, b=, bh=, z=, of that many units"; p.body = [](Ctx& c) { static vector<int> N; if (N.empty()) { for (int i = 1; i <= 40; i++) N.push_back(i); for (int i : {63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000}) N.push_back(i); } int n = c.pick(N), w = c.choose(8), f = c.choose(6); bool arc = c.choose(2); auto rep = [&](const string& u, const string& sep) { string o; for (int i = 0; i < n; i++) o += (i ? sep : "") + u; return o; };
          if (w == 0) { int at = f == 0 ? 0 : f == 1 ? n / 2 : f == 2 ? n - 1 : -1; string h; for (int i = 0; i < n; i++) h += (i ? (n & 1 ? ":" : " :\r\n\t") : "") + (i == at || f == 4 ? string(i % 2 ? "from" : "FROM") : f == 5 ? "to" : fmt("x-%d", i)); with(c, arc, "h", h); }
          else if (w == 1) { string o; string pre, mid, post; for (int i = 0; i < n; i++) { string t = fmt("u%d=%d; ", i, i); (f % 3 == 0 ? pre : f % 3 == 1 ? mid : post) += t; } if (f >= 3) post += fmt("u%d=again; ", f == 3 ? 0 : f == 4 ? n / 2 : n - 1); int k = 0; for (auto& t : tags()) { if (arc ? !t.arc : !t.dkim) continue; if (t.v[0] == "\x01") continue; o += string(t.n) + "=" + t.v[0] + "; "; if (++k == 3) o += mid; } check(c, string(arc ? "ARC-Message-Signature: " : "DKIM-Signature: ") + pre + o + post); }
          else if (w == 2) { if (arc) return; static const vector<string> U = {"a", "=41", "a\r\n ", "a.", "=C3=A9", " x"}; with(c, arc, "i", rep(U[(size_t)f], "") + "@example.com"); with(c, arc, "i", "a@" + rep("sub", ".") + ".example.com"); }
          else if (w == 3) { with(c, arc, "d", rep(f % 2 ? "a" : "Ab1", f < 3 ? "." : "") + (f == 5 ? "." : "")); } else if (w == 4) { with(c, arc, "s", rep(f % 2 ? "a" : "Ab1", f < 3 ? "." : "") + (f == 5 ? "." : "")); }
          else if (w == 5) { static const vector<string> U = {"QUJD", "QUJD\r\n ", "QUJD REVG", "/+Aa", "QQ==", "\tQUJD"}; with(c, arc, "b", rep(U[(size_t)f], "")); with(c, arc, "bh", rep(U[(size_t)f], "")); } else if (w == 6) { with(c, arc, "z", rep(f & 1 ? "From:a" : "Subject:=20=3Bx", f < 2 ? "|" : f < 4 ? "|\r\n " : "")); } else { string v(f < 3 ? (size_t)n : 1, '0'); v += f % 3 == 0 ? "" : f % 3 == 1 ? "1" : "x"; with(c, arc, f < 3 ? "l" : "x", f < 3 ? v : rep("9", "")); if (!arc) return; with(c, true, "i", v); } }; p.split = 2; out.push_back(p); }
}
