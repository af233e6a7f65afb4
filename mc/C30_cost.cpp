// C30: the work an operation does grows in proportion to the length of its input.  Inputs are
// pumped: a unit is repeated n times at a place of a well formed input, for every place and every
// unit; the work (mc/cost.cpp) is counted, not timed, so the outcome does not depend on the machine.
#include "lib.hpp"
#include "cfg.hpp"
using namespace mc; using std::string; using std::vector;
const char* mc::property_id = "C30";
extern "C" { extern uint64_t cost_count; }
typedef std::function<void(const string&)> Run;
template <class F> static void quiet(F f) { lib::classify(f); }
struct Op { string name; Run run; string text; vector<string> units; };   // text: a well formed input, pumped at every offset
static const string REC() { return lib::record(cfg::key(2)); }
static void verify(const string& m, const string& rec, DKIM::Validatory::ValidatorType t = DKIM::Validatory::DKIM) { quiet([&] { std::istringstream in(m); DKIM::Validatory v(in, t); lib::set_dns(v, lib::fixed(rec)); for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) quiet([&] { DKIM::Signature s; DKIM::PublicKey p; v.GetSignature(i, s); v.GetPublicKey(s, p); v.CheckSignature(i, s, p); }); }); }
static string signedmsg(bool relaxed, const string& more = "") {
    static const string body = "Hi  you \t\r\n\r\n b\r\n"; string m = "Subject: a b\r\nFrom: J <a@example.com>\r\n\tz\r\nTo: b@c, d\r\n\r\n" + body; string mode = relaxed ? "relaxed/relaxed" : "simple/simple";
    string v = " v=1; a=ed25519-sha256; c=" + mode + "; d=example.com;\r\n s=sel; h=from:to:" + (relaxed ? "subject:to" : "x") + more + "; bh=@BH@; b=@B@"; string f = ref::make_sig(m, "DKIM-Signature", v, cfg::key(2), "", "", env::clock_now), r = f + "\r\n" + m; if (f.compare(0, 5, "ERROR") == 0) { fprintf(stderr, "harness: %s\n", f.c_str()); _exit(97); } return r;
}
static void sign(const string& m, bool relaxed, int over) { quiet([&] { cfg::Cfg g; g.sigs[0].key = 2; DKIM::SignatoryOptions o; cfg::apply(g, o); auto mode = relaxed ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE; o.SetCanonModeHeader(mode).SetCanonModeBody(mode); if (over) o.SetOversignHeaders({"from", "to"}); if (over) o.SetHeaders({"from", "to", "x"}); std::istringstream in(m); DKIM::Signatory s(in); s.CreateSignature(o); }); }
static const vector<string> MU = {"x", " ", "\t", "\r\n ", "\r\n", ":", ";", "=", ",", "To: y\r\n", "X%: y\r\n", "x%:", ";t%=1", "\n", "\r", "A"};
static const vector<Op>& ops() {
    static vector<Op> O; if (!O.empty()) return O;
    O.push_back({"verify relaxed", [](const string& s) { verify(s, REC()); }, signedmsg(true), MU});
    O.push_back({"verify simple", [](const string& s) { verify(s, REC()); }, signedmsg(false, "; l=12; z=From:J|To:b=20; x=9999999999; i=a@example.com"), MU});
    O.push_back({"verify arc", [](const string& s) { verify(s, REC(), DKIM::Validatory::ARC); }, "ARC-Seal: i=1; a=rsa-sha256; b=QUJD; cv=none; d=example.com; s=sel\r\nARC-Message-Signature: i=1; a=ed25519-sha256; c=relaxed/simple; d=example.com; s=sel; h=from:to; bh=47DEQpj8HBSa+/TImW+5JCeuQeRkm5NMpJWZG3hSuFU=; b=QUJD\r\nFrom: x\r\n\r\n", MU});
    O.push_back({"sign relaxed", [](const string& s) { sign(s, true, 0); }, "Subject: a b\r\nFrom: J <a@example.com>\r\n\tz\r\nTo: b@c, d\r\n\r\nHi  you \t\r\n\r\n b\r\n", MU});
    O.push_back({"sign simple", [](const string& s) { sign(s, false, 1); }, "To: a b\r\n c\r\nFrom: J <a@example.com>\r\nX: y\r\n\r\nHi  you \t\r\n\r\n b\r\n", MU});
    { vector<string> u = MU; u.push_back("DKIM-Signature: a\r\n"); u.push_back("ARC-Message-Signature: i=1; a=b\r\n"); O.push_back({"discovery", [](const string& s) { for (auto t : {DKIM::Validatory::DKIM, DKIM::Validatory::ARC}) quiet([&] { std::istringstream in(s); DKIM::Validatory v(in, t); for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) quiet([&] { DKIM::Signature g; v.GetSignature(i, g); g.GetDomain(); }); }); }, "From: a\r\nDKIM-Signature: v=1; a=rsa-sha256; d=e; s=f; h=from; bh=YQ==; b=YQ==\r\nTo: b\r\n\r\n", u}); }
    static string good = signedmsg(true);
    O.push_back({"key record", [](const string& s) { verify(good, s); }, "v=DKIM1; k=ed25519; h=sha1 : sha256; t=s:y;\r\n n=a b; p=" + cfg::key(2).pub64.substr(0, 20) + " " + cfg::key(2).pub64.substr(20), {"x", " ", "\t", "\r\n ", "\r\n", ":", ";", "=", "x%:", ";t%=1", "A", "sha256:", "\n", "\r"}});
    O.push_back({"addresses", [](const string& s) { quiet([&] { DKIM::Tokenizer::ParseAddressList(s); }); }, "Joe B \"q \\\" r\" <a@b.c> (c (d) e), x@y (z), g: h@i, <j@k>;,\r\n l@m,\r\nn@o", {"x", " ", "\t", "\r\n ", "\r\n", ":", ";", ",", "<", ">", "(", ")", "\"", "\\", "@", ".", "a@b,", "x\r\n"}});
    O.push_back({"value list", [](const string& s) { quiet([&] { DKIM::Tokenizer::ValueList(s); }); }, "a : b:c\r\n d:\te\r\nf", {"x", " ", "\t", "\r\n ", "\r\n", ":", "x:", "\n", "\r"}});
    O.push_back({"tag list", [](const string& s) { quiet([&] { DKIM::TagList t; t.Parse(s); }); }, "a=b; c = d e ;\r\n f=\r\n g; h=;", {"x", " ", "\t", "\r\n ", "\r\n", ";", "=", "x=", "t%=1;", "\n", "\r"}});
    O.push_back({"encoded words", [](const string& s) { quiet([&] { DKIM::Conversion::EncodedWord::Decode(s); }); }, "a =?utf-8?Q?b=20_c?= =?x?B?YWI=?=\r\n d =?y?Z?e?=", {"x", " ", "\t", "\r\n ", "\r\n", "=", "?", "_", "=?x?Q?a?=", "=?x?B?YQ==?=", "=?", "?=", "=20", "\n", "\r"}});
    O.push_back({"quoted printable", [](const string& s) { for (bool b : {false, true}) quiet([&] { DKIM::Conversion::QuotedPrintable::Decode(s, b); }); quiet([&] { DKIM::Conversion::QuotedPrintable::Encode(s); }); }, "a=20b_ c\r\n d;=3D", {"x", " ", "\t", "\r\n ", "\r\n", "=", "_", "=20", ";", "\xff", "\n", "\r"}});
    O.push_back({"base64", [](const string& s) { quiet([&] { DKIM::Conversion::Base64_Decode(s); }); quiet([&] { DKIM::Conversion::Base64_Encode(s); }); }, "QUJD RE\r\n VGRw==", {"A", " ", "\r\n", "=", "A ", "\xff", "AAAA\r\n"}});
    O.push_back({"canonical header", [](const string& s) { for (auto t : {DKIM::DKIM_C_SIMPLE, DKIM::DKIM_C_RELAXED}) quiet([&] { DKIM::Conversion::CanonicalizationHeader h(t); h.FilterHeader(s); }); }, "Subject \t: a  b\r\n\tc \r\n d ", {"x", "X", " ", "\t", "\r\n ", "\r\n", ":", "\n", "\r"}});
    return O;
}
static string rep(const string& u, int n) { string o; size_t p = u.find('%'); for (int i = 0; i < n; i++) if (p == string::npos) o += u; else o += u.substr(0, p) + std::to_string(i) + u.substr(p + 1); return o; }
static uint64_t cost(const Run& run, const string& s) { cost_count = 0; run(s); return cost_count; }
// the work added from n to 4n and from 4n to 16n repetitions: four times as much is proportion, sixteen times quadratic
static void judge(Ctx& c, const string& what, const std::function<uint64_t(int)>& f, int n) {
    f(1); /* what is built once */ int64_t w1 = (int64_t)f(n), w2 = (int64_t)f(4 * n), w3 = (int64_t)f(16 * n), e1 = std::max<int64_t>(w2 - w1, 3 * n), e2 = w3 - w2; c.transition(3); c.validated(); c.outcome(e2 <= 7 * e1 ? e2 < 4 * n ? "constant" : "proportional" : "suspect");
    if (e2 <= 7 * e1) return; int64_t e3 = (int64_t)f(64 * n) - w3; c.transition();
    c.require(e3 <= 7 * e2, "superlinear", what + fmt(": from %d to %d repetitions the work grows by %lld, to %d by %lld, to %d by %lld", n, 4 * n, (long long)e1, 16 * n, (long long)e2, 64 * n, (long long)e3));
}
static string at(const string& t, int pos, const string& u, int n) { return t.substr(0, (size_t)pos) + rep(u, n) + t.substr((size_t)pos); }
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "pumped"; int n = 64, len = th ? 3 : 2; p.what = "14 operations (verification, signing, key records, every reader and decoder) on a well formed input with every unit of 1.." + std::to_string(len) + fmt(" symbols of an alphabet of 7 to 18 repeated %d, %d and %d times (and %d on suspicion) at every offset", n, 4 * n, 16 * n, 64 * n);
      p.body = [n, len](Ctx& c) { const Op& o = ops()[(size_t)c.choose((int)ops().size(), "operation")]; int pos = c.choose((int)o.text.size() + 1, "offset"); int a = c.choose((int)o.units.size(), "unit"); string u = o.units[(size_t)a]; int b = len > 1 ? c.choose((int)o.units.size() + 1, "second symbol") : 0; if (b && b - 1 == a) return; if (b) u += o.units[(size_t)b - 1]; if (b && len > 2) { int d = c.choose((int)o.units.size() + 1, "third symbol"); if (d) u += o.units[(size_t)d - 1]; }
          string w = o.name + fmt(" with %s repeated at offset %d of ", show(u).c_str(), pos) + show(o.text); c.note(w); c.sample(w); c.state(w); judge(c, w, [&](int k) { return cost(o.run, at(o.text, pos, u, k)); }, n); };
      p.split = 3; p.exec_limit_s = 60; out.push_back(p); }
    { Phase p; p.name = "two-places"; int n = th ? 48 : 24; p.what = fmt("the same operations with units repeated %d, %d and %d times at each of two places: every pair of ", n, 4 * n, 16 * n) + (th ? "offsets" : "token boundaries") + " and every pair of symbols";
      p.body = [n, th](Ctx& c) { const Op& o = ops()[(size_t)c.choose((int)ops().size(), "operation")]; vector<int> P; for (size_t i = 0; i <= o.text.size(); i++) if (i == 0 || i == o.text.size() || (strchr(":;=,<(\"?\n", o.text[i - 1]) && (th || i % 2 || o.text.size() < 80 || strchr(":\n", o.text[i - 1])))) P.push_back((int)i);
          int i = c.choose((int)P.size(), "first place"), j = c.choose((int)P.size() - i, "second place") + i; const string& u = c.pick(o.units, "first unit"); const string& v = c.pick(o.units, "second unit"); if (i == j && &u == &v) return;
          string w = o.name + fmt(" with %s repeated at offset %d and %s at offset %d of ", show(u).c_str(), P[(size_t)i], show(v).c_str(), P[(size_t)j]) + show(o.text); c.note(w); c.sample(w); c.state(w); judge(c, w, [&](int k) { return cost(o.run, at(at(o.text, P[(size_t)j], v, k), P[(size_t)i], u, k)); }, n); };
      p.split = 3; p.exec_limit_s = 60; out.push_back(p); }
    { Phase p; p.name = "options"; int n = 64; p.what = fmt("signing with lists of %d, %d and %d names to sign and to oversign, and as many further signatures, with few and with as many header fields", n, 4 * n, 16 * n);
      p.body = [n](Ctx& c) { int kind = c.choose(5, "list"), names = c.choose(3, "names"), msg = c.choose(3, "message"); bool relaxed = c.choose(2);
          auto run = [&](int k) { string m; for (int i = 0; i < k && msg; i++) m += msg == 1 ? "X: y\r\n" : fmt("x%d: y\r\n", i); m += "From: a\r\n\r\nx\r\n"; DKIM::SignatoryOptions o; cfg::Cfg g; g.sigs[0].key = 2; cfg::apply(g, o); o.SetCanonModeHeader(relaxed ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE); std::list<string> l{"from"};
              for (int i = 0; i < k; i++) { string x = names == 0 ? "x" : names == 1 ? fmt("x%d", i) : "from"; l.push_back(x); } if (kind & 1) o.SetHeaders(l); if (kind & 2) o.SetOversignHeaders(l); if (kind == 4) { for (int i = 0; i < k; i++) { o.SetHeaders({"from"}); auto& a = o.AddAdditionalSignature(); a.SetDomain("example.com").SetSelector("sel").SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetPrivateKey(keys::edA_seed); } }
              cost_count = 0; quiet([&] { std::istringstream in(m); DKIM::Signatory s(in); s.CreateSignature(o); }); return cost_count; };
          if (kind == 4 && msg) return; // every signature covers the whole message
          string w = fmt("list kind %d, names %d, message %d, %s", kind, names, msg, relaxed ? "relaxed" : "simple"); c.note(w); c.sample(w); c.state(w); judge(c, w, run, n); };
      p.split = 1; p.exec_limit_s = 60; out.push_back(p); }
    { Phase p; p.name = "answers"; int n = 40; p.what = fmt("name server answers of %d, %d and %d records or strings: kind of record, owner form, length of the strings", n, 4 * n, 16 * n);
      p.body = [n](Ctx& c) { int kind = c.choose(5, "kind"), own = c.choose(4, "owner"), len = c.choose(4, "string length"), last = c.choose(2, "a key record at the end"); static const int L[] = {1, 0, 7, 40}; static const vector<string> OW = {string("\xc0\x0c", 2), string(1, '\0'), string("\3sel\7example\3com\0", 17), string("\1x\xc0\x0c", 4)};
          auto run = [&](int k) { auto u16 = [](int v) { return string(1, (char)(v >> 8)) + (char)v; }; auto rr = [&](int t, const string& d) { return OW[(size_t)own] + u16(t) + u16(1) + string("\0\0\1\x2c", 4) + u16((int)d.size()) + d; }; string str = string(1, (char)L[len]) + string((size_t)L[len], 'x'), b; int an = 0;
              if (kind == 0) for (int i = 0; i < k; i++) b += rr(16, str), an++; else if (kind == 1) { string t; for (int i = 0; i < k; i++) t += str; b += rr(16, t); an++; } else if (kind == 2) for (int i = 0; i < k; i++) b += rr(5, OW[2]), an++; else if (kind == 3) for (int i = 0; i < k; i++) b += rr(46, str), an++; else for (int i = 0; i < k; i++) b += rr(16, ""), an++;
              if (last) { string r = REC(); b += rr(16, string(1, (char)r.size()) + r); an++; }
              env::dns = env::Dns(); env::dns.packet = string("\x12\x34\x81\x80", 4) + u16(1) + u16(an) + u16(0) + u16(0) + OW[2] + u16(16) + u16(1) + b; static DKIM::Util::Resolver r; string out; cost_count = 0; r.GetTXT("sel.example.com", out); return cost_count; };
          string w = fmt("answer of kind %d, owner form %d, strings of %d octets, key record at the end %d", kind, own, L[len], last); c.note(w); c.sample(w); c.state(w); judge(c, w, run, n); };
      p.split = 1; p.exec_limit_s = 60; out.push_back(p); }
}
