// C26: which fields are signatures, in which order, and that each is judged on its own.
#include "cfg.hpp"
using namespace mc;
using std::string;
using std::vector;
const char* mc::property_id = "C26";
typedef DKIM::Validatory::ValidatorType Type;
static const Type TYPES[] = {DKIM::Validatory::DKIM, DKIM::Validatory::ARC, DKIM::Validatory::NONE};
static bool kind(const ref::Field& f, int type) { string n = ref::lower(f.name); return f.colon && ((type == 0 && n == "dkim-signature") || (type == 1 && n == "arc-message-signature")); }
static const string MSG = "From: a@example.com\r\nSubject: s\r\n\r\nbody DKIM-Signature: no\r\nDKIM-Signature: v=1\r\n";

static void discover(Ctx& c, const string& m, int type, const string& eol) {
    string t = m; if (eol != "\r\n") { t.clear(); for (size_t i = 0; i < m.size(); i++) if (!(m[i] == '\r' && i + 1 < m.size() && m[i + 1] == '\n')) t += m[i]; }
    ref::Msg r = ref::split(t); vector<string> want; for (auto& f : r.h) if (kind(f, type)) want.push_back(f.raw);
    std::istringstream in(t); DKIM::Validatory v(in, TYPES[type]); vector<string> got; for (auto& s : v.GetSignatures()) got.push_back(s->GetHeader());
    c.state(t + (char)type); c.transition(); c.validated(); c.note(show(t, 2000)); c.sample(show(t, 200));
    c.require(got.size() == want.size(), "count", fmt("%zu signatures listed, %zu present in mode %d: ", got.size(), want.size(), type) + show(t, 1500)); for (size_t i = 0; i < got.size(); i++) c.eq(got[i], want[i], "order", fmt("signature %zu in mode %d of ", i, type) + show(t, 1500)); c.outcome(fmt("%d %zu", type, got.size()));
}
// ---- verdicts
struct S { string field, alone; };
static bool dns(const string& q, string& o) {
    if (q.compare(0, 4, "rsa.") == 0) o = lib::record(cfg::key(3)); else if (q.compare(0, 3, "ed.") == 0) o = lib::record(cfg::key(2)); else if (q.compare(0, 5, "test.") == 0) o = "t=y; p=" + cfg::key(3).pub64; else if (q.compare(0, 8, "dnsfail.") == 0) return false; else if (q.compare(0, 8, "revoked.") == 0) o = "v=DKIM1; p="; return true; }
static const vector<S>& sigs() {
    static vector<S> v; if (!v.empty()) return v; env::clock_now = 1700000000;
    auto add = [&](const string& name, const string& t, int k, const char* alone, const string& body = MSG) { string f = ref::make_sig(body, name, (name[0] == 'A' || name[0] == 'a' ? " " : " v=1; ") + t + " d=example.com; h=from:subject; bh=@BH@; b=@B@", cfg::key(k), "", "", 0); v.push_back({f + "\r\n", alone}); };
    string D = "DKIM-Signature", A = "ARC-Message-Signature", other = MSG; other.replace(other.find("body"), 4, "BODY");
    add(D, "a=rsa-sha256; c=simple/simple; s=rsa;", 3, ""); add(D, "a=ed25519-sha256; c=relaxed/relaxed; s=ed; l=4;", 2, ""); add("dKIM-sIGNATURE", "a=rsa-sha1; c=relaxed/simple; s=test;", 3, "");
    add(D, "a=rsa-sha256; s=rsa;", 5, "fail"); add(D, "a=rsa-sha256; s=rsa;", 3, "fail", other); add(D, "a=rsa-sha256; s=rsa; x=1;", 3, "permerror"); add(D, "a=ed25519-sha256; s=dnsfail;", 2, "temperror"); add(D, "a=ed25519-sha256; s=revoked;", 2, "permerror"); v.push_back({"DKIM-Signature: v=1; v=1\r\n", "permerror"});
    add(A, "i=1; a=rsa-sha256; s=rsa;", 3, ""); add(A, "i=2; a=ed25519-sha256; c=relaxed/simple; s=ed;", 2, ""); add("arc-message-signature", "i=1; a=ed25519-sha256; s=ed;", 6, "fail"); v.push_back({"ARC-Message-Signature: i=0\r\n", "permerror"}); add(A, "i=3; a=rsa-sha256; s=none;", 3, "permerror");
    return v;
}
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "fields"; int n = th ? 5 : 4; p.split = 3; p.what = "every header section of up to " + std::to_string(n) + " lines out of 19 (signature fields of both kinds in every case, with white space before the colon, folded, empty, lookalikes, continuation lines, lines without a colon) in all three modes with CRLF and LF";
      p.body = [n](Ctx& c) { static const vector<string> L = {"DKIM-Signature: v=1; b=1", "dkim-signature:2", "DKIM-SIGNATURE : 3", "dKiM-SiGnAtUrE\t:\r\n 4", "ARC-Message-Signature: i=1", "arc-message-signature:", "ARC-MESSAGE-SIGNATURE \t : x", "DKIM-Signatures: a", "X-DKIM-Signature: b", "DKIM-Signature2: b", "DKIMSignature: c", "ARC-Seal: i=1", "ARC-Authentication-Results: i=1", "ARC-Message-Signature-: d", " DKIM-Signature: folded", "From: a@example.com", "DKIM-Signature", "Subject: DKIM-Signature: v=1", "\tARC-Message-Signature: folded"};
          int type = c.choose(3), lf = c.choose(2), k = c.choose(n + 1); string m; for (int i = 0; i < k; i++) m += c.pick(L) + "\r\n"; int end = c.choose(2); if (end) m += "\r\nDKIM-Signature: in the body\r\nARC-Message-Signature: in the body\r\n"; discover(c, m, type, lf ? "\n" : "\r\n"); }; out.push_back(p); }
    { Phase p; p.name = "name-octets"; p.split = 2; p.what = "both signature field names with one octet replaced by, or any octet inserted, of every value at every position"; p.body = [](Ctx& c) { int type = c.choose(3); string n = c.choose(2) ? "ARC-Message-Signature" : "DKIM-Signature"; int pos = c.choose((int)n.size() + 1), ins = c.choose(2); char b = (char)c.choose(256); if (!ins && pos == (int)n.size()) throw Pruned(); if (b == '\r' || b == '\n' || b == 0) throw Pruned(); if (ins) n.insert((size_t)pos, 1, b); else n[(size_t)pos] = b; discover(c, "From: a\r\n" + n + ": v=1\r\n\r\n", type, "\r\n"); }; out.push_back(p); }
    { Phase p; p.name = "many"; p.split = 1; p.what = "messages with up to 64 signature fields of both kinds, alternating in every short period"; p.body = [](Ctx& c) { int n = c.choose(65), pat = c.choose(16), type = c.choose(3); string m; for (int i = 0; i < n; i++) m += string(pat >> (i % 4) & 1 ? "DKIM-Signature: " : "ARC-Message-Signature: ") + std::to_string(i) + "\r\n"; discover(c, m + "\r\n", type, "\r\n"); }; out.push_back(p); }
    { Phase p; p.name = "verdicts"; int n = th ? 5 : 4; p.split = 3; p.what = "every sequence of " + std::to_string(n) + " out of 14 signatures (both kinds, every fate, repetitions), the signed fields above, between or below them: each has the verdict it has alone, checked in either order";
      p.body = [n](Ctx& c) { sigs(); env::clock_now = 1700000000; int type = c.choose(2); vector<size_t> seq; for (int i = 0; i < n; i++) seq.push_back((size_t)c.choose((int)sigs().size())); int from = c.choose(3), back = c.choose(2); string m, id = fmt("mode %d from %d:", type, from); vector<string> want; string fl = "From: a@example.com\r\n", rest = MSG.substr(fl.size());
          for (int i = 0; i < n; i++) { if (i == (from == 1 ? n / 2 : from == 2 ? n - 1 : 0)) m += fl; const S& s = sigs()[seq[(size_t)i]]; m += s.field; ref::Field f; f.raw = s.field; ref::finish(f); if (kind(f, type)) want.push_back(s.alone); id += fmt(" %zu", seq[(size_t)i]); } m += rest; c.state(id); c.note(show(m, 4000));
          std::istringstream in(m); DKIM::Validatory v(in, TYPES[type]); lib::set_dns(v, dns); c.require(v.GetSignatures().size() == want.size(), "count", id + ": number of signatures"); vector<string> got(want.size());
          for (size_t k = 0; k < want.size(); k++) { size_t j = back ? want.size() - 1 - k : k; auto i = v.GetSignatures().begin(); std::advance(i, j); auto r = lib::check_one(v, i); c.require(r.cls == want[j], "verdict", id + fmt(": signature %zu is '", j) + r.str() + "' (" + r.what + "), alone '" + want[j] + "'"); got[j] = r.str(); c.transition(); c.validated(); } string o; for (auto& g : got) o += g + ","; c.outcome(o); c.sample(id + " -> " + o); }; out.push_back(p); }
    { Phase p; p.name = "covering"; int n = th ? 4 : 3; p.split = 3; p.what = "every stack of " + std::to_string(n) + " signatures of both kinds, some of which sign other signature fields once, twice or both kinds, then one of them removed, altered, repeated or moved: the verdict of each is the reference verifier's";
      p.body = [n](Ctx& c) { env::clock_now = 1700000000; static const char* H[] = {"from", "from:dkim-signature", "from:DKIM-Signature:dkim-signature", "from:arc-message-signature", "from:arc-message-signature:dkim-signature"}; vector<string> f; string below = "From: a@example.com\r\nSubject: s\r\n\r\nbody\r\n", id; static std::map<string, string> cache;
          for (int i = 0; i < n; i++) { int arc = c.choose(2), h = c.choose(5); id += fmt(" %s[%s]", arc ? "ARC" : "DKIM", H[h]); string& s = cache[id]; string m = below; for (auto& x : f) m = x + m; if (s.empty()) s = ref::make_sig(m, arc ? "ARC-Message-Signature" : "DKIM-Signature", string(arc ? " i=1;" : " v=1;") + " a=ed25519-sha256; c=relaxed/simple; d=example.com; s=s; h=" + H[h] + "; bh=@BH@; b=@B@", cfg::key(2), "", "", 0) + "\r\n"; f.push_back(s); }
          int op = c.choose(5), at = op ? c.choose(n) : 0; string x = f[(size_t)at]; if (op == 1) f.erase(f.begin() + at); if (op == 2) f[(size_t)at].replace(x.find("c=relaxed"), 9, "c=relaxed "); if (op == 3) f.push_back(x); if (op == 4) { f.erase(f.begin() + at); f.push_back(x); }
          string m = below; for (auto& y : f) m = y + m; id += fmt(" op %d at %d", op, at); c.state(id); c.note(show(m, 4000)); ref::Msg r = ref::split(m);
          for (int type = 0; type < 2; type++) { std::istringstream in(m); DKIM::Validatory v(in, TYPES[type]); lib::set_dns(v, lib::fixed(lib::record(cfg::key(2)))); auto i = v.GetSignatures().begin(); string o;
              for (size_t k = 0; k < r.h.size(); k++) if (kind(r.h[k], type)) { c.require(i != v.GetSignatures().end(), "count", id + ": a signature is missing"); string want = ref::verdict(m, r, k, cfg::key(2), env::clock_now); want = want.substr(0, want.find(':')); auto got = lib::check_one(v, i); c.require(got.cls == want, "covering", id + fmt(": field %zu is '", k) + got.str() + "' (" + got.what + "), reference '" + want + "'"); ++i; o += got.str() + ","; c.transition(); c.validated(); }
              c.require(i == v.GetSignatures().end(), "count", id + ": extra signatures"); c.outcome(o); } c.sample(id); }; out.push_back(p); }
    { Phase p; p.name = "shared"; int n = th ? 3 : 2; p.split = 2; p.what = "every sequence of " + std::to_string(n) + " out of 56 signatures that share some of: body canonicalization, header canonicalization, body length, digest, signed fields, domain, selector, body hash value, signature value: each has the verdict it has alone, in either order, with one set of Signature and PublicKey objects, reset, for all and with fresh ones";
      p.body = [n](Ctx& c) { static vector<S> V; env::clock_now = 1700000000; static std::map<string, string> rec = {{"s._domainkey.example.com", lib::record(cfg::key(3))}, {"s._domainkey.example.org", lib::record(cfg::key(5))}, {"e._domainkey.example.com", lib::record(cfg::key(2))}, {"e._domainkey.example.org", "p="}, {"t._domainkey.example.com", lib::record(cfg::key(2)) + "; t=s"}};
          static const string m = "From: a@example.com\r\nSubject:  s \r\nTo: x\r\n\r\nbody  x \r\n\r\n";
          if (V.empty()) { auto add = [&](const string& t, int k, const string& alone, const string& body) { V.push_back({ref::make_sig(body, "DKIM-Signature", " v=1; " + t + " bh=@BH@; b=@B@", cfg::key(k), "", "", 0) + "\r\n", alone}); };
              for (const char* cm : {"simple/simple", "simple/relaxed", "relaxed/simple", "relaxed/relaxed"}) for (const char* l : {"", " l=0;", " l=5;"}) for (const char* a : {"rsa-sha1", "rsa-sha256", "ed25519-sha256"}) add(string("a=") + a + "; c=" + cm + ";" + l + " d=example.com; h=from:subject; s=" + (a[0] == 'r' ? "s" : "e") + ";", a[0] == 'r' ? 3 : 2, "", m);
              for (const char* h : {"from", "from:to", "from:to:subject", "from:from"}) add(string("a=ed25519-sha256; c=relaxed/simple; d=example.com; s=e; h=") + h + ";", 2, "", m);
              for (const char* l : {"", " l=5;"}) { string w = m; w.replace(w.find("body"), 4, "BODY"); add(string("a=ed25519-sha256; c=relaxed/simple; d=example.com; s=e; h=from;") + l, 2, "fail", w); add(string("a=rsa-sha256; c=relaxed/simple; d=example.com; s=s; h=from;") + l, 3, "fail", w); }
              for (int k : {3, 5}) { add("a=rsa-sha256; d=example.com; s=s; h=from;", k, k == 3 ? "" : "fail", m); add("a=rsa-sha256; d=example.org; s=s; h=from;", k, k == 5 ? "" : "fail", m); }
              add("a=ed25519-sha256; d=example.org; s=e; h=from;", 2, "permerror", m); add("a=rsa-sha256; d=example.com; s=e; h=from;", 3, "permerror", m); add("a=ed25519-sha256; d=example.com; s=s; h=from;", 2, "permerror", m); add("a=ed25519-sha256; d=example.com; s=t; i=@a.example.com; h=from;", 2, "permerror", m); add("a=ed25519-sha256; d=example.com; s=t; i=@example.com; h=from;", 2, "", m); add("a=ed25519-sha256; d=example.com; s=e; i=@a.example.com; h=from;", 2, "", m); add("a=ed25519-sha256; d=example.com; s=none; h=from;", 2, "permerror", m);
              string b = V[0].field; size_t at = b.find("b=", b.find("bh=") + 3); V.push_back({b.substr(0, at) + V[3].field.substr(V[3].field.find("b=", V[3].field.find("bh=") + 3)), "fail"}); }
          vector<size_t> q; for (int i = 0; i < n; i++) q.push_back((size_t)c.choose((int)V.size())); int back = c.choose(2), keep = c.choose(2); string t, id = fmt("order %d objects %d:", back, keep); for (auto i : q) { t += V[i].field; id += fmt(" %zu", i); } t += m; c.state(id); c.note(show(t, 4000)); std::istringstream in(t); DKIM::Validatory v(in); lib::set_dns(v, [](const string& query, string& o) { auto i = rec.find(query); if (i != rec.end()) o = i->second; return true; });
          c.require(v.GetSignatures().size() == q.size(), "count", id + ": number of signatures"); DKIM::Signature s; DKIM::PublicKey pk; string o; for (size_t k = 0; k < q.size(); k++) { size_t j = back ? q.size() - 1 - k : k; auto i = v.GetSignatures().begin(); std::advance(i, j); string what, cls; if (keep) { s.Reset(); pk.Reset(); cls = lib::classify([&] { v.GetSignature(i, s); v.GetPublicKey(s, pk); v.CheckSignature(i, s, pk); }, &what); } else { auto r = lib::check_one(v, i); cls = r.cls; what = r.what; } c.require(cls == V[q[j]].alone, "shared", id + fmt(": signature %zu is '", j) + cls + "' (" + what + "), alone '" + V[q[j]].alone + "'\n" + t); o += cls + ","; c.transition(); c.validated(); } c.outcome(o); c.sample(id + " -> " + o); }; out.push_back(p); }
    { Phase p; p.name = "crowd"; p.split = 2; p.what = "messages with 1..20, 31..33, 63..65, 100, 127..129, 255..257, 500 copies of one of 14 signatures, and another of them first, in the middle or last: number, order, and the verdict of the first, the middle, the last and the other"; p.body = [](Ctx& c) { sigs(); env::clock_now = 1700000000; static vector<int> N; if (N.empty()) { for (int i = 1; i <= 20; i++) N.push_back(i); for (int i : {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500}) N.push_back(i); } int n = c.pick(N), a = c.choose((int)sigs().size()), b = c.choose((int)sigs().size()), at = c.choose(3), type = c.choose(2); if (a == b) throw Pruned(); int pos = at == 0 ? 0 : at == 1 ? n / 2 : n; string m, id = fmt("%d times %d, %d at %d, mode %d", n, a, b, pos, type); vector<string> want, raw; size_t other = 0; for (int i = 0; i <= n; i++) { const S& s = sigs()[(size_t)(i == pos ? b : a)]; m += s.field; ref::Field f; f.raw = s.field; ref::finish(f); if (kind(f, type)) { if (i == pos) other = want.size(); want.push_back(s.alone); raw.push_back(s.field.substr(0, s.field.size() - 2)); } } if (want.empty()) throw Pruned(); m += MSG; c.state(id); c.note(show(m, 4000));
          std::istringstream in(m); DKIM::Validatory v(in, TYPES[type]); lib::set_dns(v, dns); c.require(v.GetSignatures().size() == want.size(), "count", id + fmt(": %zu signatures instead of %zu", v.GetSignatures().size(), want.size())); size_t k = 0; for (auto& s : v.GetSignatures()) { c.require(s->GetHeader() == raw[k], "order", id + fmt(": signature %zu", k)); k++; } string o; for (size_t j : std::set<size_t>{0, want.size() / 2, want.size() - 1, other}) { auto i = v.GetSignatures().begin(); std::advance(i, j); auto r = lib::check_one(v, i); c.require(r.cls == want[j], "verdict", id + fmt(": signature %zu is '", j) + r.str() + "' (" + r.what + "), alone '" + want[j] + "'"); o += r.str() + ","; c.transition(); c.validated(); } c.outcome(o); }; out.push_back(p); }
}
