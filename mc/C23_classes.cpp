// C23: every cause of failure, alone and combined, gives the class it must, whatever the
// algorithm, canonicalization and company.
#include "cfg.hpp"
#include "stream.hpp"
#include <netdb.h>
using namespace mc;
using std::string;
using std::vector;
const char* mc::property_id = "C23";

struct Case {                                   // one message under construction
    bool arc = false; int alg = 0; string canon; // 0 rsa-sha256, 1 rsa-sha1, 2 ed25519
    string value;                               // signature template
    string field, rest;                         // signed field (raw, may be edited), message
    string rec; bool found = true;              // key record
    int mode = 0;                               // 0 custom resolver, 1 resolver failing with herr, 2 answer packet
    int herr = 0; string packet;
    int fail_pass = -1;
    const ref::Key& key() const { return cfg::key(alg == 2 ? 2 : 3); }
    string type() const { return alg == 2 ? "ed25519" : "rsa"; }
};
struct Cause { string name, cls; int stage; /* 0 before signing, 1 after */ std::function<void(Case&)> apply; bool dkim = true, arc = true; };

static void sub(string& s, const string& a, const string& b) { size_t p = s.find(a); if (p != string::npos) s.replace(p, a.size(), b); }
static void tag(Case& k, const string& t, const string& spec) { // replace "; t=...;" by spec
    size_t p = k.field.find(" " + t + "="); if (p == string::npos) return; size_t e = k.field.find(';', p); if (e == string::npos) e = k.field.size();
    k.field.replace(p, e - p, spec.empty() ? "" : " " + spec); if (spec.empty() && p < k.field.size() && k.field[p] == ';') k.field.erase(p, 1); }
static string b_of(const Case& k) { size_t p = k.field.find(" b="); return k.field.substr(p + 3); }
static string u16(int n) { return string(1, (char)(n >> 8)) + (char)n; }
static string answer(const vector<string>& strs) {
    string rd, o = string("\x12\x34\x81\x80", 4) + u16(1) + u16(1) + u16(0) + u16(0);
    o += string("\3sel\x0a_domainkey\7example\3com\0", 28) + u16(16) + u16(1);
    for (auto& s : strs) { rd += (char)s.size(); rd += s; }
    return o + "\xc0\x0c" + u16(16) + u16(1) + string("\0\0\1\x2c", 4) + u16((int)rd.size()) + rd;
}
static const vector<Cause>& causes() {
    static vector<Cause> v; if (!v.empty()) return v;
    auto pre = [&](const string& n, const string& c, std::function<void(Case&)> f) { v.push_back({n, c, 0, f}); };
    auto post = [&](const string& n, const string& c, std::function<void(Case&)> f) { v.push_back({n, c, 1, f}); };
    auto set = [&](const string& t, const string& spec) { post(spec.empty() ? "no " + t + "=" : spec, "permerror", [t, spec](Case& k) { tag(k, t, spec); }); };
    // content differs
    post("body changed", "fail", [](Case& k) { sub(k.rest, "body", "bodY"); });
    post("body extended", "fail", [](Case& k) { k.rest += "more\r\n"; });
    post("body removed", "fail", [](Case& k) { size_t p = k.rest.find("\r\n\r\n"); if (p != string::npos) k.rest.resize(p + 2); });
    post("other bh", "fail", [](Case& k) { tag(k, "bh", "bh=" + ref::b64enc(string(k.alg == 1 ? 20 : 32, 'x'))); });
    post("short bh", "fail", [](Case& k) { tag(k, "bh", "bh=YWJj"); });
    post("long bh", "fail", [](Case& k) { size_t p = k.field.find(" bh="); string s = k.field.substr(p + 4, k.field.find(';', p) - p - 4); tag(k, "bh", "bh=" + ref::b64enc(ref::unb64(s) + "z")); });
    post("bh of another hash", "fail", [](Case& k) { tag(k, "bh", "bh=" + ref::b64enc(ref::sha(k.alg == 1 ? "sha256" : "sha1", "body\r\n"))); });
    post("subject changed", "fail", [](Case& k) { sub(k.rest, "hello", "Hello"); });
    post("from removed", "fail", [](Case& k) { sub(k.rest, "From: a@example.com\r\n", ""); });
    post("sealed field added", "fail", [](Case& k) { k.rest = "Subject: two\r\n" + k.rest; });
    post("tag added", "fail", [](Case& k) { sub(k.field, " bh=", " zz=1; bh="); });
    post("b changed", "fail", [](Case& k) { string b = b_of(k), d = ref::unb64(b); if (d.empty()) return; d[d.size() / 2] ^= 1; tag(k, "b", "b=" + ref::b64enc(d)); });
    post("b truncated", "fail", [](Case& k) { string d = ref::unb64(b_of(k)); if (d.size() < 2) return; d.resize(d.size() - 1); tag(k, "b", "b=" + ref::b64enc(d)); });
    post("b one octet", "fail", [](Case& k) { tag(k, "b", "b=QQ=="); });
    post("b extended", "fail", [](Case& k) { string d = ref::unb64(b_of(k)); if (d.empty()) return; d = 'x' + d; tag(k, "b", "b=" + ref::b64enc(d)); });
    post("wrong key", "fail", [](Case& k) { k.rec = lib::record(cfg::key(k.alg == 2 ? 6 : 5)); });
    // malformed, unsupported, expired, incompatible signature
    v.push_back({"no v=", "permerror", 1, [](Case& k) { tag(k, "v", ""); }, true, false});
    v.push_back({"v=2", "permerror", 1, [](Case& k) { tag(k, "v", "v=2"); }, true, false});
    for (const char* t : {"a", "b", "bh", "d", "s", "h"}) { set(t, ""); set(t, string(t) + "="); }
    for (const char* s : {"a=rsa-md5", "a=ed25519-sha1", "a=rsa", "a=RSA-sha256x", "a=-sha256"}) set("a", s);
    for (const char* s : {"c=strict", "c=simple/strict", "c=/"}) set("c", s);
    set("q", "q=http/txt"); set("h", "h=to:subject"); set("h", "h=from::to"); set("h", "h=:");
    for (const char* s : {"l=abc", "l=-1", "l=99999999999999999999", "l=1 2", "l="}) post(s, "permerror", [s](Case& k) { sub(k.field, " bh=", string(" ") + s + "; bh="); });
    v.push_back({"i= elsewhere", "permerror", 1, [](Case& k) { tag(k, "i", "i=u@example.org"); }, true, false});
    v.push_back({"i= without @", "permerror", 1, [](Case& k) { tag(k, "i", "i=example.com"); }, true, false});
    v.push_back({"i= suffix only", "permerror", 1, [](Case& k) { tag(k, "i", "i=u@notexample.com"); }, true, false});
    v.push_back({"i= not quoted-printable", "permerror", 1, [](Case& k) { tag(k, "i", "i=u=zz@example.com"); }, true, false});
    for (const char* s : {"", "i=0", "i=51", "i=x", "i=1x"}) v.push_back({string("arc ") + s, "permerror", 1, [s](Case& k) { tag(k, "i", s); }, false, true});
    post("duplicate tag", "permerror", [](Case& k) { k.field += "; zz=1; zz=1"; });
    post("no tag list", "permerror", [](Case& k) { k.field += "; junk"; });
    post("octet in tag", "permerror", [](Case& k) { sub(k.field, " bh=", " zz=\x80; bh="); });
    pre("expired", "permerror", [](Case& k) { sub(k.value, " bh=", k.value.find(" x=") == string::npos ? " x=" + std::to_string(env::clock_now - 1) + "; bh=" : " bh="); });
    pre("expired long ago", "permerror", [](Case& k) { sub(k.value, " bh=", k.value.find(" x=") == string::npos ? " x=1; bh=" : " bh="); });
    // key: missing, revoked, malformed, restricted
    auto rec = [&](const string& n, std::function<string(const Case&)> f) { post(n, "permerror", [f](Case& k) { k.rec = f(k); }); };
    auto P = [](const Case& k) { return "p=" + k.key().pub64; };
    rec("no key", [](const Case&) { return string(); });
    rec("revoked", [](const Case& k) { return "v=DKIM1; k=" + k.type() + "; p="; });
    rec("revoked, blank", [](const Case& k) { return "k=" + k.type() + "; p= ;"; });
    rec("no p=", [](const Case& k) { return "v=DKIM1; k=" + k.type(); });
    rec("key version", [P](const Case& k) { return "v=DKIM2; k=" + k.type() + "; " + P(k); });
    rec("key type unknown", [P](const Case& k) { return "k=dsa; " + P(k); });
    rec("other key type", [](const Case& k) { return lib::record(cfg::key(k.alg == 2 ? 3 : 2)); });
    rec("key type mislabelled", [P](const Case& k) { return string("k=") + (k.alg == 2 ? "rsa" : "ed25519") + "; " + P(k); });
    rec("elliptic curve key", [](const Case& k) { return "k=" + k.type() + "; p=" + keys::ec_pub; });
    rec("key cut short", [](const Case& k) { return "k=" + k.type() + "; p=" + k.key().pub64.substr(0, 20); });
    rec("other hash only", [P](const Case& k) { return "k=" + k.type() + "; h=" + (k.alg == 1 ? "sha256" : "sha1") + "; " + P(k); });
    rec("unknown hash only", [P](const Case& k) { return "k=" + k.type() + "; h=sha512; " + P(k); });
    rec("empty hash list", [P](const Case& k) { return "k=" + k.type() + "; h=; " + P(k); });
    rec("other service", [P](const Case& k) { return "k=" + k.type() + "; s=tlsrpt; " + P(k); });
    rec("duplicate key tag", [P](const Case& k) { return "k=" + k.type() + "; k=" + k.type() + "; " + P(k); });
    rec("not a tag list", [](const Case&) { return string("v=spf1 -all"); });
    v.push_back({"flag s", "permerror", 1, [P](Case& k) { k.rec = "k=" + k.type() + "; t=y:s; " + P(k); }, true, false});
    // lookup through the resolver
    auto look = [&](const string& n, const string& c, int herr) { post(n, c, [herr](Case& k) { k.mode = 1; k.herr = herr; }); };
    look("no such name", "permerror", HOST_NOT_FOUND); look("no data", "permerror", NO_DATA); look("unrecoverable", "permerror", NO_RECOVERY);
    look("try again", "temperror", TRY_AGAIN); look("resolver failure", "temperror", NETDB_INTERNAL);
    post("answer with revoked key", "permerror", [](Case& k) { k.mode = 2; k.packet = answer({"v=DKIM1; ", "k=" + k.type() + "; p="}); });
    post("answer without text", "permerror", [](Case& k) { k.mode = 2; k.packet = answer({""}); });
    post("oversized answer", "temperror", [](Case& k) { k.mode = 3; });
    post("custom resolver fails", "temperror", [](Case& k) { k.found = false; });
    post("custom resolver fails with text", "temperror", [](Case& k) { k.found = false; k.mode = 4; });
    // message cannot be read
    post("header unreadable", "temperror", [](Case& k) { k.fail_pass = 0; });
    post("body unreadable", "temperror", [](Case& k) { k.fail_pass = 1; });
    return v;
}
struct Result { string cls, what; };
template <class F> static Result run(F f) { // the class, and that the exception type agrees with it
    try { f(); return {"", ""}; }
    catch (DKIM::PermanentError& e) { string r = e.getAuthenticationResult(); return {r == "permerror" || r == "fail" ? r : "permanent error with class " + r, e.what()}; }
    catch (DKIM::TemporaryError& e) { string r = e.getAuthenticationResult(); return {r == "temperror" ? r : "temporary error with class " + r, e.what()}; }
}
static const string MSG = "From: a@example.com\r\nSubject: hello\r\nTo: t@example.com\r\n\r\nbody\r\n";
static const char* ALG[] = {"rsa-sha256", "rsa-sha1", "ed25519-sha256"};
static const char* CANON[] = {"simple/simple", "relaxed/relaxed", "simple/relaxed", "relaxed/simple"};
static const char* COMPANY[] = {"alone", "below a valid one", "above a valid one", "below a malformed one", "above a failing one", "with one of the other kind"};

static const char* HARMLESS[] = {"", "test-mode key", "annotated key", "key for the hash", "key for mail", "key for everything in test mode", "more tags in the signature", "fewer tags in the signature"};
// what may be different without any influence on the class
static void harmless(Case& k, int h, bool before) {
    if (before) { if (h == 6) sub(k.value, " q=dns/txt;", " q=dns/txt; t=1600000000; yy=1; z=From:a|To:b;"); if (h == 7) { sub(k.value, " q=dns/txt;", ""); sub(k.value, " i=u@sub.example.com;", ""); } return; }
    auto add = [&](const char* t, const string& v) { if (!k.rec.empty() && k.rec.find(string(t) + "=") == string::npos) k.rec += string("; ") + t + "=" + v; };
    if (h == 1 || h == 5) add("t", "y"); if (h == 2) { add("n", "a note"); add("zz", "1"); } if (h == 3 || h == 5) add("h", "sha1:sha256:sha512"); if (h == 4) add("s", "tlsrpt:email"); if (h == 5) add("s", "*");
}
static void check(Ctx& c, bool arc, int alg, int canon, int company, const vector<const Cause*>& cs, int hl = 0) {
    env::clock_now = 1700000000; static std::map<string, string> cache;
    Case k; k.arc = arc; k.alg = alg; k.canon = CANON[canon]; k.rest = MSG; k.rec = lib::record(k.key()); string name = arc ? "ARC-Message-Signature" : "DKIM-Signature", id;
    k.value = string(arc ? " i=1;" : " v=1;") + " a=" + ALG[alg] + "; c=" + CANON[canon] + "; d=example.com; s=sel;" + (arc ? "" : " i=u@sub.example.com;") + " q=dns/txt; h=from:subject:to:subject; bh=@BH@; b=@B@";
    harmless(k, hl, true); for (auto p : cs) { id += (id.empty() ? "" : " + ") + p->name; if (p->stage == 0) p->apply(k); }
    string& f = cache[name + k.value]; if (f.empty()) f = ref::make_sig(MSG, name, k.value, k.key(), "", "", 0); k.field = f;
    for (auto p : cs) if (p->stage == 1) p->apply(k);
    if (k.mode == 0) harmless(k, hl, false); if (hl) id += string(id.empty() ? "" : " + ") + HARMLESS[hl];
    id = fmt("%s %s %s %s: ", arc ? "ARC" : "DKIM", ALG[alg], CANON[canon], COMPANY[company]) + (id.empty() ? "nothing wrong" : id); c.note(id); c.state(id);
    string on = company == 5 ? (arc ? "DKIM-Signature" : "ARC-Message-Signature") : name; string& o = cache["o" + on]; if (o.empty()) o = ref::make_sig(MSG, on, string(on[0] == 'A' ? " i=2;" : " v=1;") + " a=ed25519-sha256; d=example.com; s=other; h=from; bh=@BH@; b=@B@", cfg::key(6), "", "", 0) + "\r\n";
    string before, after; if (company == 1 || company == 5) before = o; if (company == 2) after = o; if (company == 3) before = name + ": v=1; d=\r\n"; if (company == 4) { after = o; sub(after, "h=from", "h=From"); }
    string m = before + k.field + "\r\n" + after + k.rest; size_t idx = company == 1 || company == 3 ? 1 : 0;
    std::set<string> want; for (auto p : cs) want.insert(p->cls); if (want.empty()) want.insert("");
    env::dns = env::Dns(); if (k.mode == 1) { env::dns.fail = true; env::dns.herr = k.herr; } if (k.mode == 2) env::dns.packet = k.packet; if (k.mode == 3) { env::dns.packet = answer({k.rec.substr(0, 100)}); env::dns.len = 70000; }
    PlanBuf b(m); b.fail_pass = k.fail_pass; b.sticky = true; b.fail_at = k.fail_pass == 0 ? m.find("Subject") == string::npos ? 20 : m.find("Subject") : m.find("\r\n\r\n") == string::npos ? 0 : m.find("\r\n\r\n") + 4;
    std::istream in(&b); std::unique_ptr<DKIM::Validatory> v;
    auto ok = [&](const Result& r, const char* when) { c.require(want.count(r.cls) > 0, "class", id + ": " + when + " result '" + (r.cls.empty() ? "pass" : r.cls) + "' (" + r.what + "), expected " + (want.begin()->empty() ? "pass" : *want.begin())); c.outcome(r.cls + r.what.substr(0, 24)); };
    Result r = run([&] { v.reset(new DKIM::Validatory(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM)); });
    if (!r.cls.empty()) { c.require(k.fail_pass == 0, "constructor", id + ": the validator refused a readable message: " + r.what); ok(r, "reading"); c.transition(); c.validated(); return; }
    c.require(k.fail_pass != 0, "unread", id + ": no error for a message that cannot be read");
    const Case* kp = &k; if (k.mode == 0 || k.mode == 4) lib::set_dns(*v, [kp](const string& q, string& out) { if (q.compare(0, 6, "other.") == 0) { out = lib::record(cfg::key(6)); return true; } if (kp->found || kp->mode == 4) out = kp->rec; return kp->found; });
    c.require(v->GetSignatures().size() == (company == 0 || company == 5 ? 1u : 2u), "count", id + ": number of signatures"); auto i = v->GetSignatures().begin(); std::advance(i, idx);
    Result first; for (int twice = 0; twice < 2; twice++) {
        DKIM::Signature s; DKIM::PublicKey pk; r = run([&] { v->GetSignature(i, s); v->GetPublicKey(s, pk); v->CheckSignature(i, s, pk); }); ok(r, twice ? "second" : "first"); c.transition();
        if (twice) c.require(first.cls == r.cls && first.what == r.what, "repeat", id + ": first '" + first.what + "', then '" + r.what + "'"); first = r;
        if (!twice) for (size_t n = 0; n < v->GetSignatures().size(); n++) if (n != idx) { auto j = v->GetSignatures().begin(); std::advance(j, n); DKIM::Signature s2; DKIM::PublicKey p2; run([&] { v->GetSignature(j, s2); v->GetPublicKey(s2, p2); v->CheckSignature(j, s2, p2); }); }
    }
    c.validated(); c.sample(id + " -> " + (r.cls.empty() ? "pass" : r.cls + " " + r.what));
}
static const Cause* one(Ctx& c, bool arc, size_t from = 0) { const auto& v = causes(); size_t i = from + (size_t)c.choose((int)(v.size() - from)); const Cause* p = &v[i]; if (arc ? !p->arc : !p->dkim) throw Pruned(); return p; }
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "single"; p.what = fmt("%zu causes of failure and none, each x 3 algorithms x 4 canonicalizations x 6 companies x DKIM and ARC, twice with the same validator", causes().size()); p.split = 4;
      p.body = [](Ctx& c) { bool arc = c.choose(2); int alg = c.choose(3), canon = c.choose(4), company = c.choose(6); if (c.choose(2) == 0) { check(c, arc, alg, canon, company, {}); return; } check(c, arc, alg, canon, company, {one(c, arc)}); }; out.push_back(p); }
    { Phase p; p.name = "harmless"; p.split = 3; p.what = "every cause and none x 7 harmless differences (test-mode key, notes and unknown tags in key or signature, fitting hash and service lists, optional tags absent) x 3 algorithms x 4 canonicalizations x DKIM and ARC: the class stays the same";
      p.body = [](Ctx& c) { bool arc = c.choose(2); int h = 1 + c.choose(7), alg = c.choose(3), canon = c.choose(4); if (c.choose(2) == 0) { check(c, arc, alg, canon, 0, {}, h); return; } const Cause* o = one(c, arc); if (h == 7 && (o->name.compare(0, 2, "q=") == 0 || o->name.compare(0, 3, "i= ") == 0 || o->name == "flag s")) throw Pruned(); check(c, arc, alg, canon, 0, {o}, h); }; out.push_back(p); }
    { Phase p; p.name = "pairs"; p.split = 3; p.what = "every ordered pair of causes x 3 algorithms" + string(th ? " x 4 canonicalizations x 6 companies" : "") + " x DKIM and ARC: the class is that of one of the two";
      p.body = [th](Ctx& c) { bool arc = c.choose(2); int alg = c.choose(3), canon = th ? c.choose(4) : 1, company = th ? c.choose(6) : 0; auto a = one(c, arc), b = one(c, arc); if (a == b) throw Pruned(); check(c, arc, alg, canon, company, {a, b}); }; out.push_back(p); }
    { Phase p; p.name = "triples"; p.what = string("every ") + (th ? "ordered" : "set of") + " three causes x 3 algorithms x DKIM and ARC"; p.split = 4;
      p.body = [](Ctx& c) { bool arc = c.choose(2); int alg = c.choose(3); auto a = one(c, arc); if (c.thorough) { auto b = one(c, arc), d = one(c, arc); if (a == b || a == d || b == d) throw Pruned(); check(c, arc, alg, 1, 0, {a, b, d}); return; } size_t i = (size_t)(a - &causes()[0]); if (i + 1 >= causes().size()) throw Pruned(); auto b = one(c, arc, i + 1); size_t j = (size_t)(b - &causes()[0]); if (j + 1 >= causes().size()) throw Pruned(); auto d = one(c, arc, j + 1); check(c, arc, alg, 1, 0, {a, b, d}); }; out.push_back(p); }
}
