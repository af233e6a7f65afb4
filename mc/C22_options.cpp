// C22: histories of option calls against a reference record; RSA objects counted through
// OpenSSL's own construction and destruction callbacks.
#include "cfg.hpp"
#include <unordered_map>
using namespace mc;
using std::string;
using std::vector;
typedef std::list<string> L;
const char* mc::property_id = "C22";

static const string MSG = "From: a@example.com\r\nX: one\r\nSubject: s\r\nTo: t\r\n\r\nbody\r\n";
static std::set<const void*> live; // every RSA object that exists
static void born(void* parent, void*, CRYPTO_EX_DATA*, int, long, void*) { live.insert(parent); }
static void died(void* parent, void*, CRYPTO_EX_DATA*, int, long, void*) { live.erase(parent); }
static void track() { static bool once = false; if (!once) { once = true; RSA_get_ex_new_index(0, nullptr, born, nullptr, died); } }

static string raw(int k) { string s; ref::b64dec(keys::edA_seed, s); if (k == 6) ref::b64dec(keys::edB_seed, s); return s; }
static string raw64(int k) { return raw(k) + ref::unb64(cfg::key(k).pub64); }
static string modulus(const RSA* r) { if (!r) return "none"; const BIGNUM* n; RSA_get0_key(r, &n, nullptr, nullptr); char* t = BN_bn2hex(n); string o = t; OPENSSL_free(t); return o; }
static RSA* load(int k) { string d = ref::unb64(k == 3 ? keys::rsa512_priv : keys::rsa1024_priv); const unsigned char* p = (const unsigned char*)d.data(); return d2i_RSAPrivateKey(nullptr, &p, (long)d.size()); }

static const string& MOD(int k) { static std::map<int, string> mod; if (!mod.count(k)) { RSA* x = load(k); mod[k] = modulus(x); RSA_free(x); } return mod[k]; }

struct SigRec { bool ed = false; int rsa = 0, edkey = 0; const RSA* same = nullptr; string domain, selector; };
struct Rec {
    vector<SigRec> sig = vector<SigRec>(1);
    bool sha1 = false, rh = false, rb = false, hasl = false, hast = false, hasx = false, xabs = true; unsigned long l = 0, arc = 0; long t = -1, x = -1; L hdr, over; string ident;
    Rec() { for (auto& d : cfg::defaults()) hdr.push_back(d); }
};
struct Ops {
    Rec r; std::unique_ptr<DKIM::SignatoryOptions> o; vector<DKIM::AdditionalSignaturesOptions*> add; vector<RSA*> lent; string hist;
    Ops() : o(new DKIM::SignatoryOptions) { lent = {load(3), load(1)}; }
    ~Ops() { o.reset(); for (RSA* x : lent) RSA_free(x); }
};
struct Op { string name; std::function<void(Ctx&, Ops&)> run; };
static void must(Ctx& c, const Ops& s, bool ok, std::function<void()> f) { string what, cls = lib::classify(f, &what); c.require(cls == (ok ? "" : "permerror"), ok ? "refused" : "accepted", s.hist + (cls.empty() ? ": accepted" : ": " + cls + " " + what)); }
// operations on signature k (0 = main)
static void sigops(vector<Op>& v, int k, bool keysonly) {
    string who = k ? fmt("additional %d: ", k) : "";
    auto key = [&](const string& n, const string& text, int rsa, int ed) { // rsa/ed: the key it is for each algorithm, 0 = refused
        v.push_back({who + "SetPrivateKey(" + n + ")", [=](Ctx& c, Ops& s) { if ((size_t)k >= s.r.sig.size()) return; auto& q = s.r.sig[(size_t)k]; int id = q.ed ? ed : rsa; must(c, s, id != 0, [&] { if (k) s.add[(size_t)k - 1]->SetPrivateKey(text); else s.o->SetPrivateKey(text); }); if (id) { if (q.ed) q.edkey = id; else { q.rsa = id; q.same = nullptr; } } }}); };
    key("rsa512 DER", keys::rsa512_priv, 3, 0); key("rsa1024 PEM", keys::rsa1024_pem, 1, 0); key("junk", "junk", 0, 0); key("ed25519 seed", keys::edA_seed, 0, 2);
    auto rsa = [&](const string& n, int which, bool own) { v.push_back({who + "SetRSAPrivateKey(" + n + ")", [=](Ctx&, Ops& s) { if ((size_t)k >= s.r.sig.size()) return; RSA* x = which < 0 ? nullptr : own ? load(which ? 1 : 3) : s.lent[(size_t)which]; if (k) s.add[(size_t)k - 1]->SetRSAPrivateKey(x, own); else s.o->SetRSAPrivateKey(x, own); auto& q = s.r.sig[(size_t)k]; q.rsa = which < 0 ? 0 : which ? 1 : 3; q.same = x; }}); };
    rsa("lent", 0, false); rsa("owned", 1, true);
    if (keysonly) { key("certificate-like PEM", "-----BEGIN X-----\nYQ==\n-----END X-----\n", 0, 0); key("EC PEM", keys::ec_pem, 0, 0); key("RSA-PSS PEM", keys::pss_pem, 0, 0); key("DSA PEM", keys::dsa_pem, 0, 0); key("ed25519 raw 32", raw(6), 0, 6); key("ed25519 raw 64", raw64(2), 0, 2); key("ed25519 base64 64", ref::b64enc(raw64(6)), 0, 6); key("", "", 0, 0); rsa("lent 2", 1, false); rsa("none", -1, false); rsa("none owned", -1, true); }
    v.push_back({who + "SetSignatureAlgorithm(ed25519)", [=](Ctx&, Ops& s) { if ((size_t)k >= s.r.sig.size()) return; if (k) s.add[(size_t)k - 1]->SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519); else s.o->SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519); s.r.sig[(size_t)k].ed = true; }});
    v.push_back({who + "SetSignatureAlgorithm(rsa)", [=](Ctx&, Ops& s) { if ((size_t)k >= s.r.sig.size()) return; if (k) s.add[(size_t)k - 1]->SetSignatureAlgorithm(DKIM::DKIM_SA_RSA); else s.o->SetSignatureAlgorithm(DKIM::DKIM_SA_RSA); s.r.sig[(size_t)k].ed = false; }});
    if (keysonly) return;
    auto name = [&](const string& d, bool sel, bool ok) { v.push_back({who + (sel ? "SetSelector(" : "SetDomain(") + d + ")", [=](Ctx& c, Ops& s) { if ((size_t)k >= s.r.sig.size()) return; must(c, s, ok, [&] { if (k) { if (sel) s.add[(size_t)k - 1]->SetSelector(d); else s.add[(size_t)k - 1]->SetDomain(d); } else { if (sel) s.o->SetSelector(d); else s.o->SetDomain(d); } }); if (ok) (sel ? s.r.sig[(size_t)k].selector : s.r.sig[(size_t)k].domain) = d; }}); };
    name("example.com", false, true); name(k ? "k.example.com" : "Other.org", false, true); name("a..b", false, false); name("sel", true, true); name("b;", true, false);
}
static Op addsig() { return {"AddAdditionalSignature", [](Ctx&, Ops& s) { if (s.r.sig.size() > 3) return; s.add.push_back(&s.o->AddAdditionalSignature()); s.r.sig.push_back(SigRec()); }}; }
static Op complete() { return {"(a complete main signature)", [](Ctx& c, Ops& s) { must(c, s, true, [&] { s.o->SetDomain("example.com").SetSelector("s").SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetPrivateKey(keys::edB_seed); }); auto& q = s.r.sig[0]; q.domain = "example.com"; q.selector = "s"; q.ed = true; q.edkey = 6; }}; }
static Op completeadd(size_t k) { return {fmt("(a complete additional signature %zu)", k), [k](Ctx& c, Ops& s) { if (k >= s.r.sig.size()) return; must(c, s, true, [&] { s.add[k - 1]->SetDomain("example.com").SetSelector("add").SetSignatureAlgorithm(DKIM::DKIM_SA_RSA).SetPrivateKey(keys::rsa1024_pem); }); auto& q = s.r.sig[k]; q.domain = "example.com"; q.selector = "add"; q.ed = false; q.rsa = 1; q.same = nullptr; }}; }
static void common(vector<Op>& v) {
    v.push_back({"SetDigestAlgorithm(sha1)", [](Ctx&, Ops& s) { s.o->SetDigestAlgorithm(DKIM::DKIM_A_SHA1); s.r.sha1 = true; }});
    v.push_back({"SetDigestAlgorithm(sha256)", [](Ctx&, Ops& s) { s.o->SetDigestAlgorithm(DKIM::DKIM_A_SHA256); s.r.sha1 = false; }});
    for (int m = 0; m < 2; m++) { v.push_back({fmt("SetCanonModeHeader(%d)", m), [m](Ctx&, Ops& s) { s.o->SetCanonModeHeader(m ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE); s.r.rh = m; }}); v.push_back({fmt("SetCanonModeBody(%d)", m), [m](Ctx&, Ops& s) { s.o->SetCanonModeBody(m ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE); s.r.rb = m; }}); }
    for (unsigned long n : {0ul, 3ul, 9999ul}) v.push_back({fmt("SetSignBodyLength(%lu)", n), [n](Ctx&, Ops& s) { s.o->SetSignBodyLength(n); s.r.hasl = true; s.r.l = n; }});
    for (unsigned long n : {0ul, 2ul}) v.push_back({fmt("SetARCInstance(%lu)", n), [n](Ctx&, Ops& s) { s.o->SetARCInstance(n); s.r.arc = n; }});
    for (long n : {-1l, 1234l}) v.push_back({fmt("SetTimestamp(%ld)", n), [n](Ctx&, Ops& s) { s.o->SetTimestamp(n); s.r.hast = true; s.r.t = n; }});
    for (int n = 0; n < 3; n++) v.push_back({fmt("SetExpiration(%d)", n), [n](Ctx&, Ops& s) { long x = n == 2 ? 60 : 2000000000 + n; if (n == 0) s.o->SetExpiration(x); else s.o->SetExpiration(x, n == 1); s.r.hasx = true; s.r.x = x; s.r.xabs = n != 2; }});
    for (string i : {"u@example.com", "", "v@x.example.com"}) v.push_back({"SetIdentity(" + i + ")", [i](Ctx&, Ops& s) { s.o->SetIdentity(i); s.r.ident = i; }});
}
static void headers(vector<Op>& v) {
    for (L l : {L{}, L{"from"}, L{"From", "X", "x", "to"}}) v.push_back({"SetHeaders(" + std::to_string(l.size()) + ")", [l](Ctx&, Ops& s) { s.o->SetHeaders(l); s.r.hdr = l; }});
    for (L l : {L{"x"}, L{"FROM", "Subject", "To"}, L{}}) v.push_back({"AddHeaders(" + std::to_string(l.size()) + ")", [l](Ctx&, Ops& s) { s.o->AddHeaders(l); s.r.hdr.insert(s.r.hdr.end(), l.begin(), l.end()); }});
    auto del = [](Rec& r, L l) { for (auto& d : l) for (auto i = r.hdr.begin(); i != r.hdr.end();) if (ref::lower(*i) == ref::lower(d)) i = r.hdr.erase(i); else ++i; };
    for (L l : {L{"X"}, L{"fRom"}, L{"to", "nope", "SUBJECT"}, L{}}) v.push_back({"DelHeaders(" + (l.empty() ? string() : l.front()) + ")", [l, del](Ctx&, Ops& s) { s.o->DelHeaders(l); del(s.r, l); }});
    v.push_back({"DelHeaders(GetHeaders())", [del](Ctx&, Ops& s) { s.o->DelHeaders(s.o->GetHeaders()); L l = s.r.hdr; del(s.r, l); }});
    v.push_back({"AddHeaders(GetHeaders())", [](Ctx&, Ops& s) { if (s.r.hdr.size() > 100) return; s.o->AddHeaders(s.o->GetHeaders()); L l = s.r.hdr; s.r.hdr.insert(s.r.hdr.end(), l.begin(), l.end()); }});
    v.push_back({"SetHeaders(GetOversignHeaders())", [](Ctx&, Ops& s) { s.o->SetHeaders(s.o->GetOversignHeaders()); s.r.hdr = s.r.over; }});
    for (L l : {L{"from"}, L{"Subject", "X"}, L{}}) v.push_back({"SetOversignHeaders(" + std::to_string(l.size()) + ")", [l](Ctx&, Ops& s) { s.o->SetOversignHeaders(l); s.r.over = l; }});
}
static string join(const L& l) { string o; for (auto& x : l) o += x + ","; return o; }
static void getters(Ctx& c, Ops& s) {
    const Rec& r = s.r; auto& o = *s.o; string h = " after " + s.hist;
    auto one = [&](int k, const RSA* rsa, const string& ed, const string& d, const string& sel, DKIM::SignatureAlgorithm a) {
        const SigRec& q = r.sig[(size_t)k]; string w = fmt("signature %d", k) + h;
        c.eq(d, q.domain, "domain", "domain of " + w); c.eq(sel, q.selector, "selector", "selector of " + w); c.require((a == DKIM::DKIM_SA_ED25519) == q.ed, "algorithm", "algorithm of " + w);
        c.eq(ed, q.edkey ? raw64(q.edkey) : string(), "key", "ed25519 key of " + w);         if (q.same) c.require(rsa == q.same, "key", "the RSA key of " + w + " is not the one handed over"); c.eq(modulus(rsa), q.rsa ? MOD(q.rsa) : "none", "key", "RSA key of " + w); };
    one(0, o.GetRSAPrivateKey(), o.GetED25519PrivateKey(), o.GetDomain(), o.GetSelector(), o.GetSignatureAlgorithm());
    for (size_t k = 1; k < r.sig.size(); k++) { auto& a = *s.add[k - 1]; one((int)k, a.GetRSAPrivateKey(), a.GetED25519PrivateKey(), a.GetDomain(), a.GetSelector(), a.GetSignatureAlgorithm()); }
    c.require((o.GetDigestAlgorithm() == DKIM::DKIM_A_SHA1) == r.sha1, "digest", "digest" + h); c.require((o.GetCanonModeHeader() == DKIM::DKIM_C_RELAXED) == r.rh, "canonicalization", "header canonicalization" + h); c.require((o.GetCanonModeBody() == DKIM::DKIM_C_RELAXED) == r.rb, "canonicalization", "body canonicalization" + h);
    c.eq(join(o.GetHeaders()), join(r.hdr), "headers", "header list" + h); c.eq(join(o.GetOversignHeaders()), join(r.over), "oversign", "oversign list" + h);
    c.require(o.GetBodySignLength() == r.hasl && (!r.hasl || o.GetBodyLength() == r.l), "limit", "body limit" + h); c.require(o.GetARCInstance() == r.arc, "arc", "ARC instance" + h);
    c.require(o.GetTimestampSign() == r.hast && (!r.hast || o.GetTimestamp() == r.t), "timestamp", "timestamp" + h); c.require(o.GetExpirationSign() == r.hasx && (!r.hasx || (o.GetExpiration() == r.x && o.GetExpirationAbsolute() == r.xabs)), "expiration", "expiration" + h); c.eq(o.GetIdentity(), r.ident, "identity", "identity" + h);
}
// what a fresh object holding these settings gives; the same settings come up again and again
struct Want { string cls, out, what, why; };
static const Want& want_for(const cfg::Cfg& g) {
    static std::unordered_map<string, Want> m; string k; for (auto& x : g.sigs) k += fmt("%d ", x.key) + show(x.domain) + show(x.selector); k += fmt("%d%d%d%d|%d|%d %lu %d %ld %d %ld %d %lu|", g.sha1, g.rh, g.rb, g.hdrmode, (int)g.sigs.size(), g.hasl, g.l, g.hast, g.t, g.hasx, g.x, g.xabs, g.arc) + show(g.ident) + "|"; for (auto& x : g.hdr) k += show(x) + ","; k += "|"; for (auto& x : g.over) k += show(x) + ",";
    auto i = m.find(k); if (i != m.end()) return i->second; if (m.size() > 20000) m.clear(); Want w; w.why = cfg::refusal(g, MSG); DKIM::SignatoryOptions f; cfg::apply(g, f); w.cls = lib::sign(MSG, f, w.out, &w.what); return m[k] = w;
}
static void history(Ctx& c, const vector<Op>& ops, int n, vector<Op> before = {}) {
    track(); env::clock_now = 1700000000; vector<size_t> pick; for (int i = 0; i < n; i++) pick.push_back((size_t)c.choose((int)ops.size()));
    static bool warm = false; if (!warm) { warm = true; for (int k : {1, 3, 6}) cfg::key(k); MOD(1); MOD(3); string o; cfg::Cfg g; g.sigs[0].key = 3; DKIM::SignatoryOptions f; cfg::apply(g, f); lib::sign(MSG, f, o); } // lazily created state
    std::set<const void*> start = live;
    {
        Ops s; for (auto& b : before) { s.hist += b.name + "; "; b.run(c, s); }
        for (size_t p : pick) { s.hist += ops[p].name + "; "; c.note(ops[p].name); ops[p].run(c, s); getters(c, s); c.transition(); c.state(s.hist); }
        // signing with the history equals signing with the last values set once
        cfg::Cfg g; const Rec& r = s.r; g.sigs.clear(); for (auto& q : r.sig) { cfg::Sig x; x.key = q.ed ? q.edkey : q.rsa; x.domain = q.domain; x.selector = q.selector; g.sigs.push_back(x); }
        g.sha1 = r.sha1; g.rh = r.rh; g.rb = r.rb; g.hdrmode = 1; g.hdr = r.hdr; g.over = r.over; g.hasl = r.hasl; g.l = r.l; g.hast = r.hast; g.t = r.t; g.hasx = r.hasx; g.x = r.x; g.xabs = r.xabs; g.ident = r.ident; g.arc = r.arc;
        string got, w1; const Want& f = want_for(g); const string &why = f.why, &c2 = f.cls, &want = f.out; string c1 = lib::sign(MSG, *s.o, got, &w1);
        c.require(c1 == c2 && c1 == (why.empty() ? "" : "permerror"), "signing", "signing gives '" + c1 + " " + w1 + "' after " + s.hist + ", '" + c2 + "' with the last values, reference '" + why + "'"); c.eq(got, want, "signing", "signature after " + s.hist); getters(c, s); c.validated(); c.outcome(c1 + got.substr(0, 90)); c.sample(s.hist);
        s.o.reset(); for (RSA* x : s.lent) { c.require(live.count(x) > 0, "lent-released", "a lent key was released: " + s.hist); c.eq(modulus(x), MOD(x == s.lent[1] ? 1 : 3), "lent-released", "a lent key after " + s.hist); }
    }
    string h; for (size_t p : pick) h += ops[p].name + "; "; c.require(live.size() == start.size(), live.size() > start.size() ? "leak" : "released", fmt("%zu RSA objects before, %zu after: ", start.size(), live.size()) + h);
}
// two objects, calls on either, and assignments between them; single signatures copied out and back
static void refind(Ops& s) { s.add.clear(); for (auto& a : s.o->GetAdditionalSignatures()) s.add.push_back(const_cast<DKIM::AdditionalSignaturesOptions*>(&a)); s.add.erase(s.add.begin()); }
static void copies(Ctx& c, int n) {
    track(); env::clock_now = 1700000000; static bool warm = false; if (!warm) { warm = true; for (int k : {1, 3, 6}) cfg::key(k); MOD(1); MOD(3); string o; cfg::Cfg g; g.sigs[0].key = 3; DKIM::SignatoryOptions f; cfg::apply(g, f); lib::sign(MSG, f, o); }
    vector<Op> v, m, a; sigops(m, 0, false); sigops(a, 1, false); auto take = [&](vector<Op>& from, const string& part) { for (auto& x : from) if (x.name.find(part) != string::npos) { v.push_back(x); return; } abort(); };
    take(m, "SetPrivateKey(rsa512 DER"); take(m, "SetPrivateKey(ed25519 seed"); take(m, "SetRSAPrivateKey(lent"); take(m, "SetRSAPrivateKey(owned"); take(m, "SetSignatureAlgorithm(rsa"); take(m, "SetDomain(Other.org"); v.push_back(addsig()); take(a, "SetPrivateKey(rsa512 DER"); take(a, "SetRSAPrivateKey(lent"); take(a, "SetSelector(sel"); v.push_back(completeadd(1));
    { vector<Op> h; headers(h); take(h, "AddHeaders(1)"); }
    std::set<const void*> start = live; string hist;
    {
        Ops two[2]; for (int i = 0; i < 2; i++) { complete().run(c, two[i]); if (i) addsig().run(c, two[i]); }
        for (int i = 0; i < n; i++) {
            int w = c.choose(2), x = c.choose((int)v.size() + 6); Ops &s = two[w], &t = two[1 - w]; string name;
            if (x < (int)v.size()) { name = v[(size_t)x].name; hist += fmt("%c: ", 'a' + w) + name + "; "; s.hist = hist; v[(size_t)x].run(c, s); }
            else {
                x -= (int)v.size(); static const char* N[] = {"assigned the other", "assigned itself", "assigned a new object", "destroyed and made anew from the other", "first additional signature assigned the main one", "main signature copied and the copy dropped"}; hist += fmt("%c: ", 'a' + w) + N[x] + "; "; s.hist = hist;
                if (x == 0) { *s.o = *t.o; s.r = t.r; refind(s); }
                if (x == 1) { auto& self = *s.o; *s.o = self; refind(s); }
                if (x == 2) { *s.o = DKIM::SignatoryOptions(); s.r = Rec(); refind(s); }
                if (x == 3) { s.o.reset(new DKIM::SignatoryOptions); *s.o = *t.o; s.r = t.r; refind(s); }
                if (x == 4 && !s.add.empty()) { *s.add[0] = s.o->GetAdditionalSignatures().front(); s.r.sig[1] = s.r.sig[0]; }
                if (x == 5) { DKIM::AdditionalSignaturesOptions q(s.o->GetAdditionalSignatures().front()); q.SetDomain("copy.example.net"); q.SetSignatureAlgorithm(DKIM::DKIM_SA_RSA); q.SetPrivateKey(keys::rsa1024_priv); DKIM::AdditionalSignaturesOptions u(q); q = u; }
            }
            for (Ops& q : two) { q.hist = hist; getters(c, q); } c.transition(); c.state(hist);
        }
        for (int i = 0; i < 2; i++) { const Rec& r = two[i].r; cfg::Cfg g; g.sigs.clear(); for (auto& q : r.sig) { cfg::Sig x; x.key = q.ed ? q.edkey : q.rsa; x.domain = q.domain; x.selector = q.selector; g.sigs.push_back(x); } g.hdrmode = 1; g.hdr = r.hdr; string got, w1; const Want& f = want_for(g); const string &why = f.why, &c2 = f.cls, &want = f.out; string c1 = lib::sign(MSG, *two[i].o, got, &w1); c.require(c1 == c2 && c1 == (why.empty() ? "" : "permerror"), "signing", "signing gives '" + c1 + " " + w1 + "' after " + hist + ", '" + c2 + "' with the last values"); c.eq(got, want, "signing", "signature after " + hist); c.validated(); c.outcome(c1 + got.substr(0, 60)); }
        int first = c.choose(2); two[first].o.reset(); two[1 - first].hist = hist; getters(c, two[1 - first]); two[1 - first].o.reset(); for (Ops& q : two) for (RSA* x : q.lent) { c.require(live.count(x) > 0, "lent-released", "a lent key was released: " + hist); c.eq(modulus(x), MOD(x == q.lent[1] ? 1 : 3), "lent-released", "a lent key after " + hist); } c.sample(hist);
    }
    c.require(live.size() == start.size(), live.size() > start.size() ? "leak" : "released", fmt("%zu RSA objects before, %zu after: ", start.size(), live.size()) + hist);
}
// key objects: parsed, reset, assigned; the RSA object is shared or owned, never lost or freed twice
static string describe(const DKIM::PublicKey& k) { string o = fmt("%d %s %s ", (int)k.GetSignatureAlgorithm(), modulus(k.GetRSAPublicKey()).c_str(), ref::b64enc(k.GetED25519PublicKey()).c_str()); for (auto a : k.GetDigestAlgorithms()) o += fmt("h%d ", (int)a); for (auto a : k.GetServiceType()) o += fmt("s%d ", (int)a); for (auto& a : k.GetFlags()) o += "t" + a + " "; return o + (k.SoftFail() ? "soft" : ""); }
static void publickeys(Ctx& c, int n) {
    track(); struct T { string text, want; bool ok; }; static vector<T> texts; if (texts.empty()) { auto add = [&](const string& t, const string& w, bool ok) { texts.push_back({t, w, ok}); };
        add(string("v=DKIM1; h=sha256; t=y:s; p=") + keys::rsa1024_pub, "0 " + MOD(1) + "  h" + std::to_string((int)DKIM::DKIM_A_SHA256) + " ty ts soft", true); add(string("s=email; p=") + cfg::key(3).pub64, "0 " + MOD(3) + "  s0 ", true); add("k=ed25519; t=s; p=" + cfg::key(2).pub64, "1 none " + cfg::key(2).pub64 + " ts ", true); add(string("p=") + keys::rsa1024_pub + "; s=tlsrpt", "", false); add("junk", "", false); DKIM::PublicKey warm; warm.Parse(texts[0].text); }
    std::set<const void*> start = live; string hist;
    {
        std::unique_ptr<DKIM::PublicKey> k[2]; string want[2]; bool known[2] = {true, true}; for (auto& x : k) x.reset(new DKIM::PublicKey); string fresh = describe(*k[0]); want[0] = want[1] = fresh;
        for (int i = 0; i < n; i++) {
            int w = c.choose(2), x = c.choose((int)texts.size() + 5); auto &s = *k[w], &t = *k[1 - w];
            if (x < (int)texts.size()) { hist += fmt("%c: Reset, Parse(%d); ", 'a' + w, x); s.Reset(); c.eq(describe(s), fresh, "reset", "a key object after Reset: " + hist); string cls = lib::classify([&] { s.Parse(texts[(size_t)x].text); }); c.require(cls == (texts[(size_t)x].ok ? "" : "permerror"), "parse", "Parse gave '" + cls + "': " + hist); known[w] = texts[(size_t)x].ok; want[w] = texts[(size_t)x].want; }
            else { x -= (int)texts.size(); static const char* N[] = {"assigned the other", "assigned itself", "assigned a new object", "Reset", "destroyed and made anew"}; hist += fmt("%c: ", 'a' + w) + N[x] + "; ";
                if (x == 0) { s = t; known[w] = known[1 - w]; want[w] = want[1 - w]; } if (x == 1) { auto& self = s; s = self; } if (x == 2) { s = DKIM::PublicKey(); known[w] = true; want[w] = fresh; } if (x == 3) { s.Reset(); known[w] = true; want[w] = fresh; } if (x == 4) { k[w].reset(); k[w].reset(new DKIM::PublicKey); known[w] = true; want[w] = fresh; } }
            for (int j = 0; j < 2; j++) if (known[j]) c.eq(describe(*k[j]), want[j], "key", fmt("key object %c after ", 'a' + j) + hist); c.transition(); c.state(hist); c.note(hist);
        }
        int first = c.choose(2); k[first].reset(); if (known[1 - first]) c.eq(describe(*k[1 - first]), want[1 - first], "key", "a key object after the other was destroyed: " + hist); c.validated(); c.outcome(want[0] + want[1]); c.sample(hist);
    }
    c.require(live.size() == start.size(), live.size() > start.size() ? "leak" : "released", fmt("%zu RSA objects before, %zu after: ", start.size(), live.size()) + hist);
}
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "public-keys"; int n = th ? 5 : 3; p.what = "every sequence of " + std::to_string(n) + " operations on two key objects: parsing of five records after a reset, reset, assignment of the other, of itself, of a new object, destruction"; p.split = 2; p.body = [n](Ctx& c) { publickeys(c, n); }; out.push_back(p); }
    { Phase p; p.name = "copies"; int n = th ? 4 : 3; p.what = "every sequence of " + std::to_string(n) + " calls on two objects, among them assignments of one to the other, to itself, of a new object, and of single signatures; either object destroyed first"; p.split = 2; p.body = [n](Ctx& c) { copies(c, n); }; out.push_back(p); }
    { Phase p; p.name = "headers"; int n = th ? 5 : 4; p.what = "every sequence of " + std::to_string(n) + " header list calls (set, add, delete, oversign, aliasing the object's own lists)"; p.body = [n](Ctx& c) { vector<Op> v; headers(v); history(c, v, n, {complete()}); }; out.push_back(p); }
    { Phase p; p.name = "options"; int n = th ? 4 : 3; p.what = "every sequence of " + std::to_string(n) + " of all option calls but header lists, including invalid ones, on a complete configuration"; p.split = 2; p.body = [n](Ctx& c) { vector<Op> v; common(v); sigops(v, 0, false); v.push_back(addsig()); history(c, v, n, {complete()}); }; out.push_back(p); }
    { Phase p; p.name = "keys-main"; int n = th ? 5 : 4; p.what = "every sequence of " + std::to_string(n) + " key and algorithm calls on the main signature (DER, PEM, raw, base64, wrong types, junk, lent, owned, none)"; p.body = [n](Ctx& c) { vector<Op> v; sigops(v, 0, true); history(c, v, n, {{"SetDomain, SetSelector", [](Ctx&, Ops& s) { s.o->SetDomain("example.com").SetSelector("s"); s.r.sig[0].domain = "example.com"; s.r.sig[0].selector = "s"; }}}); }; out.push_back(p); }
    { Phase p; p.name = "keys-additional"; int n = th ? 5 : 3; p.what = "every sequence of " + std::to_string(n) + " key and algorithm calls on an additional signature, the main one and a second additional one"; p.split = 2; p.body = [n](Ctx& c) { vector<Op> v; sigops(v, 1, true); vector<Op> m; sigops(m, 0, false); v.push_back(addsig()); v.push_back(m[0]); v.push_back(m[4]); history(c, v, n, {complete(), addsig(), {"additional domain", [](Ctx&, Ops& s) { s.add[0]->SetDomain("example.com").SetSelector("add"); s.r.sig[1].domain = "example.com"; s.r.sig[1].selector = "add"; }}}); }; out.push_back(p); }
    { Phase p; p.name = "mixed"; int n = th ? 4 : 3; p.what = "every sequence of " + std::to_string(n) + " calls on main and two additional signatures and header lists, from a complete main and additional signature"; p.split = 2; p.body = [n](Ctx& c) { vector<Op> v; sigops(v, 0, false); v.push_back(addsig()); sigops(v, 1, false); sigops(v, 2, false); v.push_back(complete()); vector<Op> h; headers(h); v.push_back(h[1]); v.push_back(h[4]); v.push_back(h[7]); v.push_back(completeadd(2)); history(c, v, n, {complete(), addsig(), completeadd(1)}); }; out.push_back(p); }
}
