// C27: every crypto call of an operation fails in turn, in pairs, and from some call on.
#include "cfg.hpp"
#include "crypto.hpp"
using namespace mc;
using std::string;
using std::vector;
const char* mc::property_id = "C27";
static const vector<string>& messages() { static const vector<string> v = {"From: a@example.com\r\nSubject: s\r\nTo: t\r\n\r\nbody\r\n\r\nmore  text\r\n", "From: a@example.com\r\n\r\n", "From: a@example.com\r\nX: y\r\n"}; return v; }
struct Fault { long a = -1, b = -1; bool sticky = false; int mode = 0; string str() const { static const char* M[] = {"failing", "failing with a negative code", "done but reported as failed"}; return a < 0 ? "no failure" : fmt("call %ld%s %s", a, b >= 0 ? fmt(" and %ld", b).c_str() : sticky ? " and all later ones" : "", M[mode]); } };
// which calls fail, given how many there are without failures
static Fault fault(Ctx& c, long n, bool pairs) { Fault f; f.a = c.choose((int)n + 1) - 1; if (f.a < 0) return f; f.mode = c.choose(3); int k = c.choose(pairs ? 3 : 2); f.sticky = k == 1; if (k == 2) { if (f.a + 1 >= n) throw Pruned(); f.b = f.a + 1 + c.choose((int)(n - f.a - 1)); } return f; }
static string names(long a, long b) { string o = faults::trace.size() > (size_t)a && a >= 0 ? faults::trace[(size_t)a] : ""; if (b >= 0 && faults::trace.size() > (size_t)b) o += ", " + faults::trace[(size_t)b]; return o; }
struct Armed { Armed(const Fault& f) { faults::arm(f.a, f.b, f.sticky, f.mode); } ~Armed() { faults::disarm(); } };

// ---- signing (the key may be loaded in the faulty window)
struct SignRun { string cls, out; };
static SignRun sign(const cfg::Cfg& g, const string& m, bool load, const Fault& f, DKIM::Signatory* reuse = nullptr, DKIM::SignatoryOptions* opts = nullptr) {
    SignRun r; std::istringstream in(m); std::unique_ptr<DKIM::Signatory> own; if (!reuse) { own.reset(new DKIM::Signatory(in)); reuse = own.get(); } std::unique_ptr<DKIM::SignatoryOptions> o; if (!opts) { o.reset(new DKIM::SignatoryOptions); opts = o.get(); if (!load) cfg::apply(g, *opts); }
    Armed a(f); r.cls = lib::classify([&] { if (load) cfg::apply(g, *opts); r.out = reuse->CreateSignature(*opts); }); return r; }
static const vector<cfg::Cfg>& configs() { static vector<cfg::Cfg> v; if (!v.empty()) return v; cfg::Cfg c; c.hast = true; c.t = 7; c.hdrmode = 1; c.hdr = {"from", "to"};
    for (int key : {1, 3, 2}) for (int sha1 = 0; sha1 < 2; sha1++) for (int rel = 0; rel < 2; rel++) { if (key == 2 && sha1) continue; auto d = c; d.sigs[0].key = key; d.sha1 = sha1; d.rh = d.rb = rel; v.push_back(d); }
    for (int arc = 0; arc < 2; arc++) { auto d = c; d.arc = arc ? 2 : 0; d.sigs[0].key = 3; d.sigs.push_back(cfg::Sig()); d.sigs[1].key = 2; d.sigs[1].selector = "two"; d.sigs.push_back(cfg::Sig()); d.sigs[2].key = 1; d.sigs[2].selector = "three"; d.over = {"subject"}; v.push_back(d); }
    { auto d = c; d.hasl = true; d.l = 0; v.push_back(d); } return v; }
// ---- verifying
static const string& signedmsg(int k) { static std::map<int, string> m; string& r = m[k]; if (!r.empty()) return r; // k: message, canonicalization, kind
    const string& b = messages()[(size_t)(k % 3)]; bool rel = k / 3 % 2, arc = k / 6 % 2; string name = arc ? "ARC-Message-Signature" : "DKIM-Signature", f;
    auto add = [&](const string& t, int key) { f += ref::make_sig(b, name, string(arc ? " i=1; " : " v=1; ") + t + (rel ? " c=relaxed/relaxed;" : "") + " d=example.com; h=from:to:subject; bh=@BH@; b=@B@", cfg::key(key), "", "", 0) + "\r\n"; };
    add("a=rsa-sha256; s=rsa;", 3); add("a=ed25519-sha256; s=ed; l=0;", 2); add("a=rsa-sha1; s=rsa;", 3); add("a=rsa-sha256; s=rsa;", 5); add("a=ed25519-sha256; s=ed;", 6); return r = f + b; }
static bool dns(const string& q, string& o) { o = lib::record(cfg::key(q[0] == 'e' ? 2 : 3)); return true; }
static const char* VERDICT[] = {"", "", "", "fail", "fail"};

void mc::phases(vector<Phase>& out, bool th) {
    for (int load = 0; load < 2; load++) { Phase p; p.name = load ? "load-and-sign" : "sign"; p.split = 2; p.what = string(load ? "loading keys (PEM, base64 DER, ed25519 seed) and signing" : "signing") + " with 13 configurations x 3 messages: every crypto call fails alone, with every later one, and in every pair, in 3 ways; then again without failure on the same objects";
        p.body = [load](Ctx& c) { size_t k = (size_t)c.choose((int)configs().size()), m = (size_t)c.choose((int)messages().size()); const auto& g = configs()[k]; env::clock_now = 1700000000; static std::map<size_t, std::pair<SignRun, long>> clean; auto& cl = clean[k * 10 + m];
            if (cl.first.out.empty() && cl.first.cls.empty()) { cl.first = sign(g, messages()[m], load, Fault()); cl.second = faults::count; c.require(cl.first.cls.empty(), "clean", cfg::show(g) + ": refused without a failure"); for (auto& v : lib::verify(cl.first.out + "\r\n" + messages()[m], cfg::dns(g), g.arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM)) c.require(v.pass(), "clean", cfg::show(g) + ": does not verify"); }
            Fault f = fault(c, cl.second, true); std::istringstream in(messages()[m]); DKIM::Signatory s(in); DKIM::SignatoryOptions o; if (!load) cfg::apply(g, o); SignRun r = sign(g, messages()[m], load, f, &s, &o); string call = names(f.a, -1), id = cfg::show(g) + fmt(" message %zu: ", m) + f.str() + " (" + names(f.a, f.b) + ")"; c.note(id); c.state(id); c.transition(); c.validated(); c.sample(id + " -> " + (r.cls.empty() ? "signed" : r.cls));
            if (faults::hits) { c.require(!r.cls.empty() && r.out.empty(), "emitted", id + ": a signature was emitted"); SignRun r2 = sign(g, messages()[m], false, Fault(), &s, load ? nullptr : &o); c.require(r2.cls.empty() && r2.out == cl.first.out, "afterwards", id + ": signing again without failure gave '" + r2.cls + "' " + show(r2.out)); }
            else { c.require(f.a < 0, "not-reached", id + ": the failing call was not reached"); c.require(r.cls.empty() && r.out == cl.first.out, "unaffected", id + ": result differs without a failure"); } c.outcome(r.cls + call); }; out.push_back(p); }
    { Phase p; p.name = "verify"; p.split = 2; p.what = "verifying 5 signatures (3 good, 2 made with other keys; RSA and ed25519, SHA-1 and SHA-256, l=0) over 3 messages x 2 canonicalizations x DKIM and ARC: every crypto call fails alone, with every later one" + string(th ? ", and in every pair" : "") + ", in 3 ways; each signature whose calls did not fail keeps its verdict, and again without failure";
        p.body = [th](Ctx& c) { int k = c.choose(12); env::clock_now = 1700000000; auto ty = k / 6 % 2 ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM; const string& m = signedmsg(k); static std::map<int, long> calls; if (!calls.count(k)) { faults::arm(); auto v = lib::verify(m, dns, ty); calls[k] = faults::count; faults::disarm(); c.eq(lib::verdicts(v), "pass,pass,pass,fail,fail", "clean", "verdicts without a failure"); }
            Fault f = fault(c, calls[k], th); std::istringstream in(m); vector<string> got; vector<long> hits; string id = fmt("message %d ", k) + f.str();
            { Armed a(f); DKIM::Validatory v(in, ty); lib::set_dns(v, dns); for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) { long h = faults::hits; got.push_back(lib::check_one(v, i).cls); hits.push_back(faults::hits - h); }
              id += " (" + names(f.a, f.b) + ")"; c.note(id); c.state(id); c.require(got.size() == 5, "count", id + ": signatures"); c.require(f.a < 0 || faults::hits > 0, "not-reached", id + ": the failing call was not reached");
              for (size_t j = 0; j < 5; j++) { c.transition(); if (hits[j]) c.require(!got[j].empty(), "passed", id + fmt(": signature %zu passed", j)); else c.require(got[j] == VERDICT[j], "unaffected", id + fmt(": signature %zu is '", j) + got[j] + "'"); }
              faults::disarm(); size_t j = 0; for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i, ++j) c.require(lib::check_one(v, i).cls == VERDICT[j], "afterwards", id + fmt(": signature %zu without failure afterwards", j)); }
            c.validated(); string o; for (auto& g : got) o += g + ","; c.outcome(o); c.sample(id + " -> " + o); }; out.push_back(p); }
    { Phase p; p.name = "load"; p.split = 2; p.what = "loading private keys of 7 forms (main and additional signature) and public key records of 4 kinds: every crypto call fails in 3 ways; a failed load leaves the previous key, a record whose key failed to load verifies nothing";
        p.body = [](Ctx& c) { int k = c.choose(18); static std::map<int, long> calls; Fault f; string id;
            auto text = [&](int n) -> string { switch (n) { case 0: return keys::rsa1024_pem; case 1: return keys::rsa512_priv; case 2: return keys::rsa2048_pem; case 3: return keys::edA_seed; case 4: return ref::unb64(keys::edA_seed); case 5: return ref::b64enc(ref::unb64(keys::edA_seed) + ref::unb64(keys::edA_pub)); default: return ref::unb64(keys::edA_seed) + ref::unb64(keys::edA_pub); } };
            if (k < 14) { int n = k % 7; bool add = k >= 7, ed = n >= 3; auto make = [&](DKIM::SignatoryOptions& o) -> DKIM::AdditionalSignaturesOptions* { auto alg = ed ? DKIM::DKIM_SA_ED25519 : DKIM::DKIM_SA_RSA; string old = ed ? keys::edB_seed : keys::rsa512_priv; if (add) { auto& a = o.AddAdditionalSignature(); a.SetSignatureAlgorithm(alg).SetPrivateKey(old); return &a; } o.SetSignatureAlgorithm(alg).SetPrivateKey(old); return nullptr; };
                auto set = [&](DKIM::SignatoryOptions& o, DKIM::AdditionalSignaturesOptions* a) { if (a) a->SetPrivateKey(text(n)); else o.SetPrivateKey(text(n)); };
                if (!calls.count(k)) { DKIM::SignatoryOptions o; auto a = make(o); faults::arm(); set(o, a); calls[k] = faults::count; faults::disarm(); }
                f = fault(c, calls[k], true); id = fmt("private key form %d %s: ", n, add ? "additional" : "main") + f.str(); DKIM::SignatoryOptions o; auto a = make(o); RSA* r0 = a ? a->GetRSAPrivateKey() : o.GetRSAPrivateKey(); string e0 = a ? a->GetED25519PrivateKey() : o.GetED25519PrivateKey(), cls; { Armed x(f); cls = lib::classify([&] { set(o, a); }); } RSA* r1 = a ? a->GetRSAPrivateKey() : o.GetRSAPrivateKey(); string e1 = a ? a->GetED25519PrivateKey() : o.GetED25519PrivateKey();
                if (faults::hits) { c.require(!cls.empty(), "loaded", id + ": accepted"); c.require(r0 == r1 && e0 == e1, "previous", id + ": the previous key is gone"); if (r1) c.require(RSA_size(r1) == 64, "previous", id); } else { c.require(f.a < 0 && cls.empty(), "unaffected", id); c.require(ed ? e1 != e0 : RSA_size(r1) == (n == 0 ? 128 : n == 1 ? 64 : 256), "unaffected", id + ": not the new key"); } }
            else { int n = k - 14; const auto& key = cfg::key(n == 0 ? 1 : n == 1 ? 3 : n == 2 ? 2 : 4); string rec = lib::record(key); if (!calls.count(k)) { DKIM::PublicKey p; faults::arm(); p.Parse(rec); calls[k] = faults::count; faults::disarm(); }
                f = fault(c, calls[k], true); id = fmt("key record %d: ", n) + f.str(); DKIM::PublicKey p; string cls; { Armed x(f); cls = lib::classify([&] { p.Parse(rec); }); } if (faults::hits) { c.require(!cls.empty(), "loaded", id + ": accepted"); p.Reset(); c.require(lib::classify([&] { p.Parse(rec); }).empty() && (n == 2 || p.GetRSAPublicKey()), "afterwards", id); } else c.require(f.a < 0 && cls.empty(), "unaffected", id); }
            c.transition(); c.validated(); c.state(id); c.note(id); c.sample(id); c.outcome(fmt("%d %ld", k, f.a)); }; out.push_back(p); }
}
