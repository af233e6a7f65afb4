// C14: every bounded history of operations gives the results fresh objects give.
#include "cfg.hpp"
#include <cerrno>
#include <openssl/err.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
using std::string;
using std::vector;
const char* mc::property_id = "C14";

static string describe(const DKIM::Signature& s) {
    string o = fmt("%d %d %d %d %lu %d %d %lu ", s.GetDigestAlgorithm(), s.GetSignatureAlgorithm(), s.GetCanonModeHeader(), s.GetCanonModeBody(), s.GetBodySize(), s.GetBodySizeLimit(), s.IsARC(), s.GetARCInstance());
    o += s.GetDomain() + "|" + s.GetSelector() + "|" + s.GetMailLocalPart() + "@" + s.GetMailDomain() + "|" + ref::b64enc(s.GetBodyHash()) + "|" + ref::b64enc(s.GetSignatureData());
    for (auto& h : s.GetSignedHeaders()) o += ":" + h;
    for (auto i = s.GetTagList().cbegin(); i != s.GetTagList().cend(); ++i) o += ";" + i->first + "=" + i->second.GetValue() + fmt("@%ld", (long)i->second.GetValueOffset());
    return o;
}
static string describe(const DKIM::PublicKey& k) {
    string o = fmt("%d %d ", k.GetSignatureAlgorithm(), k.SoftFail()) + ref::b64enc(k.GetED25519PublicKey());
    for (auto d : k.GetDigestAlgorithms()) o += fmt(" d%d", d);
    for (auto d : k.GetServiceType()) o += fmt(" s%d", d);
    for (auto& f : k.GetFlags()) o += " " + f;
    if (RSA* r = k.GetRSAPublicKey()) { const BIGNUM* n; RSA_get0_key(r, &n, nullptr, nullptr); char* t = BN_bn2hex(n); o += t; OPENSSL_free(t); }
    return o;
}
static void dirty() { errno = ERANGE; ERR_clear_error(); ERR_put_error(ERR_LIB_RSA, 0, 4, "x", 1); EVP_PKEY* p = nullptr; const unsigned char junk[] = "junk"; const unsigned char* q = junk; p = d2i_PUBKEY(nullptr, &q, 4); if (p) EVP_PKEY_free(p); errno = ERANGE; }
static void clean() { errno = 0; ERR_clear_error(); }

// f's result in a process that has done nothing else with the library (the first caller asks before doing anything itself)
static string fresh(const std::function<string()>& f) {
    int p[2]; if (pipe(p)) _exit(97); fflush(nullptr); pid_t pid = fork(); if (pid < 0) _exit(97);
    if (!pid) { close(p[0]); string r = f(); for (size_t i = 0; i < r.size();) { ssize_t k = write(p[1], r.data() + i, r.size() - i); if (k <= 0) _exit(98); i += (size_t)k; } _exit(0); }
    close(p[1]); string r; char b[4096]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) r.append(b, (size_t)k); close(p[0]); int st; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 99); return r;
}
// ---- verifier: one message with signatures of every fate
struct Box { string msg; size_t n; };
static const Box& box(bool arc) {
    static Box b[2];
    Box& r = b[arc];
    if (!r.msg.empty()) return r;
    string m = "From: a@example.com\r\nSubject: s\r\nSubject: t\r\n\r\nbody  text\r\n\r\nmore\r\n\r\n";
    const char* name = arc ? "ARC-Message-Signature" : "DKIM-Signature";
    string v = arc ? " i=1; " : " v=1; ", all;
    auto add = [&](const string& f) { all += f + "\r\n"; r.n++; };
    auto sig = [&](const string& t, int k) { return ref::make_sig(m, name, v + t + " bh=@BH@; b=@B@", cfg::key(k), "", "", env::clock_now); };
    string good = sig("a=rsa-sha256; c=relaxed/simple; d=example.com; s=one; h=from:subject; l=9;", 3);
    add(good);
    add(sig("a=ed25519-sha256; c=relaxed/relaxed; d=example.com; s=two; h=from:subject:subject;", 2));
    { string f = sig("a=rsa-sha1; c=simple/simple; d=other.org; s=three; h=subject:from;", 3); size_t p = f.find("bh=") + 3; f[p] = f[p] == 'A' ? 'B' : 'A'; add(f); }           // body hash
    { string f = good; size_t p = f.rfind("b=") + 4; f[p] = f[p] == 'A' ? 'B' : 'A'; add(f); }                                                                             // signature
    add(string(name) + ":" + v + "a=rsa-sha256; d=example.com; s=one; h=from; l=99999999999999999999999; bh=YQ==; b=YQ==");                                                  // out of range
    add(string(name) + ": v=1; v=2");                                                                                                                                       // malformed
    add(sig("a=rsa-sha256; c=relaxed/simple; d=example.com; s=nokey; h=from:subject;", 3));
    add(sig("a=ed25519-sha256; c=simple/relaxed; d=example.com; s=badkey; h=from;", 2));
    add(sig("a=rsa-sha256; c=relaxed/relaxed; d=example.com; s=dnsfail; h=from:subject; x=1800000000;", 3));
    r.msg = all + m;
    return r;
}
static bool dns(const string& q, string& o) {
    if (q.compare(0, 4, "one.") == 0 || q.compare(0, 6, "three.") == 0) o = "v=DKIM1; t=y:x; h=sha256:sha1; " + ("p=" + cfg::key(3).pub64);
    else if (q.compare(0, 4, "two.") == 0) o = lib::record(cfg::key(2));
    else if (q.compare(0, 7, "badkey.") == 0) o = "k=ed25519; t=s; s=*; p=AAAA";
    else if (q.compare(0, 8, "dnsfail.") == 0) return false;
    return true;
}
static string verify_one(DKIM::Validatory& v, size_t i, DKIM::Signature& s, DKIM::PublicKey& p, int upto = 3) {
    auto it = v.GetSignatures().begin();
    std::advance(it, i);
    string what, r = lib::classify([&] { v.GetSignature(it, s); if (upto < 2) return; v.GetPublicKey(s, p); if (upto < 3) return; v.CheckSignature(it, s, p); }, &what);
    return r + " " + what + " / " + describe(s) + " / " + describe(p);
}
static const string& alone(bool arc, size_t i, int upto) {
    static std::map<int, string> m;
    if (m.empty()) { box(false); box(true); lib::K();
        for (int a = 0; a < 2; a++) for (size_t j = 0; j < box(a).n; j++) for (int u = 1; u <= 3; u++) m[(int)(j * 8) + u * 2 + a] = fresh([&] {
            clean(); std::istringstream in(box(a).msg); DKIM::Validatory v(in, a ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM); lib::set_dns(v, dns); DKIM::Signature s; DKIM::PublicKey p; return verify_one(v, j, s, p, u); }); }
    return m.at((int)(i * 8) + upto * 2 + arc);
}
// ---- signer
static const vector<cfg::Cfg>& configs() {
    static vector<cfg::Cfg> v;
    if (!v.empty()) return v;
    cfg::Cfg c;
    c.hast = true; c.t = 5; c.sigs[0].key = 3;
    v.push_back(c);
    { auto d = c; d.rh = d.rb = true; d.sigs[0].key = 2; v.push_back(d); }
    { auto d = c; d.hasl = true; d.l = 3; d.sha1 = true; d.over = {"Subject"}; v.push_back(d); }
    { auto d = c; d.hasl = true; d.l = 1000; v.push_back(d); }                    // refused: beyond the body
    { auto d = c; d.hdrmode = 1; d.hdr = {"to"}; v.push_back(d); }                // refused: no From
    { auto d = c; d.sigs[0].key = 0; v.push_back(d); }                            // refused: no key
    { auto d = c; d.arc = 2; d.rb = true; d.sigs.push_back(cfg::Sig()); d.sigs[1].key = 2; d.sigs[1].selector = "ed"; v.push_back(d); }
    // from here on: settings whose effect an earlier signing could leave behind
    { auto d = c; d.hast = false; d.hasx = true; d.x = 600; d.xabs = false; v.push_back(d); }
    { auto d = c; d.t = 1234567890; d.hasx = true; d.x = 900; d.xabs = false; d.ident = "u@sub.example.com"; v.push_back(d); }
    { auto d = c; d.t = -1; d.sigs[0].key = 2; d.sigs[0].domain = "other.org"; d.sigs[0].selector = "x"; d.hdrmode = 1; d.hdr = {"from", "x"}; d.over = {"from", "x"}; d.hasl = true; d.l = 0; v.push_back(d); }
    { auto d = c; d.ident = "u@other.org"; v.push_back(d); }                      // refused: identity outside the domain
    return v;
}
static const int NC = 11, NS = 4 * NC, NX = NS + 18 + 26; // configurations; signing operations; operations of all kinds
static const vector<string>& messages() {
    static const vector<string> v = {"From: a@example.com\r\nSubject: x  y\r\nTo: t\r\n\r\nbody \r\n\r\nend\r\n\r\n", "From: a@example.com\r\nSubject: no body\r\n", "From: a\r\n\r\n", "From: a\nTo: b\n\nno final line end  "};
    return v;
}
static string sign_with(DKIM::Signatory& s, const DKIM::SignatoryOptions& o) { string out, what, r = lib::classify([&] { out = s.CreateSignature(o); }, &what); return r + " " + what + "\n" + out; }
static const string& signed_alone(size_t m, size_t k) {
    static std::map<size_t, string> c;
    if (c.empty()) for (size_t i = 0; i < messages().size(); i++) for (size_t j = 0; j < configs().size(); j++) c[i * 100 + j] = fresh([&] { clean(); DKIM::SignatoryOptions o; cfg::apply(configs()[j], o); std::istringstream in(messages()[i]); DKIM::Signatory s(in); return sign_with(s, o); });
    return c.at(m * 100 + k);
}
// ---- stand-alone parsers and codecs
struct Op { string name; std::function<string()> run; };
template <class F> static string outcome(F f) { string o, w, c = lib::classify([&] { o = f(); }, &w); return c + " " + w + "\n" + o; }
static DKIM::TagList* tl; static DKIM::Message* msg; static DKIM::Signature* sg; static DKIM::PublicKey* pk; static DKIM::Conversion::CanonicalizationHeader* ch;
static string parse_message(const string& t) {
    msg->Reset();
    return outcome([&] { std::istringstream in(t); while (msg->ParseLine(in) && !msg->IsDone()) { } string o = fmt("%ld %d ", (long)msg->GetBodyOffset(), msg->IsDone()); for (auto& h : msg->GetHeaders()) o += "[" + h->GetName() + "|" + h->GetHeader() + "]"; return o; });
}
static string parse_partly(const string& t, int lines) { msg->Reset(); return outcome([&] { std::istringstream in(t); for (int i = 0; i < lines; i++) msg->ParseLine(in); return string(); }); }
static string parse_tags(const string& t) { tl->Reset(); return outcome([&] { tl->Parse(t); string o; for (auto i = tl->cbegin(); i != tl->cend(); ++i) o += i->first + "=" + i->second.GetValue() + fmt("@%ld;", (long)i->second.GetValueOffset()); return o; }); }
static string parse_sig(const string& t) { sg->Reset(); auto h = std::make_shared<DKIM::Header>(); h->ParseLine(t); string r = outcome([&] { sg->Parse(h); return string(); }); return r[0] == 'p' || r[0] == 't' ? r : r + describe(*sg); }
static string parse_key(const string& t) { pk->Reset(); string r = outcome([&] { pk->Parse(t); return string(); }); return r[0] == 'p' || r[0] == 't' ? r : r + describe(*pk); }
static string list(const std::list<string>& l) { string o; for (auto& x : l) o += "<" + x + ">"; return o; }
static const vector<Op>& parsers() {
    static vector<Op> v;
    if (!v.empty()) return v;
    auto add = [&](const string& n, std::function<string()> f) { v.push_back({n, f}); };
    add("message", [] { return parse_message("A: b\r\n c\r\nD: e\r\n\r\nbody"); });
    add("message without body", [] { return parse_message("A: b\r\nX"); });
    add("message left half parsed", [] { return parse_partly("P: q\r\nR: s\r\n t\r\n", 2); });
    add("tags", [] { return parse_tags("a=b; c=d e;"); });
    add("bad tags", [] { return parse_tags("a=b; x=y; a=c"); });
    add("signature", [] { return parse_sig("DKIM-Signature: v=1; a=ed25519-sha256; c=relaxed/relaxed; d=Example.com; s=sel; i=u@x.example.com; h=from:to; l=12; bh=YWJj; b=ZGVm"); });
    add("arc signature", [] { return parse_sig("ARC-Message-Signature: i=3; a=rsa-sha1; d=a.b; s=x; h=from; bh=YQ==; b=YQ=="); });
    add("minimal signature", [] { return parse_sig("DKIM-Signature: v=1; a=rsa-sha256; d=a; s=b; h=from; bh=YQ==; b=YQ=="); });
    add("signature with l= out of range", [] { return parse_sig("DKIM-Signature: v=1; a=rsa-sha256; c=relaxed/relaxed; d=q; s=b; h=from:x; l=99999999999999999999999999; bh=YQ==; b=YQ=="); });
    add("expired signature", [] { return parse_sig("DKIM-Signature: v=1; a=rsa-sha1; c=relaxed; d=q; s=b; h=from:x; x=1; bh=YQ==; b=YQ=="); });
    add("rsa key", [] { return parse_key("v=DKIM1; h=sha1; t=y; p=" + cfg::key(3).pub64); });
    add("ed25519 key", [] { return parse_key("k=ed25519; t=s; s=email; p=" + cfg::key(2).pub64); });
    add("bad key", [] { return parse_key("h=sha256; t=y:s; s=*; k=rsa; p=AAAA"); });
    add("plain rsa key", [] { return parse_key("p=" + cfg::key(5).pub64); });
    add("canonicalization", [] { return outcome([] { ch->SetType(DKIM::DKIM_C_RELAXED); string a = ch->FilterHeader("A : b \r\n c"); ch->SetType(DKIM::DKIM_C_SIMPLE); return a + "|" + ch->FilterHeader("A : b \r\n c"); }); });
    add("bad canonicalization", [] { ch->SetType(DKIM::DKIM_C_RELAXED); string r = outcome([] { return ch->FilterHeader("A: \r b"); }); ch->SetType(DKIM::DKIM_C_SIMPLE); return r; });
    add("addresses", [] { return outcome([] { return list(DKIM::Tokenizer::ParseAddressList("a@b, \"x y\" <c@d>; (z) e@f")); }); });
    add("bad addresses", [] { return outcome([] { return list(DKIM::Tokenizer::ParseAddressList("a@b, \"x y")); }); });
    add("values", [] { return outcome([] { return list(DKIM::Tokenizer::ValueList("a : b:c")) ; }); });
    add("bad values", [] { return outcome([] { return list(DKIM::Tokenizer::ValueList("a::c")); }); });
    add("encoded word", [] { return outcome([] { return DKIM::Conversion::EncodedWord::Decode("a =?utf-8?Q?b=20c?= =?x?B?ZGU=?= f"); }); });
    add("bad quoted-printable", [] { return outcome([] { return DKIM::Conversion::QuotedPrintable::Decode("a=2"); }); });
    add("quoted-printable", [] { return outcome([] { return DKIM::Conversion::QuotedPrintable::Decode("a=3D") + DKIM::Conversion::QuotedPrintable::Encode("a;b c"); }); });
    add("base64", [] { return outcome([] { return DKIM::Conversion::Base64_Decode("YWJjZA==") + DKIM::Conversion::Base64_Encode("xyz"); }); });
    add("bad private key", [] { return outcome([] { DKIM::SignatoryOptions o; o.SetSignatureAlgorithm(DKIM::DKIM_SA_RSA); o.SetPrivateKey("junk"); return string("set"); }); });
    add("good private key", [] { return outcome([] { DKIM::SignatoryOptions o; o.SetPrivateKey(cfg::keytext(3)); return string(o.GetRSAPrivateKey() ? "set" : "none"); }); });
    return v;
}
struct Objects { DKIM::TagList a; DKIM::Message b; DKIM::Signature c; DKIM::PublicKey d; DKIM::Conversion::CanonicalizationHeader e{DKIM::DKIM_C_SIMPLE}; Objects() { tl = &a; msg = &b; sg = &c; pk = &d; ch = &e; } };
static const string& parsed_alone(size_t i) {
    static std::map<size_t, string> m;
    if (m.empty()) { lib::K(); for (size_t j = 0; j < parsers().size(); j++) m[j] = fresh([&] { clean(); Objects o; return parsers()[j].run(); }); }
    return m.at(i);
}
// the operations of all kinds by number: signing, then verifying DKIM, ARC, then parsers
static string cross_name(int x) { return x >= (NS + 18) ? parsers()[(size_t)x - (NS + 18)].name : x >= NS ? fmt("verify %s %d", x - NS >= 9 ? "ARC" : "DKIM", (x - NS) % 9) : fmt("sign message %d with %d", x / NC, x % NC); }
static string cross(int x) {
    if (x >= (NS + 18)) { Objects o; return parsers()[(size_t)x - (NS + 18)].run(); }
    if (x >= NS) { bool arc = x - NS >= 9; std::istringstream in(box(arc).msg); DKIM::Validatory v(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM); lib::set_dns(v, dns); DKIM::Signature s; DKIM::PublicKey p; return verify_one(v, (size_t)(x - NS) % 9, s, p); }
    DKIM::SignatoryOptions o; cfg::apply(configs()[(size_t)x % NC], o); std::istringstream in(messages()[(size_t)x / NC]); DKIM::Signatory s(in); return sign_with(s, o);
}
static const string& cross_alone(int x) { if (x >= (NS + 18)) return parsed_alone((size_t)x - (NS + 18)); if (x >= NS) return alone(x - NS >= 9, (size_t)(x - NS) % 9, 3); return signed_alone((size_t)x / NC, (size_t)x % NC); }
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "verifier"; int n = th ? 5 : 3;
      p.what = "every sequence of " + std::to_string(n) + " verifications (complete or stopping after the signature or the key) of a message with nine signatures of different fates, in DKIM and ARC mode, with a stale errno and OpenSSL error queue before any of them and shared (reset) or new signature and key objects";
      p.body = [n](Ctx& c) {
          bool arc = c.choose(2), share = c.choose(2); size_t N = box(arc).n; vector<size_t> seq; vector<int> upto, noise;
          for (int k = 0; k < n; k++) { seq.push_back((size_t)c.choose((int)N)); upto.push_back(3 - c.deviate(3)); noise.push_back(c.deviate(2)); }
          vector<string> want; for (int k = 0; k < n; k++) want.push_back(alone(arc, seq[(size_t)k], upto[(size_t)k])); // before, so that fresh objects are fresh
          clean(); std::istringstream in(box(arc).msg); DKIM::Validatory v(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM); lib::set_dns(v, dns); DKIM::Signature ss; DKIM::PublicKey pp; string h;
          c.require(v.GetSignatures().size() == N, "count", "wrong number of signatures");
          for (int k = 0; k < n; k++) {
              if (noise[(size_t)k]) dirty();
              DKIM::Signature s1; DKIM::PublicKey p1; if (share) { ss.Reset(); pp.Reset(); }
              string got = verify_one(v, seq[(size_t)k], share ? ss : s1, share ? pp : p1, upto[(size_t)k]); c.transition(); c.validated();
              h += fmt("%zu.%d%s ", seq[(size_t)k], upto[(size_t)k], noise[(size_t)k] ? "!" : ""); c.state(h + fmt("%d%d", arc, share)); c.note(h);
              c.eq(got, want[(size_t)k], "verify", "verification after history " + h + (share ? "shared objects" : "new objects")); c.outcome(got.substr(0, 40)); }
          c.sample("verify " + h); };
      p.bound = th ? 2 : 2; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "signer"; int n = th ? 5 : 4;
      p.what = "every sequence of " + std::to_string(n) + " CreateSignature calls with 7 configurations (three of them refused) on one signer object, for 4 messages, with reused or new option objects and stale error states";
      p.body = [n](Ctx& c) {
          size_t m = (size_t)c.choose((int)messages().size()), N = 7; int share = c.choose(2); vector<size_t> seq; vector<int> noise; for (int k = 0; k < n; k++) { seq.push_back((size_t)c.choose((int)N)); noise.push_back(c.deviate(2)); }
          vector<string> want; for (size_t k : seq) want.push_back(signed_alone(m, k));
          clean(); std::istringstream in(messages()[m]); DKIM::Signatory s(in); std::map<size_t, std::shared_ptr<DKIM::SignatoryOptions>> opts; string h;
          for (size_t k = 0; k < seq.size(); k++) { if (noise[k]) dirty(); std::shared_ptr<DKIM::SignatoryOptions> o; if (share) o = opts[seq[k]]; if (!o) { o = std::make_shared<DKIM::SignatoryOptions>(); cfg::apply(configs()[seq[k]], *o); if (share) opts[seq[k]] = o; }
              string got = sign_with(s, *o); c.transition(); c.validated(); h += fmt("%zu%s ", seq[k], noise[k] ? "!" : ""); c.state(fmt("%zu %d ", m, share) + h); c.note(h); c.eq(got, want[k], "sign", "signing after history " + h + " of " + show(messages()[m])); c.outcome(got.substr(0, 60)); }
          c.sample("sign " + h); };
      p.bound = 1; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "signer-all"; int n = th ? 4 : 3; p.what = "every sequence of " + std::to_string(n) + " CreateSignature calls with all 11 configurations (expiry with and without timestamp, identities, domains, header lists among them; four refused) on one signer object or on a new one each time, for 4 messages";
      p.body = [n](Ctx& c) {
          size_t m = (size_t)c.choose((int)messages().size()); int anew = c.choose(2); signed_alone(m, 0); clean(); std::istringstream in(messages()[m]); DKIM::Signatory s(in); string h;
          for (int k = 0; k < n; k++) { size_t x = (size_t)c.choose(NC); DKIM::SignatoryOptions o; cfg::apply(configs()[x], o); std::istringstream in2(messages()[m]); DKIM::Signatory s2(in2); string got = sign_with(anew ? s2 : s, o); c.transition(); c.validated(); h += fmt("%zu ", x); c.state(fmt("%zu %d ", m, anew) + h); c.note(h); c.eq(got, signed_alone(m, x), "sign", "signing after history " + h + " of " + show(messages()[m])); c.outcome(got.substr(0, 60)); }
          c.sample("sign " + h); };
      p.split = 2; out.push_back(p); }
    { Phase p; p.name = "parsers"; int n = th ? 4 : 3; p.what = "every sequence of " + std::to_string(n) + " of 26 parser, codec, key and canonicalization calls (9 failing ones among them) on one set of objects that is reset before each call, with stale error states";
      p.body = [n](Ctx& c) {
          vector<size_t> seq; vector<int> noise; for (int k = 0; k < n; k++) { seq.push_back((size_t)c.choose((int)parsers().size())); noise.push_back(c.deviate(2)); }
          vector<string> want; for (size_t k : seq) want.push_back(parsed_alone(k));
          clean(); Objects o; string h; for (size_t k = 0; k < seq.size(); k++) { if (noise[k]) dirty(); string got = parsers()[seq[k]].run(); c.transition(); c.validated(); h += parsers()[seq[k]].name + (noise[k] ? "! " : ", "); c.state(h); c.note(h); c.eq(got, want[k], "parse", "result of the last of " + h); c.outcome(got.substr(0, 60)); }
          c.sample(h); };
      p.bound = th ? 2 : 1; p.split = 2; out.push_back(p); }
    // everything the library can be asked for, in one process, on objects of its own: no state outlives them
    { Phase p; p.name = "cross"; int n = th ? 3 : 2; p.what = "every sequence of " + std::to_string(n) + " operations of different kinds, each with new objects: signing (11 configurations x 4 messages), verifying (9 DKIM and 9 ARC signatures), parsing and coding (26), with stale error states";
      p.body = [n](Ctx& c) { vector<int> seq, noise; for (int k = 0; k < n; k++) { seq.push_back(c.choose(NX)); noise.push_back(c.deviate(2)); } cross_alone(0); cross_alone(NS + 2); cross_alone(NS + 22); string h; for (size_t k = 0; k < seq.size(); k++) { if (noise[k]) dirty(); else clean(); string got = cross(seq[k]); h += cross_name(seq[k]) + (noise[k] ? "! " : ", "); c.transition(); c.validated(); c.state(h); c.note(h); c.eq(got, cross_alone(seq[k]), "cross", "result of the last of " + h); c.outcome(got.substr(0, 40)); } c.sample(h); }; p.bound = 1; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "many-uses"; p.what = string("each of the 88 operations repeated ") + (th ? "70000 (parsers) or 3000" : "1100 (parsers) or 300") + " times on the same objects (reset where that is the contract) and then another: the same result every time";
      p.body = [th](Ctx& c) { int x = c.choose(NX), y = c.choose(3); static const int Y[] = {0, NS + 2, NS + 20}; string h = cross_name(x) + fmt(" many times then %d", Y[y]); c.state(h); c.note(h); cross_alone(0); cross_alone(NS + 2); cross_alone(NS + 22); int n = x >= (NS + 18) ? (th ? 70000 : 1100) : th ? 3000 : 300; clean();
          if (x >= (NS + 18)) { size_t k = (size_t)x - (NS + 18); const string want = parsed_alone(k); Objects o; for (int i = 0; i < n; i++) { string got = parsers()[k].run(); if (got != want) c.eq(got, want, "repeated", fmt("repetition %d of ", i) + h); } }
          else if (x >= NS) { size_t k = (size_t)(x - NS) % 9; bool arc = x - NS >= 9; const string want = alone(arc, k, 3); std::istringstream in(box(arc).msg); DKIM::Validatory v(in, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM); lib::set_dns(v, dns); DKIM::Signature s; DKIM::PublicKey pp; for (int i = 0; i < n; i++) { s.Reset(); pp.Reset(); string got = verify_one(v, k, s, pp); if (got != want) c.eq(got, want, "repeated", fmt("repetition %d of ", i) + h); } }
          else { size_t m = (size_t)x / NC, k = (size_t)x % NC; const string want = signed_alone(m, k); DKIM::SignatoryOptions o; cfg::apply(configs()[k], o); std::istringstream in(messages()[m]); DKIM::Signatory s(in); for (int i = 0; i < n; i++) { string got = sign_with(s, o); if (got != want) c.eq(got, want, "repeated", fmt("repetition %d of ", i) + h); } }
          c.eq(cross(Y[y]), cross_alone(Y[y]), "repeated", h); c.transition((uint64_t)n + 1); c.validated((uint64_t)n + 1); c.outcome(h); c.sample(h); }; p.split = 1; p.exec_limit_s = 100; out.push_back(p); }
}
