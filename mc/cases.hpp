// A family of operations that touches every entry point of the library, each a function from nothing to a text that
// describes everything observable about its outcome.  Shared by the checks that vary what surrounds an operation.
#pragma once
#include "cfg.hpp"
#include <cerrno>
#include <netdb.h>
#include <Resolver.hpp>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
using std::string;
using std::vector;

// ---- the caller's stream
static std::function<void(std::istream&)> tweak; [[maybe_unused]] static std::function<void()> drop;
struct In { std::istringstream s; In(const string& t) : s(t) { if (tweak) tweak(s); } operator std::istream&() { return s; } };

// ---- observations
static string describe(const DKIM::Signature& s) {
    string o = fmt("%d %d %d %d %lu %d %d %lu ", s.GetDigestAlgorithm(), s.GetSignatureAlgorithm(), s.GetCanonModeHeader(), s.GetCanonModeBody(), s.GetBodySize(), s.GetBodySizeLimit(), s.IsARC(), s.GetARCInstance()) + fmt("q%d ", (int)s.GetQueryType()) + s.GetDomain() + "|" + s.GetSelector() + "|" + s.GetMailLocalPart() + "@" + s.GetMailDomain() + "|" + ref::b64enc(s.GetBodyHash()) + "|" + ref::b64enc(s.GetSignatureData());
    for (auto& h : s.GetSignedHeaders()) o += ":" + h; for (auto i = s.GetTagList().cbegin(); i != s.GetTagList().cend(); ++i) o += ";" + i->first + "=" + i->second.GetValue() + fmt("@%ld", (long)i->second.GetValueOffset()); return o;
}
static string describe(const DKIM::PublicKey& k) {
    string o = fmt("%d %d ", k.GetSignatureAlgorithm(), k.SoftFail()) + ref::b64enc(k.GetED25519PublicKey()); for (auto d : k.GetDigestAlgorithms()) o += fmt(" d%d", d); for (auto d : k.GetServiceType()) o += fmt(" s%d", d); for (auto& f : k.GetFlags()) o += " " + f;
    if (RSA* r = k.GetRSAPublicKey()) { const BIGNUM* n; RSA_get0_key(r, &n, nullptr, nullptr); char* t = BN_bn2hex(n); if (!t) throw std::bad_alloc(); std::unique_ptr<char, void (*)(char*)> own(t, [](char* p) { OPENSSL_free(p); }); o += t; } return o;
}
// one observation; an outcome is a sequence of them
static const char END = '\x1e';
template <class F> static string seen(F f) { string r, what; string cls = lib::classify([&] { r = f(); }, &what); return (cls.empty() ? "= " + r : cls + ": " + what) + END; }
static std::shared_ptr<DKIM::Header> header(const string& raw) { std::istringstream in(raw + "\r\n\r\n"); DKIM::Message p; while (p.ParseLine(in) && !p.IsDone()) {} return p.GetHeaders().empty() ? nullptr : p.GetHeaders().front(); }
static string verify(const string& msg, const lib::Dns& d, DKIM::Validatory::ValidatorType t) {
    In in(msg); DKIM::Validatory v(in, t); lib::set_dns(v, d); string o;
    for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) { DKIM::Signature s; DKIM::PublicKey p; o += seen([&] { v.GetSignature(i, s); v.GetPublicKey(s, p); v.CheckSignature(i, s, p); return string("pass"); }) + "[" + describe(s) + "] [" + describe(p) + "]" + END; } return o;
}
static string sign(const string& msg, const cfg::Cfg& g) { return seen([&] { DKIM::SignatoryOptions o; cfg::apply(g, o); In in(msg); DKIM::Signatory s(in); return s.CreateSignature(o); }); }
static string split(const string& msg) { return seen([&] { In in(msg); DKIM::Message m; string o; while (m.ParseLine(in) && !m.IsDone()) {} for (auto& h : m.GetHeaders()) o += show(h->GetName(), 3000) + fmt("@%zu", h->GetValueOffset()) + show(h->GetHeader(), 3000); return o + fmt(" body %ld", (long)m.GetBodyOffset()); }); }
static string body(const string& b, bool rl, bool lim, size_t n) { return seen([&] { In in(b); string o; bool r = DKIM::Conversion::CanonicalizationBody(in, rl ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, 0, lim, n, [&](const char* p, size_t k) { o.append(p, k); }); return o + (r ? "+" : "-"); }); }
static string fields(const string& f) { string o; for (bool rl : {false, true}) o += seen([&] { DKIM::Conversion::CanonicalizationHeader h(rl ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE); return h.FilterHeader(f); }); return o; }

struct Case { string name; std::function<string()> run; bool stream = false; };
static const string ALL = "From: Joe <joe@EXAMPLE.com>\r\nMIME-Version: 1.0\r\nSubject: I \xc4\xb0 \xfd\xdd\xe9 \xa0 x\r\nIn-Reply-To: <I>\r\nLIST-ID: i\r\nList-Unsubscribe: I\r\nABCDEFGHIJKLMNOPQRSTUVWXYZ: abcdefghijklmnopqrstuvwxyz\r\nabcdefghijklmnopqrstuvwxyz: ABCDEFGHIJKLMNOPQRSTUVWXYZ\r\nX-\xc9\xe9\xfd\xdd\xd0: 1\r\n\r\nBody I \x85\xa0 \t text \r\n\r\n\r\n";
static const vector<Case>& cases() {
    static vector<Case> v; if (!v.empty()) return v; env::clock_now = 1700000000;
    auto add = [&](const string& n, std::function<string()> f, bool s = false) { v.push_back({n, f, s}); };
    // signing
    for (int i = 0; i < 12; i++) { cfg::Cfg g; g.sigs[0].key = i & 1 ? 3 : 2; g.sigs[0].domain = "MAIL.ID.Example.INFO"; g.sigs[0].selector = "SelectorI"; g.rh = i & 2; g.rb = i & 4; if (i % 3 == 0) g.hdrmode = 1; if (i % 3 == 1) { g.hdrmode = 2; g.hdr = {"LIST-ID", "In-Reply-To", "Abcdefghijklmnopqrstuvwxyz", "X-\xc9\xe9\xfd\xdd\xd0"}; g.over = {"FROM", "MIME-VERSION", "LIST-id"}; } if (i % 3 == 2) { g.hdrmode = 3; g.hdr = {"Subject", "mime-version", "DATE"}; } if (i & 4) { g.hasl = true; g.l = 10; g.hast = true; g.t = 1699999999; g.hasx = true; g.xabs = i & 1; g.x = 1800000000; g.ident = "I\xc9 i@Sub.MAIL.ID.example.info"; } if (i == 8) g.arc = 12; if (i == 9) { cfg::Sig q; q.key = 2; q.domain = "Mail.id.example.INFO"; q.selector = "i"; g.sigs.push_back(q); } add(fmt("sign with configuration %d", i), [g] { return sign(ALL, g); }, true); }
    for (unsigned long n : {0UL, 1UL, 999UL, 1000UL, 4321UL, 1234567UL}) for (bool arc : {false, true}) { cfg::Cfg g; g.sigs[0].key = 2; g.hasl = true; g.l = n; g.arc = arc ? 50 : 0; string m = "From: a\r\n\r\n"; while (m.size() < n + 100) m += "Line of text I \t i\r\n"; add(fmt("sign %lu octets of a body%s", n, arc ? " (ARC)" : ""), [m, g] { return sign(m, g); }, n < 5000); }
    // verification of signatures made elsewhere
    { static const vector<string> H = {"from:mime-version:subject:list-id:in-reply-to", "FROM:MIME-VERSION:SUBJECT:LIST-ID:IN-REPLY-TO:ABCDEFGHIJKLMNOPQRSTUVWXYZ:abcdefghijklmnopqrstuvwxyz", "From:MiMe-VeRsIoN:lIsT-iD:list-ID:LIST-UNSUBSCRIBE"}; static const vector<string> N = {"DKIM-Signature", "DKIM-SIGNATURE", "dkim-signature", "ARC-Message-Signature", "ARC-MESSAGE-SIGNATURE"};
      for (auto& h : H) for (auto& n : N) for (int i = 0; i < 4; i++) { bool arc = n[0] == 'A'; string val = string(arc ? " i=7;" : " v=1;") + (i & 1 ? " a=rsa-sha256;" : " a=ed25519-sha256;") + " c=" + (i & 2 ? "relaxed/relaxed" : "simple/simple") + "; d=MAIL.ID.Example.INFO; s=SELI;" + (arc ? "" : " i=I@SUB.Mail.Id.eXAMPLE.iNFO;") + " t=1600000000; x=1800000000; l=12; h=" + h + "; bh=@BH@; b=@B@"; string f = ref::make_sig(ALL, n, val, cfg::key(i & 1 ? 3 : 2), "", "", env::clock_now, 20, "\r\n\t "); if (f.compare(0, 5, "ERROR") == 0) { fprintf(stderr, "harness: %s\n", f.c_str()); _exit(2); } string rec = (i & 1 ? "v=DKIM1; h=sha1:sha256; s=email; t=y; p=" : "v=DKIM1; k=ed25519; t=s:y; n=I; p=") + cfg::key(i & 1 ? 3 : 2).pub64; auto d = [rec](const string& q, string& o) { o = q == "SELI._domainkey.mail.id.example.info" ? rec : "query " + q; return true; }; auto t = arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM; string m = f + "\r\n" + ALL; add("verify " + n + fmt(" %d h=", i) + h, [m, d, t] { return verify(m, d, t); }, true); if (i == 1) { string w = m; w.replace(w.find("In-Reply-To: <I>"), 16, "In-Reply-To: <i>"); add("verify altered " + n + " h=" + h, [w, d, t] { return verify(w, d, t); }, true); } } }
    for (long o : {-90000L, -50401L, -46801L, -43199L, -3601L, -1L, 0L, 1L, 3599L, 43201L, 46799L, 50399L, 90000L}) { string rec = "v=DKIM1; k=ed25519; p=" + cfg::key(2).pub64; auto d = [rec](const string&, string& o) { o = rec; return true; }; string m = ref::make_sig(ALL, "DKIM-Signature", fmt(" v=1; a=ed25519-sha256; c=relaxed/relaxed; d=x.y; s=z; h=from; t=%ld; x=%ld; bh=@BH@; b=@B@", 1690000000 + o, 1700000000 + o), cfg::key(2), "", "", env::clock_now, 20, "") + "\r\n" + ALL; add(fmt("verify expiring in %ld s", o), [m, d] { return verify(m, d, DKIM::Validatory::DKIM); }, true); for (int k = 0; k < 3; k++) { cfg::Cfg g; g.sigs[0].key = 2; g.hast = k != 1; g.t = k ? -1 : 1700000000 + o; g.hasx = true; g.xabs = false; g.x = 100000 + o; add(fmt("sign expiring in %ld s, timestamp %d", 100000 + o, k), [g] { return sign(ALL, g); }, true); } }
    { string h("\x12\x34\x81\x80\0\1\0\1\0\0\0\0", 12), q("\1I\1x\0\0\x10\0\1", 9), t("\xc0\x0c\0\x10\0\1\0\0\0\x3c\0\7\3v=D\2I1", 19); vector<string> P = {h + q + t, h.substr(0, 3), h + q.substr(0, 4), h + q + t.substr(0, 14), h + q, h, ""}; { string b = h; b[7] = 3; P.push_back(b + q + t); b[5] = 3; P.push_back(b + q + t); }
      for (size_t k = 0; k < P.size() + 2; k++) add(fmt("lookup with answer %zu", k), [k, P] { return seen([&] { env::dns = env::Dns(); if (k < P.size()) env::dns.packet = P[k]; else { env::dns.fail = true; env::dns.herr = k == P.size() ? TRY_AGAIN : HOST_NOT_FOUND; } string r; DKIM::Util::Resolver v; bool ok = v.GetTXT("I.x", r); return fmt("%d ", ok) + show(r, 3000); }); }); }
    add("split", [] { return split(ALL); }, true); add("split LF", [] { string m; for (char x : ALL) if (x != '\r') m += x; return split(m); }, true); for (bool rl : {false, true}) for (size_t n : {0, 7, 99}) add(fmt("body %d %zu", rl, n), [rl, n] { return body("Body I \x85\xa0 \t text \r\n\r\nx\n \r\n\r\n", rl, n, n == 99 ? 1000000 : n); }, true);
    // keys that are wrong, or of another kind, or fail to load; keys loaded several times
    { static const vector<std::pair<string, string>> T = {{"512-bit DER", keys::rsa512_priv}, {"1024-bit PEM", keys::rsa1024_pem}, {"2048-bit PEM", keys::rsa2048_pem}, {"seed", keys::edA_seed}, {"raw seed", ref::unb64(keys::edA_seed)}, {"seed and public half", ref::b64enc(ref::unb64(keys::edA_seed) + ref::unb64(keys::edA_pub))}, {"EC PEM", keys::ec_pem}, {"PSS PEM", keys::pss_pem}, {"DSA PEM", keys::dsa_pem}, {"public key", keys::rsa1024_pub}, {"nothing", ""}, {"no base64", "?"}, {"broken PEM", string(keys::rsa1024_pem).substr(0, 300)}, {"broken DER", string(keys::rsa512_priv).substr(0, 200)}, {"short seed", "QUJD"}};
      for (auto& t : T) for (int ed = 0; ed < 2; ed++) for (int ad = 0; ad < 2; ad++) { string k = t.second; auto one = [k, ed, ad](DKIM::SignatoryOptions& o, DKIM::AdditionalSignaturesOptions* a) { return seen([&] { auto alg = ed ? DKIM::DKIM_SA_ED25519 : DKIM::DKIM_SA_RSA; if (ad) { a->SetSignatureAlgorithm(alg).SetPrivateKey(k); return fmt("%d ", a->GetRSAPrivateKey() ? RSA_size(a->GetRSAPrivateKey()) : 0) + ref::b64enc(a->GetED25519PrivateKey()); } o.SetSignatureAlgorithm(alg).SetPrivateKey(k); return fmt("%d ", o.GetRSAPrivateKey() ? RSA_size(o.GetRSAPrivateKey()) : 0) + ref::b64enc(o.GetED25519PrivateKey()); }); };
        add(string("load ") + t.first + (ed ? " as ed25519" : " as RSA") + (ad ? " for an additional signature" : ""), [one, ad] { DKIM::SignatoryOptions o; auto a = ad ? &o.AddAdditionalSignature() : nullptr; return one(o, a); }); if (!ed || !ad) add(string("load another key, ") + t.first + (ed ? " as ed25519" : " as RSA") + (ad ? " for an additional signature" : "") + ", and another again", [one, ad] { DKIM::SignatoryOptions o; auto a = ad ? &o.AddAdditionalSignature() : nullptr; if (a) a->SetPrivateKey(keys::rsa512_priv); else o.SetPrivateKey(keys::rsa512_priv); string r = one(o, a); o.SetSignatureAlgorithm(DKIM::DKIM_SA_RSA); if (a) a->SetSignatureAlgorithm(DKIM::DKIM_SA_RSA).SetPrivateKey(keys::rsa512_priv); else o.SetPrivateKey(keys::rsa512_priv); return r; }); }
      static const vector<string> R = {string("p=") + keys::rsa1024_pub, string("k=ed25519; p=") + keys::edA_pub, string("p=") + keys::ec_pub, string("p=") + keys::dsa_pub, string("k=ed25519; p=") + keys::rsa512_pub, "p=", "k=ed25519; p=", "p=QUJD", "v=DKIM2; p=QUJD", "k=dsa; p=QUJD", string("h=md5; p=") + keys::rsa512_pub, string("s=web; p=") + keys::rsa512_pub, string("s=; p=") + keys::rsa512_pub, string("h=; p=") + keys::rsa512_pub, string("t=a::b; p=") + keys::rsa512_pub, "p", "", "p=a; p=b", string("p=") + string(keys::rsa512_pub).substr(0, 60)};
      for (size_t i = 0; i < R.size(); i++) { string r = R[i]; add(fmt("key record form %zu", i), [r] { return seen([&] { DKIM::PublicKey k; k.Parse(r); return describe(k); }); }); add(fmt("key record form %zu, reset, a good record", i), [r] { DKIM::PublicKey k; string o = seen([&] { k.Parse(r); return describe(k); }); k.Reset(); return o + seen([&] { k.Parse(string("t=y; h=sha256; p=") + keys::rsa512_pub); return describe(k); }); }); add(fmt("signature with key record form %zu", i), [r] { static const string m = ref::make_sig(ALL, "DKIM-Signature", " v=1; a=rsa-sha256; c=relaxed/relaxed; d=x.y; s=z; h=from; bh=@BH@; b=@B@", cfg::key(3), "", "", env::clock_now, 20, "") + "\r\n" + ALL; return verify(m, lib::fixed(r), DKIM::Validatory::DKIM); }); } }
    // verifications refused in every way
    for (int key : {2, 3}) { static const char* const W[] = {"nothing", "body altered", "body longer", "body missing", "field altered", "field added", "signature altered", "signature short", "other key", "key of the other kind", "digest not allowed", "identity in a sub-domain", "resolver fails", "no record", "resolver throws", "stream ends early", "two signatures, the first wrong", "two signatures, the second wrong", "test key, field altered", "no signature"};
      for (int w = 0; w < 20; w++) { const auto& K = cfg::key(key); string alg = key == 2 ? "ed25519" : "rsa"; string f = ref::make_sig(ALL, "DKIM-Signature", " v=1; a=" + alg + "-sha256; c=relaxed/relaxed; d=long.domain.example; s=selector; i=joe@sub.long.domain.example; h=from:subject:subject:to; bh=@BH@; b=@B@", K, "", "", env::clock_now, 20, "\r\n\t") + "\r\n", m = f + ALL, rec = (key == 2 ? "k=ed25519; p=" : "p=") + string(K.pub64); if (w == 1 || w == 16) m.replace(m.rfind("Body"), 4, "body"); if (w == 2) m += "x\r\n"; if (w == 3) m.resize(m.find("\r\n\r\n")); if (w == 4 || w == 18) m.replace(m.find("Joe"), 3, "Jim"); if (w == 5) m.insert(f.size(), "Subject: more\r\n"); size_t b = m.find("b=", m.find("bh=") + 3) + 2; if (w == 6) m[b + 9] = m[b + 9] == 'A' ? 'B' : 'A'; if (w == 7) m.erase(b, 8); if (w == 8) rec = key == 2 ? string("k=ed25519; p=") + keys::edB_pub : string("p=") + keys::rsa512_pub; if (w == 9) rec = key == 3 ? string("k=ed25519; p=") + keys::edB_pub : string("p=") + keys::rsa512_pub; if (w == 10) rec = "h=sha1; " + rec; if (w == 11) rec = "t=s; " + rec; if (w == 13) rec = ""; if (w == 15) m.resize(m.size() - 40); if (w == 16) m = f + m; if (w == 17) m = f + "DKIM-Signature: v=1; a=rsa-sha256; c=relaxed/relaxed; d=long.domain.example; s=x; h=from; bh=QUJD; b=QUJD\r\n" + ALL; if (w == 18) rec = "t=y; " + rec; if (w == 19) m = ALL;
        add("verify, " + alg + ", " + W[w], [m, rec, w] { return verify(m, [rec, w](const string&, string& o) { if (w == 14) throw DKIM::PermanentError("the resolver of the caller gives up"); o = rec; return w != 12; }, DKIM::Validatory::DKIM); }, true); } }
    // refused configurations, and the library's own resolver
    for (int i = 0; i < 12; i++) { cfg::Cfg g; g.sigs[0].key = 3; cfg::Sig q; q.key = 2; q.selector = "two"; if (i < 9) g.sigs.push_back(q); if (i == 0) g.sigs[1].key = 0; if (i == 1) g.sha1 = true; if (i == 2) { g.hasl = true; g.l = 99999; } if (i == 3) { g.hdrmode = 1; g.hdr = {"subject"}; } if (i == 4) g.ident = "nowhere"; if (i == 5) g.ident = "a@other.example"; if (i == 6) g.arc = 51; if (i == 7) g.sigs[1].domain = "bad domain"; if (i == 8) g.over = {"bad name"}; if (i == 9) g.sigs[0].key = 0; if (i == 10) g.sigs[0].selector = ""; if (i == 11) { g.rh = true; } add(fmt("refused configuration %d", i), [g, i] { string m = ALL; if (i == 11) m.insert(8, "\r x"); return sign(m, g); }, true); }
    for (int i = 0; i < 6; i++) add(fmt("verify with the library's resolver, %d", i), [i] { static const string m = ref::make_sig(ALL, "DKIM-Signature", " v=1; a=ed25519-sha256; d=x.y; s=z; h=from; bh=@BH@; b=@B@", cfg::key(2), "", "", env::clock_now, 20, "") + "\r\n" + ALL; env::dns = env::Dns(); string rec = string("k=ed25519; p=") + keys::edA_pub; env::dns.packet = string("\x12\x34\x81\x80\0\1\0\1\0\0\0\0", 12) + string("\1z\x0a_domainkey\1x\1y\0\0\x10\0\1", 22) + string("\xc0\x0c\0\x10\0\1\0\0\0\x3c\0", 11) + (char)(rec.size() + 1) + (char)rec.size() + rec; if (i == 1) env::dns.packet.resize(50); if (i == 2) env::dns.packet.resize(30); if (i > 2) { env::dns.fail = true; env::dns.herr = i == 3 ? TRY_AGAIN : i == 4 ? HOST_NOT_FOUND : NO_RECOVERY; } In in(m); DKIM::Validatory v(in); string o; for (auto s = v.GetSignatures().begin(); s != v.GetSignatures().end(); ++s) o += seen([&] { DKIM::Signature sg; DKIM::PublicKey pk; v.GetSignature(s, sg); v.GetPublicKey(sg, pk); v.CheckSignature(s, sg, pk); return string("pass"); }); return o; }, true);
    // parsers, refused in every way, and objects reset and used again
    { static const vector<string> S = {"v=1; a=rsa-sha256; d=x.y; s=z; h=from; bh=QUJD; b=QUJD", "v=2; a=rsa-sha256", "v=1; a=rsa-md5", "v=1", "", "a=b; a=c", "v=1; a=rsa-sha256; d=x.y; s=z; h=to; bh=QUJD; b=QUJD", "v=1; a=rsa-sha256; d=x.y; s=z; h=from; bh=; b=QUJD", "v=1; a=rsa-sha256; d=x.y; s=z; h=from; l=9x; bh=QUJD; b=QUJD", "v=1; a=rsa-sha256; d=x.y; s=z; h=from; i=a@b; bh=QUJD; b=QUJD", "v=1; a=rsa-sha256; d=x.y; s=z; h=from; x=1; bh=QUJD; b=QUJD", "v=1; a=rsa-sha256; d=x.y; s=z; h=from; i==4x@x.y; bh=QUJD; b=QUJD", "v=1; a=rsa-sha256; d=x.y; s=z; h=from::; bh=QUJD; b=QUJD", "v=1; a=rsa-sha256; c=a/b; d=x.y; s=z; h=from; bh=QUJD; b=QUJD", "v=1; a=rsa-sha256; d=x.y; s=z; q=other; h=from; bh=QUJD; b=QUJD"};
      for (size_t i = 0; i < S.size(); i++) { string f = "DKIM-Signature: " + S[i]; add(fmt("signature field form %zu", i), [f] { DKIM::Signature s; string o = seen([&] { s.Parse(header(f)); return describe(s); }); s.Reset(); return o + seen([&] { s.Parse(header("DKIM-Signature: v=1; a=ed25519-sha256; c=relaxed; d=q.r; s=t; l=4; i=j@k.q.r; h=to:from; bh=QUJE; b=QUJF")); return describe(s); }); }); }
      static const vector<string> A = {"Joe <a@b>, \"q, r\" (c (d)) <e@f>; \"g h\"@i", "\"unterminated", "(open", "a <b", "\"a@b, c@d\", e@f", "x, <y@z>,,"}; for (size_t i = 0; i < A.size(); i++) { string t = A[i]; add(fmt("address list %zu", i), [t] { return seen([&] { string r; for (auto& a : DKIM::Tokenizer::ParseAddressList(t)) r += a + ","; return r; }); }); }
      add("encoded words", [] { return seen([] { return DKIM::Conversion::EncodedWord::Decode("=?utf-8?Q?a=20longer_text_than_fits_a_short_string?= =?x?B?YSBsb25nZXIgdGV4dCB0aGFuIGZpdHMgYSBzaG9ydCBzdHJpbmc=?= and plain text that is long enough =?x?Q?=4x?= =?q?"); }); }); add("long base64", [] { return seen([] { string t(5000, 'x'); string e = DKIM::Conversion::Base64_Encode(t); return e + DKIM::Conversion::Base64_Decode(e); }); });
      add("signatures reused", [] { static const string m = ref::make_sig(ALL, "DKIM-Signature", " v=1; a=ed25519-sha256; d=x.y; s=z; h=from; bh=@BH@; b=@B@", cfg::key(2), "", "", env::clock_now, 20, "") + "\r\nDKIM-Signature: v=1\r\n" + ALL; string o; In in(m); DKIM::Validatory v(in); lib::set_dns(v, lib::fixed(lib::record(cfg::key(2)))); DKIM::Signature s; DKIM::PublicKey p; for (int k = 0; k < 2; k++) for (auto i = v.GetSignatures().begin(); i != v.GetSignatures().end(); ++i) { s.Reset(); p.Reset(); o += seen([&] { v.GetSignature(i, s); v.GetPublicKey(s, p); v.CheckSignature(i, s, p); return string("pass"); }); } return o; }, true); }
    // every octet where octets are classified, compared or converted
    for (int o = 1; o < 256; o++) { if (o == '\n' || o == '\r') continue; string x(1, (char)o); auto oct = [&](const char* n, std::function<string()> f) { add(string(n) + fmt(" with octet %02x", o), f); };
        oct("field", [x] { return fields("X" + x + "I: v" + x + " " + x + x + "\r\n\t" + x + "w"); }); oct("message", [x] { return split(x + "From" + x + ": a" + x + "\r\n" + x + "b\r\nI" + x + "\r\n\r\n" + x); }); oct("tag list", [x] { return seen([&] { DKIM::TagList t; t.Parse("a=1; b" + x + "=2" + x + "3; c=" + x + "4"); string r; for (auto i = t.cbegin(); i != t.cend(); ++i) r += i->first + "=" + i->second.GetValue() + fmt("@%ld;", (long)i->second.GetValueOffset()); return r; }); });
        for (int w = 0; w < 6; w++) oct(fmt("signature field %d", w).c_str(), [x, w] { return seen([&] { auto at = [&](int k) { return w == k ? x : string(); }; DKIM::Signature s; s.Parse(header("DKIM-SIGNATURE: v=1; a=rsa-sha256; c=relaxed/simple; d=ex" + at(0) + "ampleI.com; s=s" + at(1) + "el; h=from:I" + at(2) + "x; i=j" + at(3) + "=49@I" + at(0) + ".ex" + at(0) + "amplei.com; bh=QU" + at(4) + "JDRA==; b=QU" + at(5) + "JDRA==; x=1800000000; l=12")); return describe(s); }); });
        for (int w = 0; w < 3; w++) oct(fmt("key record %d", w).c_str(), [x, w] { return seen([&] { DKIM::PublicKey k; string p = cfg::key(2).pub64; if (w == 0) p.insert(10, x); k.Parse("v=DKIM1; k=ed25519; h=sha256" + (w == 1 ? x : string()) + ":sha1; t=y" + (w == 2 ? x : string()) + ":s; p=" + p); return describe(k); }); });
        oct("encoded word", [x] { return seen([&] { return DKIM::Conversion::EncodedWord::Decode("I" + x + "=?UTF-8?q?I=4" + x + "=C9_" + x + "?= =?utf-8?B?SUk=" + x + "?= i"); }); }); oct("addresses", [x] { return seen([&] { string r; for (auto& a : DKIM::Tokenizer::ParseAddressList("I" + x + " <i" + x + "@I.com>, (I" + x + ") j@i" + x + ".com, \"" + x + "\"@x")) r += a + ","; return r; }); }); oct("list", [x] { return seen([&] { string r; for (auto& a : DKIM::Tokenizer::ValueList("I" + x + ":i " + x + ": " + x)) r += a + ","; return r; }); });
        oct("base64", [x] { return seen([&] { return DKIM::Conversion::Base64_Encode(x + "I" + x) + DKIM::Conversion::Base64_Decode("SU" + x + "k="); }); }); for (bool hd : {false, true}) oct(hd ? "quoted-printable text" : "quoted-printable", [x, hd] { return seen([&] { return DKIM::Conversion::QuotedPrintable::Encode("I" + x + "i") + "|" + DKIM::Conversion::QuotedPrintable::Decode("I=4" + x + "=C9" + x, hd); }); });
        oct("domain", [x] { return seen([&] { return fmt("%d %d", DKIM::Util::ValidateDomain(x + "I.com"), DKIM::Util::ValidateDomain("I" + x + "i.com")); }); });
        oct("options", [x] { return seen([&] { DKIM::SignatoryOptions o; o.DelHeaders({"subject", "MIME-" + x + "ersion", "I"}); o.AddHeaders({"X-" + x, "x-" + x, "i"}); o.DelHeaders({"X-" + x, "CONTENT-ID"}); string r; for (auto& h : o.GetHeaders()) r += h + ":"; return r; }); });
        { cfg::Cfg g; g.sigs[0].key = 2; g.rh = true; g.hdrmode = 1; string m = "From: a\r\nI" + x + "X: 1\r\ni" + x + "x: 2\r\n\r\n"; oct("sign all fields", [g, m] { return sign(m, g); }); g.hdr = {"FROM", "I" + x + "X"}; oct("sign a listed field", [g, m] { return sign(m, g); }); } }
    return v;
}
