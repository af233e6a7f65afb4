// C07: l= covers exactly the first n canonical octets, on both sides.
#include "cfg.hpp"
#include "stream.hpp"
#include <openssl/evp.h>
using namespace mc; using std::string; using std::vector;
const char* mc::property_id = "C07";
static void canon(Ctx& c, const string& body, size_t n, bool rl) { // the canonicalizer itself
    std::istringstream in(body); string got; bool ok = DKIM::Conversion::CanonicalizationBody(in, rl ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, 0, true, n, [&](const char* p, size_t k) { got.append(p, k); });
    string full = ref::body_canon(body, rl), want = full.substr(0, n); c.eq(got, want, "canon", fmt("%s canonical form of ", rl ? "relaxed" : "simple") + show(body) + fmt(" limited to %zu", n)); c.require(ok == (full.size() >= n), "reached", fmt("limit %zu of %zu octets reported as %s for ", n, full.size(), ok ? "reached" : "not reached") + show(body)); c.transition(); c.validated();
}
static void both(Ctx& c, const string& body, size_t n, bool rl, int key) {
    string msg = "From: a@b\r\n\r\n" + body, full = ref::body_canon(body, rl); cfg::Cfg g; g.sigs[0].key = key; g.rb = rl; g.hasl = true; g.l = n; string out, what; DKIM::SignatoryOptions o; cfg::apply(g, o); string cls = lib::sign(msg, o, out, &what); c.transition(); c.state(body + fmt("|%zu|%d", n, rl)); c.sample(show(body) + fmt(" l=%zu", n)); string tag = fmt(" for l=%zu, %s body ", n, rl ? "relaxed" : "simple") + show(body);
    canon(c, body, n, rl);
    if (n > full.size()) { c.require(cls == "permerror" && out.empty(), "short", "the body is shorter than the limit, but signing gave " + (cls.empty() ? "a signature" : cls) + tag); c.outcome("refused"); return; }
    c.require(cls.empty(), "refused", "signing was refused: " + what + tag); ref::Sig s; ref::Msg p = ref::split(out + "\r\n" + msg); c.require(ref::parse_sig(p.h[0], env::clock_now, s).empty() && s.hasl && s.l == n, "recorded", "l= is not recorded as configured" + tag); c.eq(s.bh, ref::sha("sha256", full.substr(0, n)), "hash", "body hash" + tag);
    // the verifier: what follows octet n is free, octet n is not
    auto v = [&](const string& b2) { auto r = lib::verify(out + "\r\nFrom: a@b\r\n\r\n" + b2, cfg::dns(g)); c.transition(); return r.size() == 1 ? r[0] : lib::Verdict{"none", "", "", ""}; };
    vector<string> variants = {body, body + "tail", body + "\r\n\r\nmore\r\n", full.substr(0, n), full.substr(0, n) + "x"}; if (n) { string f = full; f[n - 1] = 'z'; variants.push_back(f); f = full.substr(0, n - 1); variants.push_back(f); f = full; f.insert(n - 1, "q"); variants.push_back(f); } if (n < full.size()) { string f = full; f[n] = 'z'; variants.push_back(f); } { string f = full; f.insert(n, "INSERTED"); variants.push_back(f); } variants.push_back("");
    for (auto& b2 : variants) { bool want = ref::body_canon(b2, rl).substr(0, n) == full.substr(0, n); auto r = v(b2); c.require(r.pass() == want, want ? "beyond-matters" : "before-ignored", string(want ? "the first octets are the same but " : "the first octets differ but ") + r.str() + " for body " + show(b2) + tag); if (!want) c.require(r.cls == "fail", "class", r.cls + tag); c.outcome(r.str()); }
    c.validated();
}
static void edges(Ctx& c, const string& body, size_t n, bool rl) { canon(c, body, n, rl); c.state(body + fmt("|%zu|%d", n, rl)); }
#ifdef HUGE_BODIES
// the expected canonical form: `unit` repeated `times`, then `tail`, compared as it arrives
struct Expect {
    string unit, tail, big; size_t times, at = 0; bool same = true;
    Expect(const string& u, size_t n, const string& t) : unit(u), tail(t), times(n) { while (big.size() < (1u << 16)) big += u; }
    size_t size() const { return unit.size() * times + tail.size(); }
    void each(size_t from, size_t n, const std::function<void(const char*, size_t)>& f) const { size_t mid = unit.size() * times; while (n) { const char* p; size_t k; if (from < mid) { size_t o = from % unit.size(); p = big.data() + o; k = std::min(std::min(big.size() - o, mid - from), n); } else { size_t o = from - mid; if (o >= tail.size()) return; p = tail.data() + o; k = std::min(tail.size() - o, n); } f(p, k); from += k; n -= k; } }
    void feed(const char* p, size_t n) { if (at + n > size()) same = false; if (!same) { at += n; return; } each(at, n, [&](const char* q, size_t k) { if (memcmp(p, q, k)) same = false; p += k; }); at += n; }
    string hash(size_t n) const { EVP_MD_CTX* x = EVP_MD_CTX_new(); EVP_DigestInit_ex(x, EVP_sha256(), nullptr); each(0, n, [&](const char* q, size_t k) { EVP_DigestUpdate(x, q, k); }); unsigned char d[32]; unsigned l = 32; EVP_DigestFinal_ex(x, d, &l); EVP_MD_CTX_free(x); return string((char*)d, l); }
};
struct Filling { string unit, cu, tail, ctail; size_t times; };
static Filling filling(int f, bool rl) { // 2^32 octets and a little in either form
    if (f == 0) return {"x", "x", "end", "end\r\n", (size_t)4294967296ul + 17};
    if (f == 1) return {"0123456789 abcdefg\n", "0123456789 abcdefg\r\n", " y\r\n\r\n", " y\r\n", (size_t)4294967296ul / 20 + 1};
    return {"a  \r\n", rl ? "a\r\n" : "a  \r\n", "z", "z\r\n", (size_t)4294967296ul / (rl ? 3 : 5) + 1};
}
void mc::phases(vector<Phase>& out, bool th) {
    static const long L[] = {-1, 2147483647, 2147483649, 4294967295, 4294967297};
    { Phase p; p.name = "beyond-32-bits"; p.what = string("bodies whose canonical form is longer than 2^32 octets, in ") + (th ? "3" : "2") + " fillings, both modes, without a limit and with limits around 2^31, 2^32 and the end: the canonicalizer";
      p.body = [th](Ctx& c) { int f = c.choose(th ? 3 : 2); bool rl = c.choose(2); Filling g = filling(f, rl); Expect x(g.cu, g.times, g.ctail); int w = c.choose(7); long lim = w < 5 ? L[w] : (long)x.size() + (w - 5); if (!th && (w == 1 || w == 3)) return; HugeBuf b("From: a\r\n\r\n", g.unit, g.times, g.tail); std::istream in(&b);
          bool ok = DKIM::Conversion::CanonicalizationBody(in, rl ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, 11, lim >= 0, lim >= 0 ? (size_t)lim : 0, [&](const char* p, size_t n) { x.feed(p, n); }); size_t want = lim >= 0 ? std::min((size_t)lim, x.size()) : x.size(); string how = fmt("filling %d, %s, limit %ld of %zu octets", f, rl ? "relaxed" : "simple", lim, x.size()); c.transition(); c.validated(); c.state(how); c.sample(how);
          c.require(x.same && x.at == want, "huge-body", how + fmt(": %zu octets, %s", x.at, x.same ? "right as far as they go" : "not the canonical form")); c.require(ok == (w < 6), "huge-reached", how + (ok ? ": reported as reached" : ": reported as not reached")); c.outcome(how); }; p.exec_limit_s = 300; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "whole"; p.what = "signing a message of more than 2^32 octets, whole or limited around 2^32, and verifying it; and with one octet changed beyond 2^32";
      p.body = [th](Ctx& c) { int w = c.choose(4); int f = c.choose(th ? 3 : 1); bool rl = w == 1; Filling g = filling(f, rl); Expect x(g.cu, g.times, g.ctail); cfg::Cfg k; k.sigs[0].key = 2; k.rb = rl; long lim = w == 0 || w == 3 ? -1 : w == 1 ? 4294967297 : 4294967295; if (lim >= 0) { k.hasl = true; k.l = (size_t)lim; } string head = "From: a@b\r\n\r\n", o1, what, how = fmt("filling %d, %s, l=%ld", f, rl ? "relaxed" : "simple", lim); DKIM::SignatoryOptions o; cfg::apply(k, o);
          { HugeBuf b(head, g.unit, g.times, g.tail); std::istream in(&b); string cls = lib::classify([&] { DKIM::Signatory s(in); o1 = s.CreateSignature(o); }, &what); c.require(cls.empty(), "huge-sign", how + ": " + what); }
          ref::Sig s; ref::Msg p = ref::split(o1 + "\r\n" + head); c.require(ref::parse_sig(p.h[0], env::clock_now, s).empty() && s.hasl == (lim >= 0) && (lim < 0 || s.l == (size_t)lim), "huge-recorded", how + ": " + show(o1)); c.eq(s.bh, x.hash(lim >= 0 ? (size_t)lim : x.size()), "huge-hash", how); c.transition(); c.validated(); c.state(how); c.sample(how);
          string tail = g.tail; if (w >= 2) tail[0] = tail[0] == 'e' ? 'E' : 'q'; HugeBuf b(o1 + "\r\n" + head, g.unit, g.times, tail); std::istream in(&b); string v = lib::classify([&] { DKIM::Validatory v(in); lib::set_dns(v, cfg::dns(k)); auto i = v.GetSignatures().begin(); DKIM::Signature sg; DKIM::PublicKey pk; v.GetSignature(i, sg); v.GetPublicKey(sg, pk); v.CheckSignature(i, sg, pk); }, &what); c.eq(v, w == 3 ? "fail" : "", "huge-verify", how + ": " + what); c.outcome(v); }; p.exec_limit_s = 300; p.split = 2; out.push_back(p); }
}
#else
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "short"; int n = th ? 6 : 4; p.what = "every body over {a,LF,SP,CR,TAB} up to length " + std::to_string(n) + " x every limit 0..len+2 x both modes: signing, recorded value, hash, and verification of bodies that differ before, at and after the limit";
      p.body = [n](Ctx& c) { static const vector<string> A = {"a", "\n", " ", "\r", "\t"}; string b = c.word(A, 0, n); bool rl = c.choose(2); size_t m = ref::body_canon(b, rl).size(); both(c, b, (size_t)c.choose((int)m + 3), rl, 2); }; out.push_back(p); }
    { Phase p; p.name = "canonicalizer"; int n = th ? 8 : 6; p.what = "every body over {a,LF,SP,CR,TAB} up to length " + std::to_string(n) + " x every limit x both modes through the canonicalizer";
      p.body = [n](Ctx& c) { static const vector<string> A = {"a", "\n", " ", "\r", "\t"}; string b = c.word(A, 0, n); bool rl = c.choose(2); size_t m = ref::body_canon(b, rl).size(); edges(c, b, (size_t)c.choose((int)m + 2), rl); }; out.push_back(p); }
    { Phase p; p.name = "boundaries"; p.what = "bodies around the read size (every length 4090..4102, 8186..8198, 16380..16390) in 8 fillings x limits around the end, the read size and every CRLF";
      p.body = [](Ctx& c) { int w = c.choose(36), len = w < 13 ? 4090 + w : w < 26 ? 8186 + (w - 13) : 16380 + (w - 26); int f = c.choose(8); bool rl = c.choose(2); string b; if (f == 0) b = string((size_t)len, 'x'); else if (f == 1) b = string((size_t)len - 2, 'x') + "\r\n"; else if (f == 2) { while ((int)b.size() < len) b += "ab\r\n"; } else if (f == 3) b = string((size_t)len - 6, 'x') + " \t\r\n\r\n"; else if (f == 4) { while ((int)b.size() < len) b += "\r\n"; b += "x"; } else if (f == 5) { while ((int)b.size() < len) b += "a \t"; } else if (f == 6) { while ((int)b.size() < len) b += "\n"; } else b = string((size_t)len, ' ') + "y\n";
          long m = (long)ref::body_canon(b, rl).size(); static const long D[] = {-3, -2, -1, 0, 1}; int at = c.choose(4); long base = at == 0 ? m : at == 1 ? 8192 : at == 2 ? 4096 : m / 2; long n = base + D[c.choose(5)]; if (n < 0) n = 0; edges(c, b, (size_t)n, rl); if (c.choose(2) == 1 && at == 0) both(c, b, (size_t)n, rl, 2); }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "huge"; p.what = "limits of 2^31-1, 2^31, 2^32-1, 2^32, 2^32+len, 2^63-1 with short bodies: signing is refused, a verifier covers the whole body";
      p.body = [](Ctx& c) { static const unsigned long V[] = {2147483647ul, 2147483648ul, 4294967295ul, 4294967296ul, 4294967296ul + 3, 9223372036854775807ul}; unsigned long n = V[c.choose(6)]; bool rl = c.choose(2); static const vector<string> B = {"a\r\n", "", "abc", "a\r\n\r\n"}; const string& b = c.pick(B); edges(c, b, n, rl); string msg = "From: a@b\r\n\r\n" + b; cfg::Cfg g; g.sigs[0].key = 2; g.rb = rl; g.hasl = true; g.l = n; string out, what; DKIM::SignatoryOptions o; cfg::apply(g, o); string cls = lib::sign(msg, o, out, &what); c.require(cls == "permerror" && out.empty(), "huge", fmt("l=%lu accepted for ", n) + show(b)); 
          string f = ref::make_sig(msg, "DKIM-Signature", string(" v=1; a=ed25519-sha256; c=simple/") + (rl ? "relaxed" : "simple") + "; d=example.com; s=sel; h=from; l=" + std::to_string(n) + "; bh=@BH@; b=@B@", cfg::key(2), "", "", env::clock_now); auto v = lib::verify(f + "\r\n" + msg, lib::fixed(lib::record(cfg::key(2)))); c.require(v[0].pass(), "huge-verify", fmt("l=%lu: ", n) + v[0].what); v = lib::verify(f + "\r\n" + msg + "x", lib::fixed(lib::record(cfg::key(2)))); c.require(v[0].cls == "fail", "huge-verify", fmt("l=%lu: appended octet passes", n)); c.validated(); c.outcome(fmt("%lu", n)); }; p.split = 1; out.push_back(p); }
    { Phase p; p.name = "foreign"; int n = th ? 6 : 4; p.what = "reference-made signatures with and without l= over every body over {a,b,LF,SP} up to length " + std::to_string(n) + " verified against every other such body of a neighbourhood (one octet appended, removed, changed)";
      p.body = [n](Ctx& c) { static const vector<string> A = {"a", "\n", " ", "b"}; string b = c.word(A, 0, n); bool rl = c.choose(2); string full = ref::body_canon(b, rl); int l = c.choose((int)full.size() + 2) - 1; string val = string(" v=1; a=ed25519-sha256; c=simple/") + (rl ? "relaxed" : "simple") + "; d=example.com; s=sel; h=from" + (l >= 0 ? fmt("; l=%d", l) : "") + "; bh=@BH@; b=@B@"; string f = ref::make_sig("From: a\r\n\r\n" + b, "DKIM-Signature", val, cfg::key(2), "", "", env::clock_now);
          vector<string> nb = {b, b + "a", b + "\n", b + " ", "a" + b}; for (size_t i = 0; i < b.size(); i++) { string x = b; x.erase(i, 1); nb.push_back(x); x = b; x[i] = x[i] == 'a' ? 'b' : 'a'; nb.push_back(x); }
          for (auto& x : nb) { string cx = ref::body_canon(x, rl); bool want = l >= 0 ? cx.substr(0, (size_t)l) == full.substr(0, (size_t)l) : cx == full; auto v = lib::verify(f + "\r\nFrom: a\r\n\r\n" + x, lib::fixed(lib::record(cfg::key(2)))); c.transition(); c.require(v.size() == 1 && v[0].pass() == want, want ? "beyond-matters" : "before-ignored", fmt("l=%d signed ", l) + show(b) + " received " + show(x) + ": " + v[0].str()); c.outcome(v[0].str()); } c.state(b + fmt("|%d|%d", l, rl)); c.validated(); }; out.push_back(p); }
    { Phase p; p.name = "large"; p.what = string("bodies of 65530..4194304 octets in 4 fillings x limits at every power of two from 2^8 on and its neighbours, at multiples of the read size, and at the end: the canonicalizer; signing and verification with them for bodies up to ") + (th ? "2^20" : "2^18") + " octets";
      p.body = [th](Ctx& c) { static const size_t L[] = {65530, 65536, 70000, 131072, 200003, 262144, 524288, 1048576, 1048577, 4194304}; size_t len = L[c.choose(10)]; int f = c.choose(4); bool rl = c.choose(2); if (!th && len > 1048576 && f) return; struct Made { size_t len = 0; int f = 0; bool rl = false; string b, full; }; static Made made; if (made.len != len || made.f != f || made.rl != rl) { made = Made(); made.len = len; made.f = f; made.rl = rl; string u = f == 0 ? "x" : f == 1 ? "line of text \r\n" : f == 2 ? "a \t b\n" : "\r\n"; made.b.reserve(len + 20); while (made.b.size() < len) made.b += u; if (f == 3) made.b += "end"; made.full = ref::body_canon(made.b, rl); } const string &b = made.b, &full = made.full; vector<size_t> n; for (int i = 8; i <= 22; i++) for (int d = -1; d <= 1; d++) n.push_back(((size_t)1 << i) + (size_t)d); for (int k : {3, 5, 7, 9, 25}) for (int d = -1; d <= 1; d++) n.push_back((size_t)(8192 * k + d)); for (int d = -1; d <= 1; d++) n.push_back(full.size() + (size_t)d);
          size_t l = n[(size_t)c.choose((int)n.size())]; bool near = l <= full.size() + 1; if (!near || (!th && len > 600000 && l < 60000)) return; bool edge = l + 1 >= full.size() || (l >= 65535 && l <= 65537) || l == 131072 || l == 262144;  c.state(fmt("%zu|%d|%d|%zu", len, f, rl, l)); canon(c, b, l, rl); c.outcome(l > full.size() ? "short" : "long"); if (len <= (th ? 1048577u : 262144u) && (th || edge)) both(c, b, l, rl, 2); }; p.split = 3; out.push_back(p); }
}
#endif
