// C16: results do not depend on how the stream delivers the message, and read errors do not pass.
#include "cfg.hpp"
#include "stream.hpp"
#include <fstream>
#include <unistd.h>
using namespace mc;
using std::string;
using std::vector;
const char* mc::property_id = "C16";

// messages with signatures of several fates in front; the first has no signature (for signing)
struct Msg { string text; string verdicts; };
static const vector<Msg>& messages() {
    static vector<Msg> v;
    if (!v.empty()) return v;
    auto add = [&](const string& m, bool sigs) {
        string f, w;
        if (sigs) {
            auto sig = [&](const string& t, int k, const char* pre) { f += ref::make_sig(m, "DKIM-Signature", " v=1; " + t + " d=example.com; h=from:to; bh=@BH@; b=@B@", cfg::key(k), "", "", env::clock_now) + "\r\n"; (void)pre; };
            sig("a=rsa-sha256; c=relaxed/relaxed; s=rsa;", 3, "");
            sig("a=ed25519-sha256; s=ed; l=4;", 2, "");
            sig("a=ed25519-sha256; c=simple/relaxed; s=rsa;", 2, ""); // wrong key
            sig("a=rsa-sha1; c=relaxed/simple; s=rsa;", 3, "");
        }
        v.push_back({f + m, ""});
    };
    string a = "From: a@example.com\r\nTo:  b\r\n folded\r\n\r\nline one \t x\r\n\r\n .end \r\n\r\n", b = "From: a@example.com\nTo: b\n\nbare lf body\n\nlast line without end", n = "From: a@example.com\r\nTo: b\r\n";
    add(a, true); add(b, true); add(a, false); add(b, false); add(n, false); add(n + "\r\n", true);
    return v;
}
static bool dns(const string& q, string& o) { o = lib::record(cfg::key(q[0] == 'e' ? 2 : 3)); return true; }
static vector<string> verify(std::istream& in, std::function<void(int)> before = nullptr, vector<bool>* hits = nullptr, PlanBuf* b = nullptr) {
    vector<string> r;
    std::unique_ptr<DKIM::Validatory> v;
    auto step = [&](std::function<void()> f) { if (b) b->hit = false; string w; string c = lib::classify(f, &w); r.push_back(c.empty() ? "ok" : c); if (hits) hits->push_back(b && b->hit); };
    step([&] { v.reset(new DKIM::Validatory(in)); });
    if (!v) return r;
    lib::set_dns(*v, dns);
    for (auto i = v->GetSignatures().begin(); i != v->GetSignatures().end(); ++i) step([&] { DKIM::Signature s; DKIM::PublicKey p; v->GetSignature(i, s); v->GetPublicKey(s, p); v->CheckSignature(i, s, p); });
    return r;
}
static const vector<cfg::Cfg>& configs() {
    static vector<cfg::Cfg> v;
    if (!v.empty()) return v;
    cfg::Cfg c; c.sigs[0].key = 3; v.push_back(c);
    c.rb = c.rh = true; c.sigs[0].key = 2; v.push_back(c);
    c.hasl = true; c.l = 5; v.push_back(c);
    c.rb = false; c.l = 500; v.push_back(c); // refused
    return v;
}
static string sign(std::istream& in, const cfg::Cfg& c, string* cls = nullptr) {
    DKIM::SignatoryOptions o; cfg::apply(c, o); string out, w;
    string r = lib::classify([&] { DKIM::Signatory s(in); out = s.CreateSignature(o); }, &w);
    if (cls) *cls = r;
    return r + "\n" + out;
}
static string join(const vector<string>& v) { string o; for (auto& x : v) o += x + ","; return o; }
static const string& base_verify(size_t m) { static std::map<size_t, string> c; auto i = c.find(m); if (i != c.end()) return i->second; std::istringstream in(messages()[m].text); return c[m] = join(verify(in)); }
static const string& base_sign(size_t m, size_t k) { static std::map<size_t, string> c; auto i = c.find(m * 10 + k); if (i != c.end()) return i->second; std::istringstream in(messages()[m].text); return c[m * 10 + k] = sign(in, configs()[k]); }
static void compare(Ctx& c, size_t m, const std::function<std::unique_ptr<PlanBuf>()>& make, const string& how) {
    { auto b = make(); std::istream in(b.get()); string got = join(verify(in)); c.transition(); c.validated(); c.eq(got, base_verify(m), "verify", "verifying " + show(messages()[m].text, 2000) + " read " + how); c.outcome(got); }
    for (size_t k = 0; k < configs().size(); k++) { auto b = make(); std::istream in(b.get()); string got = sign(in, configs()[k]); c.transition(); c.validated(); c.eq(got, base_sign(m, k), "sign", "signing " + show(messages()[m].text, 2000) + " read " + how); c.outcome(got); }
    c.state(fmt("%zu ", m) + how); c.sample(fmt("message %zu read ", m) + how);
}
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "chunks"; p.split = 1; p.what = "6 messages (CRLF and LF, folded, with and without body) delivered in reads of every uniform size"; p.body = [](Ctx& c) { size_t m = (size_t)c.choose((int)messages().size()); size_t k = 1 + (size_t)c.choose((int)messages()[m].text.size()); compare(c, m, [&] { std::unique_ptr<PlanBuf> b(new PlanBuf(messages()[m].text)); b->every = k; return b; }, fmt("in chunks of %zu", k)); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "cuts"; p.split = 2; int n = th ? 3 : 2; p.what = "the unsigned messages divided at every combination of up to " + std::to_string(n) + " places"; p.body = [n](Ctx& c) { size_t m = 2 + (size_t)c.choose(3); size_t N = messages()[m].text.size(); vector<size_t> cuts; string how = "with reads ending at"; int k = c.choose(n) + 1; size_t lo = 1; for (int i = 0; i < k && lo < N; i++) { size_t x = lo + (size_t)c.choose((int)(N - lo)); cuts.push_back(x); lo = x + 1; how += fmt(" %zu", x); } compare(c, m, [&] { std::unique_ptr<PlanBuf> b(new PlanBuf(messages()[m].text)); b->cuts = cuts; return b; }, how); }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "far"; p.what = "the messages at stream positions around 2^31, 2^32, 2^40, 2^62, in reads of 1, 7 or all octets"; p.body = [](Ctx& c) { size_t m = (size_t)c.choose((int)messages().size()); static const long B[] = {1l << 31, 1l << 32, 1l << 40, 1l << 62}; long far = B[c.choose(4)] - (long)c.pick(vector<int>{0, 1, 20, 60, 100, 200, 500, 1000}); size_t every = c.pick(vector<size_t>{0, 1, 7}); compare(c, m, [&] { std::unique_ptr<PlanBuf> b(new PlanBuf(messages()[m].text)); b->far = far; b->every = every; return b; }, fmt("from position %ld", far)); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "read-errors"; p.what = "a read error at every offset of every pass over the message (header pass, body pass of each signature), once or permanently, in reads of 1 octet, 7 octets or as large as possible: the operation that met it ends in a temporary error, all others are unaffected";
      p.body = [](Ctx& c) {
          size_t m = (size_t)c.choose((int)messages().size()); const string& t = messages()[m].text; int what = c.choose(1 + (int)configs().size()), pass = c.choose(what ? 3 : 6); size_t at = (size_t)c.choose((int)t.size() + 1); bool sticky = c.choose(2); size_t every = c.pick(vector<size_t>{0, 1, 7});
          PlanBuf b(t); b.fail_pass = pass; b.fail_at = at; b.sticky = sticky; b.every = every; std::istream in(&b); c.transition(); c.validated(); string how = fmt("%s %zu with a%s read error at %zu in pass %d, chunks %zu", what ? "signing" : "verifying", m, sticky ? " permanent" : "", at, pass, every); c.note(how + ": " + show(t, 2000)); c.state(how); c.sample(how);
          if (what == 0) { vector<bool> hits; auto got = verify(in, nullptr, &hits, &b); std::istringstream full(t); static std::map<size_t, vector<string>> cache; auto& want = cache[m]; if (want.empty()) want = verify(full); for (size_t i = 0; i < got.size(); i++) { if (hits[i]) { // what a limited body needs may have been read before
                      bool limited = i == 2; c.require(got[i] == "temperror" || (limited && got[i] == want[i]), "read-error", how + fmt(": step %zu met the error and gave ", i) + got[i]); } else c.require(i < want.size() && got[i] == want[i], "unaffected", how + fmt(": step %zu gave ", i) + got[i] + " instead of " + want[i]); } c.require(got.size() == want.size() || hits[0], "lost", how + ": steps missing"); c.outcome(join(got)); }
          else { string cls; string got = sign(in, configs()[(size_t)what - 1], &cls); if (b.hit) { bool limited = configs()[(size_t)what - 1].hasl && configs()[(size_t)what - 1].l < 100; c.require(cls == "temperror" || (limited && got == base_sign(m, (size_t)what - 1)), "read-error", how + " gave " + got); c.require(cls.empty() || got == cls + "\n", "output", "signature together with an error"); } else c.eq(got, base_sign(m, (size_t)what - 1), "unaffected", how); c.outcome(cls); } };
      p.split = 3; out.push_back(p); }
    { Phase p; p.name = "seek-errors"; p.what = "streams that cannot seek, whose n-th seek fails, or that are bad from the start"; p.body = [](Ctx& c) {
          size_t m = (size_t)c.choose((int)messages().size()); const string& t = messages()[m].text; int mode = c.choose(8); int what = c.choose(1 + (int)configs().size()); bool nobody = m == 4; PlanBuf b(t); if (mode == 0) b.seekable = false; else if (mode < 7) b.fail_seek = mode; std::istream in(&b); if (mode == 7) in.setstate(std::ios::badbit);
          string how = fmt("%s %zu with stream fault %d", what ? "signing" : "verifying", m, mode); c.transition(); c.validated(); c.state(how); c.note(how); c.sample(how);
          if (what == 0) { vector<bool> hits; auto got = verify(in, nullptr, &hits, &b); std::istringstream full(t); auto want = verify(full); if (mode == 7 || (mode == 0 && !nobody)) { bool any = false; for (auto& g : got) { if (g == "temperror") any = true; } for (size_t i = 1; i < got.size(); i++) c.require(got[i] == "temperror" || got[i] == "permerror", "seek", how + " verified a signature: " + join(got)); c.require(any, "seek", how + " gave " + join(got)); } else for (size_t i = 0; i < got.size(); i++) if (hits[i]) c.require(got[i] == "temperror", "seek", how + " gave " + join(got)); else c.require(got[i] == want[i], "unaffected", how + " gave " + join(got)); c.outcome(join(got)); }
          else { string cls; string got = sign(in, configs()[(size_t)what - 1], &cls); if (mode == 7 || (mode == 0 && !nobody) || b.hit) { c.require(cls == "temperror", "seek", how + " gave " + got); c.require(got == cls + "\n", "output", "signature together with an error"); } else c.eq(got, base_sign(m, (size_t)what - 1), "unaffected", how); c.outcome(cls); } };
      p.split = 2; out.push_back(p); }
    { Phase p; p.name = "large"; p.what = "bodies whose length and line ends fall at every place around the buffer sizes of the library (8096) and of file streams (8191, 8192, 16384), read from memory and from a real file, one read or chunks"; p.body = [th](Ctx& c) {
          static const vector<int> B = {4096, 8096, 8191, 8192, 16192, 16384}; int base = c.pick(B), d = c.choose(9) - 4, shape = c.choose(5), mode = c.choose(th ? 5 : 4); size_t head = strlen("From: a@example.com\r\n\r\n"); (void)head; string h = "From: a@example.com\r\n\r\n"; static const char* tail[] = {"\r\nnext\r\n", "  \t\r\nx", "\r\n\r\n\r\n", "\n\n y \r\n", "\r"}; string body; int lead = c.choose(2) ? 0 : (int)h.size(); int want_len = base + d - lead; while ((int)body.size() < want_len) { int k = std::min(70, want_len - (int)body.size()); if (k == 70) body += string(68, 'x') + "\r\n"; else body += string((size_t)k, 'z'); } body += tail[shape]; string t = h + body;
          static const vector<cfg::Cfg>& C = configs(); for (size_t k = 0; k < 2; k++) { string bc = ref::body_canon(body, C[k].rb); string bh = ref::b64enc(ref::sha("sha256", bc)); string got, cls; std::unique_ptr<std::istream> in; std::unique_ptr<PlanBuf> b; string path; if (mode == 0) in.reset(new std::istringstream(t)); else if (mode == 1) { path = fmt("/tmp/mc-c16-%d-%zu", (int)getpid(), k); std::ofstream(path) << t; in.reset(new std::ifstream(path)); } else { b.reset(new PlanBuf(t)); if (mode == 2) b->every = 4095; if (mode == 3) b->cuts = {(size_t)(base + d), h.size(), t.size() - 1}; if (mode == 4) b->every = 1; in.reset(new std::istream(b.get())); }
              got = sign(*in, C[k], &cls); if (!path.empty()) unlink(path.c_str()); c.transition(); c.validated(); c.require(cls.empty(), "large", "signing failed: " + got); ref::Msg pm = ref::split(got.substr(1)); ref::Sig s; ref::parse_sig(pm.h[0], env::clock_now, s); c.eq(ref::b64enc(s.bh), bh, "large", fmt("body hash of a body of %zu octets, mode %d, shape %d", body.size(), mode, shape)); c.outcome(bh.substr(0, 2)); }
          c.state(fmt("%d %d %d %d %d", base, d, shape, mode, lead)); c.sample(fmt("body %zu shape %d mode %d", body.size(), shape, mode)); };
      p.split = 3; out.push_back(p); }
}
