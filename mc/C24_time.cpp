// C24: the wall clock is decided by the explorer; expiry and emitted times are exact.
#include "cfg.hpp"
#include <climits>
using namespace mc;
using std::string;
using std::vector;
const char* mc::property_id = "C24";
static const string MSG = "From: a@example.com\r\nSubject: s\r\n\r\nbody\r\n";
static const vector<long>& moments() { static const vector<long> v = {0, 1, 9, 10, 59, 60, 999999999, 1000000000, 1700000000, 2147483646, 2147483647, 2147483648L, 2147483649L, 4294967294L, 4294967295L, 4294967296L, 4294967297L, 9999999999L, 10000000000L, 99999999999L, 253402300799L, 1000000000000L, 9007199254740993L, 999999999999999999L, LONG_MAX / 2, LONG_MAX - 1}; return v; }
// verdict with the clock as set; reads = what the clock was asked
static string verdict(DKIM::Validatory& v, DKIM::Signature& s, DKIM::PublicKey& p, string* what) { env::clock_reads.clear(); env::clock_log = true; auto i = v.GetSignatures().begin(); string r = lib::classify([&] { v.GetSignature(i, s); v.GetPublicKey(s, p); v.CheckSignature(i, s, p); }, what); env::clock_log = false; return r; }
static const string& signed_with(const string& extra, int kind) { // kind: 0 rsa DKIM, 1 ed25519 DKIM, 2 rsa ARC, 3 ed25519 ARC
    static std::map<string, string> m; string& r = m[extra + (char)('0' + kind)];
    if (r.empty()) r = ref::make_sig(MSG, kind < 2 ? "DKIM-Signature" : "ARC-Message-Signature", string(kind < 2 ? " v=1;" : " i=1;") + " a=" + (kind & 1 ? "ed25519-sha256" : "rsa-sha256") + "; c=relaxed/simple; d=example.com; s=s; h=from;" + extra + " bh=@BH@; b=@B@", cfg::key(kind & 1 ? 2 : 3), "", "", LONG_MIN) + "\r\n" + MSG;
    return r;
}
static void one(Ctx& c, DKIM::Validatory& v, int kind, bool hasx, long x, long now, long tick, const string& id, DKIM::Signature* s0 = nullptr, DKIM::PublicKey* p0 = nullptr) {
    DKIM::Signature s1; DKIM::PublicKey p1; if (s0) { s0->Reset(); p0->Reset(); }
    env::clock_now = now; env::clock_tick = tick; string what, r = verdict(v, s0 ? *s0 : s1, p0 ? *p0 : p1, &what); env::clock_tick = 0;
    long first = now, last = env::clock_reads.empty() ? now : env::clock_reads.back();
    c.transition(); c.validated(); c.state(id); c.note(id + " -> " + (r.empty() ? "pass" : r + " " + what));
    if (!hasx || last <= x) c.require(r.empty(), "refused", id + ": refused (" + what + ") though not expired");
    else if (first > x) c.require(r == "permerror", "accepted", id + ": result '" + (r.empty() ? "pass" : r) + "' after the expiry");
    else c.require(r.empty() || r == "permerror", "class", id + ": " + r);
    c.outcome((r.empty() ? "pass" : r) + (hasx ? "x" : "")); c.sample(id + " -> " + (r.empty() ? "pass" : r)); (void)kind;
}
static DKIM::Validatory::ValidatorType type(int kind) { return kind < 2 ? DKIM::Validatory::DKIM : DKIM::Validatory::ARC; }
static lib::Dns dnsfor(int kind) { return lib::fixed(lib::record(cfg::key(kind & 1 ? 2 : 3))); }
static long tagnum(const string& v) { if (v.empty() || v.find_first_not_of("0123456789") != string::npos) return LONG_MIN; return strtol(v.c_str(), nullptr, 10); }

void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "expiry"; p.what = fmt("x= at %zu boundary values and the value around the clock, t= of 5 kinds, 3 spellings of the number, at every clock value x-2..x+2 and far before and after, DKIM and ARC, both key types, standing and ticking clock", moments().size()); p.split = 3;
      p.body = [](Ctx& c) { int kind = c.choose(4); long x = c.pick(moments()); int when = c.choose(9), t = c.choose(5), spell = c.choose(3), tick = c.choose(3);
          long now = when < 5 ? x - 2 + when : when == 5 ? 0 : when == 6 ? 1700000000 : when == 7 ? x / 2 : LONG_MAX - 10; if (now < 0) now = 0;
          string num = std::to_string(x); if (spell == 1) num = "000" + num; if (spell == 2) num = "\t" + num + " "; string extra = " x=" + num + ";";
          if (t) extra = " t=" + std::to_string(t == 1 ? (x > 0 ? x - 1 : 0) : t == 2 ? x : t == 3 ? x / 2 + x / 4 + 7 : 1) + ";" + extra;
          string id = fmt("kind %d,%s clock %ld step %d", kind, extra.c_str(), now, tick); std::istringstream in(signed_with(extra, kind)); DKIM::Validatory v(in, type(kind)); lib::set_dns(v, dnsfor(kind)); one(c, v, kind, true, x, now, tick, id); }; out.push_back(p); }
    { Phase p; p.name = "never"; p.what = "signatures without x= (with and without t=) at every boundary clock value"; p.split = 2;
      p.body = [](Ctx& c) { int kind = c.choose(4); long now = c.pick(moments()); int t = c.choose(4); string extra = t ? " t=" + std::to_string(t == 1 ? 1 : t == 2 ? now : now / 2 + 1) + ";" : ""; std::istringstream in(signed_with(extra, kind)); DKIM::Validatory v(in, type(kind)); lib::set_dns(v, dnsfor(kind)); one(c, v, kind, false, 0, now, c.choose(2), fmt("kind %d,%s clock %ld", kind, extra.c_str(), now)); }; out.push_back(p); }
    { Phase p; p.name = "passing-time"; int n = th ? 6 : 4; p.what = "every sequence of " + std::to_string(n) + " verifications with one validator while the clock moves (also backwards) among x-1, x, x+1 and far values, with new or reset signature objects"; p.split = 3;
      p.body = [n](Ctx& c) { int kind = c.choose(4), share = c.choose(2); long x = 1700000000; string extra = " t=1600000000; x=1700000000;"; std::istringstream in(signed_with(extra, kind)); DKIM::Validatory v(in, type(kind)); lib::set_dns(v, dnsfor(kind)); DKIM::Signature s; DKIM::PublicKey pk; string h = fmt("kind %d share %d:", kind, share);
          for (int i = 0; i < n; i++) { static const long D[] = {-1, 0, 1, 1000000, -1000000}; long d = D[c.choose(5)]; h += fmt(" %+ld", d); one(c, v, kind, true, x, x + d, 0, h, share ? &s : nullptr, share ? &pk : nullptr); } }; out.push_back(p); }
    { Phase p; p.name = "emitted"; p.what = "signing with every timestamp (none, now, boundary values) x expiry (none, absolute, relative) x DKIM and ARC x 1-3 signatures x clock at boundary values, standing or advancing at each reading; the result verifies until exactly x"; p.split = 3;
      p.body = [th](Ctx& c) {
          static const vector<long> T = {-2 /* none */, -1, 0, 1, 1700000000, 2147483648L, 4294967296L, 99999999999L}; static const vector<long> X = {-2, 0, 1, 60, 86400, 1700000000, 2147483647, 2147483648L, 4294967296L, 99999999999L};
          long t = c.pick(T), x = c.pick(X); bool rel = x != -2 && c.choose(2); int arc = c.choose(2), sigs = 1 + c.choose(3); long now = th ? c.pick(vector<long>{0, 1, 1700000000, 2147483647, 2147483648L, 4294967295L, 99999999999L}) : c.pick(vector<long>{1, 1700000000, 2147483647, 4294967295L}), tick = c.pick(vector<long>{0, 1, 1000});
          cfg::Cfg g; g.sigs[0].key = 2; for (int i = 1; i < sigs; i++) { g.sigs.push_back(cfg::Sig()); g.sigs.back().key = i == 1 ? 3 : 6; g.sigs.back().selector = fmt("s%d", i); } g.arc = arc ? 3 : 0; if (t != -2) { g.hast = true; g.t = t; } if (x != -2) { g.hasx = true; g.x = x; g.xabs = !rel; }
          string id = cfg::show(g) + fmt(" clock %ld step %ld", now, tick); c.note(id); c.state(id); DKIM::SignatoryOptions o; cfg::apply(g, o);
          for (int round = 0; round < 2; round++) { // the same options again later
              long at = round ? now + 5000 : now; env::clock_now = at; env::clock_tick = tick; env::clock_reads.clear(); env::clock_log = true; string out, what, r = lib::sign(MSG, o, out, &what); env::clock_log = false; env::clock_tick = 0; auto reads = env::clock_reads; if (reads.empty()) reads.push_back(at);
              c.require(r.empty(), "refused", id + ": signing refused: " + what); auto f = lib::split_fields(out); c.require(f.size() == g.sigs.size(), "count", id + ": number of fields");
              long minx = LONG_MAX; for (auto& raw : f) { ref::Field fl; fl.raw = raw; ref::finish(fl); std::map<string, ref::Tag> tg; c.require(ref::tags(raw.substr(fl.valueOff), tg), "tags", id + ": " + show(raw)); long et = -1;
                  c.require(tg.count("t") == (g.hast ? 1u : 0u), "t-presence", id + ": presence of t="); c.require(tg.count("x") == (g.hasx ? 1u : 0u), "x-presence", id + ": presence of x=");
                  if (g.hast) { et = tagnum(tg["t"].value); if (t == -1) c.require(std::find(reads.begin(), reads.end(), et) != reads.end(), "t", id + ": t=" + tg["t"].value + " is not the clock's value"); else c.require(et == t, "t", id + ": t=" + tg["t"].value); }
                  if (g.hasx) { long ex = tagnum(tg["x"].value); minx = std::min(minx, ex); if (!rel) c.require(ex == x, "x", id + ": x=" + tg["x"].value); else if (g.hast) c.require(ex == et + x, "x-relative", id + ": x=" + tg["x"].value + " with t=" + tg["t"].value); else c.require(std::find(reads.begin(), reads.end(), ex - x) != reads.end(), "x-relative", id + ": x=" + tg["x"].value + " is not counted from the clock"); } }
              c.transition(); c.validated(); string m = out + "\r\n" + MSG; auto dns = cfg::dns(g); auto ty = arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM;
              if (g.hasx) { env::clock_now = minx; c.eq(lib::verdicts(lib::verify(m, dns, ty)), sigs == 1 ? "pass" : sigs == 2 ? "pass,pass" : "pass,pass,pass", "round-trip", id + ": verdicts at x"); env::clock_now = minx + 1 + 1000000; for (auto& q : lib::verify(m, dns, ty)) c.require(q.cls == "permerror", "round-trip", id + ": verdict long after x: " + q.str()); if (sigs == 1) { env::clock_now = minx + 1; c.eq(lib::verdicts(lib::verify(m, dns, ty)), "permerror", "round-trip", id + ": verdict at x+1"); } }
              else { env::clock_now = LONG_MAX - 5; for (auto& q : lib::verify(m, dns, ty)) c.require(q.pass(), "round-trip", id + ": without x=: " + q.str()); }
          }
          c.outcome(fmt("%ld %ld %d", t, x, rel)); c.sample(id); }; out.push_back(p); }
    { Phase p; p.name = "in-turn"; int n = th ? 4 : 3; p.what = "every sequence of " + std::to_string(n) + " signings with options of nine kinds (timestamp none, now, fixed; expiry none, absolute, relative), the clock moving forward or back before each: every emitted time is that of its own signing"; p.split = 2;
      p.body = [n](Ctx& c) { long now = 1700000000; string h; for (int i = 0; i < n; i++) { int k = c.choose(9), mv = c.choose(2); now += i == 0 ? 0 : mv ? -5000 : 5000; env::clock_now = now; cfg::Cfg g; g.sigs[0].key = 2; int t = k % 3, x = k / 3; if (t) { g.hast = true; g.t = t == 1 ? -1 : 1234567890 + i; } if (x) { g.hasx = true; g.xabs = x == 1; g.x = x == 1 ? 1800000000 + i : 600 + i; }
          h += fmt(" t%d x%d at %ld;", t, x, now); c.note(h); c.state(h); c.transition(); DKIM::SignatoryOptions o; cfg::apply(g, o); string out, what, r = lib::sign(MSG, o, out, &what); c.require(r.empty(), "refused", h + " signing refused: " + what); auto fs = lib::split_fields(out); c.require(fs.size() == 1, "count", h); ref::Field fl; fl.raw = fs[0]; ref::finish(fl); std::map<string, ref::Tag> tg; c.require(ref::tags(fl.raw.substr(fl.valueOff), tg), "tags", h); long et = t == 2 ? g.t : now;
          c.require(tg.count("t") == (t ? 1u : 0u), "t-presence", h + ": presence of t="); if (t) c.require(tagnum(tg["t"].value) == et, "t", h + ": t=" + tg["t"].value); c.require(tg.count("x") == (x ? 1u : 0u), "x-presence", h + ": presence of x="); if (x) c.require(tagnum(tg["x"].value) == (x == 1 ? g.x : et + g.x), x == 1 ? "x" : "x-relative", h + ": x=" + tg["x"].value); c.validated(); }
          c.outcome(h.substr(0, 40)); c.sample(h); }; out.push_back(p); }
}
