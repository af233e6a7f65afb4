// C04: bottom-up selection, free movement of unsigned fields, oversigning.
// The oracle is a list model of the selection; no hash or parser is involved in it.
#include "cfg.hpp"
using namespace mc; using std::string; using std::vector;
const char* mc::property_id = "C04";
struct F { string name, value; };
static vector<string> select(const vector<F>& fs, const vector<string>& h, bool relaxed) { // the signed instances in order
    vector<bool> used(fs.size()); vector<string> r;
    for (auto& n : h) for (size_t i = fs.size(); i-- > 0;) if (!used[i] && ref::lower(fs[i].name) == ref::lower(n)) { used[i] = true; r.push_back((relaxed ? ref::lower(fs[i].name) : fs[i].name) + ":" + fs[i].value); break; }
    return r;
}
static string render(const vector<F>& fs, size_t sigpos, const string& sig) { string o; for (size_t i = 0; i <= fs.size(); i++) { if (i == sigpos && !sig.empty()) o += sig + "\r\n"; if (i < fs.size()) o += fs[i].name + ":" + fs[i].value + "\r\n"; } return o + "\r\nbody\r\n"; }
static const vector<string>& pool() { static const vector<string> P = {"From", "Subject", "X", "subject", "FROM", "To"}; return P; }
static string join(const vector<string>& v) { string o; for (auto& x : v) o += (o.empty() ? "" : ":") + x; return o; }
static string dump(const vector<F>& f) { string o; for (auto& x : f) o += x.name + ":" + x.value + " "; return o; }
static void compare(Ctx& c, const vector<F>& orig, const vector<F>& now, const vector<string>& h, bool relaxed, const string& sig, size_t pos, const string& hist) {
    bool want = select(orig, h, relaxed) == select(now, h, relaxed); string m = render(now, pos, sig); auto v = lib::verify(m, lib::fixed(lib::record(cfg::key(2)))); c.transition(); c.validated(); c.state(m); c.note("h=" + join(h) + " fields " + dump(now) + " after " + hist);
    c.require(v.size() == 1, "discovery", "signature not found"); c.sample("h=" + join(h) + " | " + dump(orig) + "| " + hist + "-> " + v[0].str());
    c.require(v[0].pass() == want, want ? "rejected" : "accepted", string(want ? "the selected instances are unchanged but the signature fails" : "the selected instances have changed but the signature passes") + ": h=" + join(h) + " original " + dump(orig) + " now " + dump(now) + " (" + hist + ") " + v[0].what); c.outcome(v[0].str() + (want ? "1" : "0"));
}
static void ops(Ctx& c, vector<F>& f, string& hist, int n, bool& stop) { // one operation on the field list
    int k = c.choose(6, "operation"); stop = false;
    if (k == 0) { stop = true; return; }
    if (k == 1) { int i = c.choose((int)pool().size(), "name"), at = n ? c.choose(2, "at") * (int)f.size() : c.choose((int)f.size() + 1, "at"); int w = c.choose(n ? 2 : 3, "value"); f.insert(f.begin() + at, F{pool()[(size_t)i], w == 0 ? "new" : w == 1 ? "1" : "2"}); hist += "add " + pool()[(size_t)i] + fmt("@%d ", at); }
    else if (f.empty()) return;
    else if (k == 2) { int i = c.choose((int)f.size(), "which"); hist += "remove " + f[(size_t)i].name + fmt("@%d ", i); f.erase(f.begin() + i); }
    else if (k == 3) { int i = c.choose((int)f.size(), "which"); f[(size_t)i].value += "!"; hist += fmt("edit %d ", i); }
    else if (k == 4) { int i = c.choose((int)f.size(), "which"), j = c.choose((int)f.size(), "to"); F x = f[(size_t)i]; f.erase(f.begin() + i); f.insert(f.begin() + j, x); hist += fmt("move %d to %d ", i, j); }
    else { int i = c.choose((int)f.size(), "which"); f[(size_t)i].name = isupper((unsigned char)f[(size_t)i].name[0]) ? ref::lower(f[(size_t)i].name) : "F" + f[(size_t)i].name.substr(1); hist += fmt("rename %d ", i); }
    (void)n;
}
void mc::phases(vector<Phase>& out, bool th) {
    static const vector<vector<string>> H = {{"from", "subject"}, {"From", "from", "Subject", "subject", "subject"}, {"from", "x", "x"}, {"subject", "from", "SUBJECT", "none"}, {"from"}, {"to", "From", "from", "x"}};
    static const vector<vector<F>> M = {{{"From", "1"}, {"Subject", "1"}, {"X", "1"}}, {{"Subject", "1"}, {"From", "1"}, {"subject", "2"}, {"To", "1"}}, {{"From", "1"}, {"X", "1"}, {"X", "2"}, {"X", "1"}, {"FROM", "2"}}, {{"From", "1"}, {"Subject", "1"}, {"Subject", "1"}, {"Subject", "2"}}};
    int depth = th ? 3 : 2;
    { Phase p; p.name = "operations"; p.what = "every sequence of up to " + std::to_string(depth) + " operations (add at any place, remove, edit, move, rename) on signed messages: " + std::to_string(th ? 6 : 4) + " h= lists x 4 messages x both header canonicalizations x signature position";
      p.body = [depth, th](Ctx& c) { const auto& h = H[(size_t)c.choose(th ? 6 : 4)]; const auto& orig = c.pick(M); bool rl = c.choose(2); int where = c.choose(2); size_t pos = where == 0 ? 0 : where == 1 ? orig.size() : 1;
          string val = string(" v=1; a=ed25519-sha256; c=") + (rl ? "relaxed" : "simple") + "; d=example.com; s=sel; h=" + join(h) + "; bh=@BH@; b=@B@"; string sig = ref::make_sig(render(orig, 0, ""), "DKIM-Signature", val, cfg::key(2));
          vector<F> f = orig; string hist; for (int i = 0; i < depth; i++) { bool stop; ops(c, f, hist, i, stop); if (stop) break; } compare(c, orig, f, h, rl, sig, std::min(pos, f.size()), hist); }; p.split = 5; out.push_back(p); }
    { Phase p; p.name = "lists"; int n = th ? 4 : 3, m = th ? 4 : 2; p.what = "every h= list of up to " + std::to_string(m + 1) + " names (from first) over {from,Subject,subject,X,To,none} x every message of up to " + std::to_string(n) + " fields: signed by the reference; verified unchanged, with one instance of each name added on top, and with the last field removed";
      p.body = [n, m](Ctx& c) { vector<string> h = {"from"}; static const vector<string> N = {"Subject", "from", "X", "subject", "none", "To"}; for (int i = 0; i < m; i++) { int k = c.choose((int)N.size() + 1); if (!k) break; h.push_back(N[(size_t)k - 1]); }
          vector<F> f; for (int i = 0; i < n; i++) { int k = c.choose((int)pool().size() + 1); if (!k) break; f.push_back(F{pool()[(size_t)k - 1], std::to_string(i)}); }
          string val = " v=1; a=ed25519-sha256; c=relaxed; d=example.com; s=sel; h=" + join(h) + "; bh=@BH@; b=@B@"; string sig = ref::make_sig(render(f, 0, ""), "DKIM-Signature", val, cfg::key(2)); compare(c, f, f, h, true, sig, 0, "nothing");
          for (const char* nm : {"From", "Subject", "X", "None"}) { auto g = f; g.insert(g.begin(), F{nm, "9"}); compare(c, f, g, h, true, sig, 0, string("add ") + nm + " on top"); } if (!f.empty()) { auto g = f; g.pop_back(); compare(c, f, g, h, true, sig, 0, "remove the last"); } }; out.push_back(p); }
    { Phase p; p.name = "oversign-by-library"; p.what = "messages signed by the library with seven ways to choose the names and five to oversign; then every instance of every name added at every place, removed or edited";
      p.body = [depth, th](Ctx& c) { const auto& orig = M[(size_t)c.choose(th ? 4 : 3)]; static const vector<std::list<string>> OV = {{"from"}, {"FROM", "Subject"}, {"from", "none", "x"}, {}, {"to", "from", "from"}}; const auto& ov = c.pick(OV); bool rl = c.choose(2); struct H { int mode; std::list<string> l; }; static const vector<H> HM = {{0, {}}, {1, {"from"}}, {1, {"subject"}}, {1, {"X", "to", "x"}}, {1, {}}, {2, {"x"}}, {3, {"FROM", "to"}}}; int hi = c.choose((int)HM.size()); const H& hm = HM[(size_t)hi]; int deep = hi < 2 ? depth : th ? 2 : 1;
          cfg::Cfg g; g.sigs[0].key = 2; g.rh = rl; g.over = ov; g.hdrmode = hm.mode; g.hdr = hm.l; string out, what; DKIM::SignatoryOptions o; cfg::apply(g, o); string cls = lib::sign(render(orig, 0, ""), o, out, &what), why = cfg::refusal(g, render(orig, 0, "")); c.require(cls == (why.empty() ? "" : "permerror"), "sign", "signing gave '" + cls + " " + what + "' for " + cfg::show(g) + ", reference '" + why + "'"); if (!why.empty()) { c.outcome("refused"); return; }
          // what the configuration promises: all instances of the listed names are signed, and one more for each time a name is oversigned
          bool all; auto names = cfg::names(g, all); vector<string> h; for (size_t i = orig.size(); i-- > 0;) if (all || names.count(ref::lower(orig[i].name))) h.push_back(orig[i].name); for (auto& x : ov) h.push_back(x);
          vector<F> f = orig; string hist; for (int i = 0; i < deep; i++) { bool stop; ops(c, f, hist, i, stop); if (stop) break; }
          bool reorder_only = false; (void)reorder_only;
          // the order of distinct names in h= is the signer's choice: compare per name
          vector<string> hs = h; std::stable_sort(hs.begin(), hs.end(), [](const string& a, const string& b) { return ref::lower(a) < ref::lower(b); }); compare(c, orig, f, hs, rl, out, 0, hist); }; p.split = 4; out.push_back(p); }
    { Phase p; p.name = "many"; static vector<int> N; if (N.empty()) { for (int i = 1; i <= 20; i++) N.push_back(i); for (int i : {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500}) N.push_back(i); if (th) for (int i : {1000, 4095, 4096, 4097}) N.push_back(i); }
      p.what = "messages with 1.." + std::to_string(N.back()) + " instances of one name (every number up to 20, the powers of two and their neighbours), or as many different names, of which h= (reference signer) or the options (library signer, oversigning 0..2) name none, one, all but one, all, or up to two more; then every one of 12 changes at the first, middle or last of them";
      p.body = [](Ctx& c) { int n = c.pick(N), shape = c.choose(2), signer = c.choose(2), r = c.choose(6), rl = c.choose(2), op = c.choose(12); vector<F> orig; orig.push_back({"To", "0"}); for (int i = 0; i < n; i++) orig.push_back({shape ? fmt("X-%d", i) : i % 3 == 1 ? "x" : "X", shape ? "v" : fmt("%d", i % 7)}); orig.push_back({"From", "1"});
          int num = r == 0 ? 0 : r == 1 ? 1 : n + r - 3; if (num < 0) num = 0; vector<string> h = {"from"}; string sig;
          if (signer == 0) { for (int i = 0; i < num; i++) h.push_back(shape ? fmt("x-%d", i) : i % 2 ? "x" : "X"); string val = string(" v=1; a=ed25519-sha256; c=") + (rl ? "relaxed" : "simple") + "; d=example.com; s=sel; h=" + join(h) + "; bh=@BH@; b=@B@"; sig = ref::make_sig(render(orig, 0, ""), "DKIM-Signature", val, cfg::key(2)); }
          else { if (r > 2) return; cfg::Cfg g; g.sigs[0].key = 2; g.rh = rl; for (int i = 0; i < r; i++) g.over.push_back(shape ? fmt("X-%d", i * (n - 1)) : "x"); g.over.push_back("from"); string what; DKIM::SignatoryOptions o; cfg::apply(g, o); string cls = lib::sign(render(orig, 0, ""), o, sig, &what); c.require(cls.empty(), "sign", "signing failed: " + what); bool all; auto nm = cfg::names(g, all); h.clear(); for (size_t i = orig.size(); i-- > 0;) if (all || nm.count(ref::lower(orig[i].name))) h.push_back(orig[i].name); for (auto& x : g.over) h.push_back(x); }
          auto f = orig; string hist; int at[] = {1, (n + 1) / 2, n}; int w = at[op % 3]; if (op < 3) { string nm = shape ? fmt("x-%d", w - 1) : "X"; f.insert(f.begin() + (op == 2 ? w + 1 : w), F{nm, "new"}); hist = fmt("add %s at %d", nm.c_str(), w); } else if (op < 6) { f.erase(f.begin() + w); hist = fmt("remove %d", w); } else if (op < 9) { f[(size_t)w].value += "!"; hist = fmt("edit %d", w); } else if (op == 9) { std::reverse(f.begin() + 1, f.begin() + 1 + n); hist = "reverse"; } else if (op == 10) { std::rotate(f.begin() + 1, f.begin() + n, f.begin() + 1 + n); hist = "last to the front"; } else hist = "nothing";
          compare(c, orig, f, h, rl, sig, 0, hist); }; p.split = 4; out.push_back(p); }
    { Phase p; p.name = "signatures"; int depth = th ? 3 : 2; p.what = "signatures whose h= names DKIM-Signature 0..2 times, on messages with 0..2 other signature fields, then every sequence of up to " + std::to_string(depth) + " operations: another copy of the signature (same or other case of the name) or of another one at any place, removal, movement; every copy is judged with itself left out";
      p.body = [depth](Ctx& c) { int others = c.choose(3), named = c.choose(3); bool rl = c.choose(2), arc = c.choose(2); const string NAME = arc ? "ARC-Message-Signature" : "DKIM-Signature"; vector<F> orig; if (others > 1) orig.push_back({NAME, " other=2"}); orig.push_back({"From", " 1"}); if (others) orig.push_back({NAME, " other=1"});
          vector<string> h = {"from"}; for (int i = 0; i < named; i++) h.push_back(i ? ref::lower(NAME) : NAME); string val = string(arc ? " i=1;" : " v=1;") + " a=ed25519-sha256; c=" + (rl ? "relaxed" : "simple") + "; d=example.com; s=sel; h=" + join(h) + "; bh=@BH@; b=@B@"; string sig = ref::make_sig(render(orig, 0, ""), NAME, val, cfg::key(2)); const string tval = sig.substr(sig.find(':') + 1);
          vector<F> f = orig; f.insert(f.begin(), F{NAME, tval}); string hist;
          for (int i = 0; i < depth; i++) { int k = c.choose(6); if (k == 0) break; if (k <= 3) { int at = c.choose((int)f.size() + 1); f.insert(f.begin() + at, k == 1 ? F{NAME, tval} : k == 2 ? F{ref::lower(NAME), tval} : F{NAME, " other=1"}); hist += fmt(k == 1 ? "copy at %d " : k == 2 ? "copy with a lower-case name at %d " : "another signature at %d ", at); } else if (f.empty()) break; else { int w = c.choose((int)f.size()); F x = f[(size_t)w]; f.erase(f.begin() + w); if (k == 5) { int at = c.choose((int)f.size() + 1); f.insert(f.begin() + at, x); hist += fmt("move %d to %d ", w, at); } else hist += fmt("remove %d ", w); } }
          auto canon = [&](vector<F> v) { if (rl) for (auto& x : v) x.name = ref::lower(x.name); return v; }; auto signedset = select(canon(orig), h, rl); string m = render(f, 0, ""); auto v = lib::verify(m, lib::fixed(lib::record(cfg::key(2))), arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM); c.note("h=" + join(h) + " " + dump(f)); c.state(m); c.transition(); size_t n = 0;
          for (size_t i = 0; i < f.size(); i++) { if (ref::lower(f[i].name) != ref::lower(NAME)) continue; c.require(n < v.size(), "discovery", "too few signatures found after " + hist); auto& r = v[n++]; if (f[i].value != tval) { c.require(!r.pass(), "accepted", "a field that is no signature passes"); continue; }
              auto rest = f; rest.erase(rest.begin() + (long)i); bool want = select(canon(rest), h, rl) == signedset && (rl || f[i].name == NAME); c.validated(); c.require(r.pass() == want, want ? "rejected" : "accepted", string(want ? "the selected instances are unchanged but the signature fails" : "the selected instances have changed but the signature passes") + fmt(": field %zu, h=", i) + join(h) + (rl ? " relaxed " : " simple ") + dump(f) + " (" + hist + ") " + r.what); c.outcome(r.str() + (want ? "1" : "0")); }
          c.require(n == v.size(), "discovery", "too many signatures found"); c.sample(hist); }; p.split = 5; out.push_back(p); }
}
