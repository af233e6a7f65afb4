// C09: tag=value lists against a split-based reference.
#include "lib.hpp"
using namespace mc; using std::string; using std::vector;
const char* mc::property_id = "C09";
static void check(Ctx& c, const string& s) {
    DKIM::TagList t; string what, cls = lib::classify([&] { t.Parse(s); }, &what); std::map<string, ref::Tag> r; bool ok = ref::tags(s, r); c.transition(); c.state(s);
    if (!ok) { c.require(cls == "permerror", "accepted", "malformed list " + show(s) + (cls.empty() ? " was accepted" : " raised " + cls)); c.validated(); c.outcome("refused"); return; }
    if (cls == "permerror" && ref::loose(r)) { c.validated(); c.outcome("refused"); return; }
    c.require(cls.empty(), "refused", "valid list " + show(s) + " was refused: " + what);
    string o; size_t n = 0; for (auto i = t.cbegin(); i != t.cend(); ++i) n++;
    c.require(n == r.size(), "count", fmt("%zu tags instead of %zu in ", n, r.size()) + show(s));
    for (auto& kv : r) { DKIM::TagListEntry e; c.require(t.GetTag(kv.first, e), "missing", "tag " + kv.first + " missing in " + show(s)); c.eq(e.GetValue(), kv.second.value, "value", "tag " + kv.first + " of " + show(s));
        if (!kv.second.value.empty()) c.require((size_t)e.GetValueOffset() == kv.second.off, "offset", fmt("tag %s offset %ld instead of %zu in ", kv.first.c_str(), (long)e.GetValueOffset(), kv.second.off) + show(s)); o += kv.first + "=" + kv.second.value + ";"; }
    DKIM::TagListEntry e; c.require(!t.GetTag("zz", e) && !t.GetTag("", e), "phantom", "a tag that does not exist is reported"); 
    for (const char* x : {"a", "A", "b", "B", "1", "a1", "_"}) c.require(t.GetTag(x, e) == (r.count(x) > 0), "case", string("presence of tag ") + x + " in " + show(s));
    c.validated(); c.outcome(o);
}
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "words"; int n = th ? 8 : 7; p.what = "every list over {a,=,;,SP,b,A,CRLF TAB} up to length " + std::to_string(n);
      p.body = [n](Ctx& c) { static const vector<string> A = {"a", "=", ";", " ", "b", "A", "\r\n\t"}; string s = c.word(A, 0, n); c.sample(show(s)); check(c, s); }; out.push_back(p); }
    { Phase p; p.name = "octets"; p.what = "every octet value in each syntactic position of a two tag list, singly and in pairs";
      p.body = [](Ctx& c) { int w = c.choose(9); char x = (char)c.choose(256); string X(1, x), s; switch (w) { case 0: s = X + "a=1; b=2"; break; case 1: s = "a" + X + "=1; b=2"; break; case 2: s = "a=" + X + "1;b=2"; break; case 3: s = "a=1" + X + "2;b=2"; break; case 4: s = "a=1" + X + ";b=2"; break; case 5: s = "a=1;" + X + "b=2"; break; case 6: s = "a=1;b=2" + X; break; case 7: s = "a=" + X; break; default: { string Y(1, (char)c.choose(256)); s = "a=1" + X + Y + "b=2"; } } c.sample(show(s)); check(c, s); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "structured"; p.what = "lists of up to 4 tag-specs with names, values, white space before/after names and values and separators from small sets";
      p.body = [th](Ctx& c) { static const vector<string> W = {"", " ", "\r\n ", "\n", "\t \r"}; static const vector<string> N = {"a", "A", "ab_1", "b", "", "a b", "v"}; static const vector<string> V = {"1", "", "x y", "x\r\n y", "a=b", "=", "x:y/z", "\"q\"", "\x80"}; string s; int k = 1 + c.choose(th ? 4 : 3); for (int i = 0; i < k; i++) { if (i) s += c.deviate(3) == 0 ? ";" : c.verbose ? ";;" : ";;"; s += c.dev(W) + c.dev(N); s += c.dev(W); s += c.deviate(2) ? "" : "="; s += c.dev(W) + c.dev(V) + c.dev(W); if (i == 0) s += ""; else s += ""; } s += c.deviate(2) ? ";" : ""; s += c.dev(W); 
          // distinct default names
          c.sample(show(s)); check(c, s); }; p.bound = th ? 4 : 3; out.push_back(p); }
    { Phase p; p.name = "named"; p.what = "lists of 1..4 specs with distinct or colliding names and layout deviations";
      p.body = [th](Ctx& c) { static const vector<string> W = {"", " ", "\r\n\t", "\t  \r\n "}; static const vector<string> V = {"1", "", "x y", "x \r\n  y", "a=b=", "k; l", "\x7f", "~!:<>"}; const char* D[] = {"d", "s", "b", "bh"}; string s; int k = 1 + c.choose(4); for (int i = 0; i < k; i++) { int nm = c.deviate(3); string name = nm == 0 ? D[i] : nm == 1 ? "d" : "D"; if (i) s += ";"; s += c.dev(W) + name + c.dev(W) + "=" + c.dev(W) + c.dev(V) + c.dev(W); } int e = c.deviate(4); s += e == 0 ? "" : e == 1 ? ";" : e == 2 ? "; " : ";;"; c.sample(show(s)); check(c, s); }; p.bound = th ? 4 : 3; p.split = 6; out.push_back(p); }
    { Phase p; p.name = "long"; p.what = "long names, values, white space and many tags";
      p.body = [](Ctx& c) { static vector<int> N; if (N.empty()) { for (int i = 1; i <= 300; i++) N.push_back(i); for (int i : {511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 65535, 65536, 70000}) N.push_back(i); } int n = c.pick(N), w = c.choose(5); string s; size_t z = (size_t)n; if (w == 0) s = string(z, 'n') + "=v"; else if (w == 1) s = "a=" + string(z, 'v') + " ;b=" + string(z, 'w'); else if (w == 2) s = "a=" + string(z, ' ') + "v" + string(z, '\t') + "w" + string(z, ' ') + ";b=1"; else if (w == 3) { for (int i = 0; i < n && i < 3000; i++) s += fmt("t%d=%d; ", i, i); } else { for (int i = 0; i < n && i < 3000; i++) s += fmt("t%d=%d;", i, i); s += "t0=again"; } check(c, s); }; p.split = 1; out.push_back(p); }
    { Phase p; p.name = "runs"; p.split = 2; p.what = "1..8, 15..17, 63..65, 100, 127..129, 255..257, 1000 copies of every octet: as the whole value, at its start, inside, at its end, in the name, or in turn with a letter, before another tag";
      p.body = [](Ctx& c) { static const vector<int> N = {1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000}; char x = (char)c.choose(256); int w = c.choose(8); string r((size_t)c.pick(N), x), s; switch (w) { case 0: s = "a=" + r; break; case 1: s = "a=" + r + "v; b=2"; break; case 2: s = "a=v" + r + "w; b=2"; break; case 3: s = "a=v " + r + ";b=2"; break; case 4: s = "a" + r + "=1; b=2"; break; case 5: s = "a="; for (char q : r) { s += q; s += 'z'; } s += ";b=2"; break; case 6: s = "b=2;" + r + "a=1"; break; default: s = "b=2;a=1" + r; } check(c, s); }; out.push_back(p); }
}
