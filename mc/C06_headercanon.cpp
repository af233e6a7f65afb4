// C06: header canonicalization against the reference, for every field over a small alphabet,
// every octet value in context, long runs, and through real messages.
#include "lib.hpp"
using namespace mc; using std::string; using std::vector;
const char* mc::property_id = "C06";
static string filter(const string& raw, bool relaxed, string& cls) {
    string o; cls = lib::classify([&] { DKIM::Conversion::CanonicalizationHeader h(relaxed ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE); o = h.FilterHeader(raw); }); return o;
}
static bool bareCR(const string& s) { for (size_t i = 0; i < s.size(); i++) if (s[i] == '\r' && (i + 1 >= s.size() || s[i + 1] != '\n')) return true; return false; }
static void check(Ctx& c, const string& raw) {
    string cls, got = filter(raw, false, cls);
    c.require(cls.empty(), "simple-error", "simple canonicalization of " + show(raw) + " raised " + cls); c.eq(got, raw, "simple", "simple canonical form");
    got = filter(raw, true, cls); c.transition(2); c.state(raw);
    if (raw.find(':') == string::npos) { c.require(!cls.empty(), "no-colon", "relaxed canonicalization accepted a field without a colon: " + show(raw)); c.outcome("no-colon"); return; }
    if (bareCR(raw)) { c.require(cls == "permerror", "bare-cr", "bare CR in " + show(raw) + " gave " + cls + " " + show(got)); c.outcome("bare-cr"); return; }
    if (ref::trim4(raw.substr(0, raw.find(':'))).empty()) { c.outcome("no-name"); return; } // no legal field: only termination and memory safety
    string want = ref::header_canon(raw, true);
    c.require(cls.empty(), "relaxed-error", "relaxed canonicalization of " + show(raw) + " raised " + cls);
    c.eq(got, want, "relaxed", "relaxed canonical form of " + show(raw));
    string again = filter(got, true, cls); c.require(cls.empty(), "idempotent", "second application failed"); c.eq(again, got, "idempotent", "relaxed canonicalization applied to its own output");
    // a canonicalizer object can be switched and reused
    DKIM::Conversion::CanonicalizationHeader h(DKIM::DKIM_C_SIMPLE); h.SetType(DKIM::DKIM_C_RELAXED); c.eq(h.FilterHeader(raw), want, "settype", "after SetType"); h.SetType(DKIM::DKIM_C_SIMPLE); c.eq(h.FilterHeader(raw), raw, "settype", "after SetType back");
    c.validated(2); c.outcome(got);
}
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "words"; int n = th ? 8 : 6; p.what = "every field over {a,B,colon,SP,TAB,CRLF SP,CRLF TAB} up to length " + std::to_string(n) + ", both modes";
      p.body = [n](Ctx& c) { static const vector<string> A = {"a", ":", " ", "B", "\t", "\r\n ", "\r\n\t"}; string s = c.word(A, 0, n); c.sample(show(s)); check(c, s); }; out.push_back(p); }
    { Phase p; p.name = "values"; int n = th ? 8 : 6; p.what = "fields with name from 6 forms and every value over {x,Y,colon,SP,TAB,CRLF SP,CR} up to length " + std::to_string(n);
      p.body = [n](Ctx& c) { static const vector<string> N = {"Subject:", "SUBJECT :", "sUb\t:", "X-\xc9-a\r\n :", " Sub:", "A b \t c:"}; static const vector<string> A = {"x", " ", "Y", ":", "\t", "\r\n ", "\r"}; string s = c.pick(N) + c.word(A, 0, n); c.sample(show(s)); check(c, s); }; out.push_back(p); }
    { Phase p; p.name = "octets"; p.what = "every octet value at the start, in the middle and at the end of the name and of the value, singly and in pairs";
      p.body = [](Ctx& c) { int w = c.choose(8); int x = c.choose(256); char ch = (char)x; if (ch == '\n') { return; } string s;
          if (w == 0) s = string("A") + ch + "b: v"; else if (w == 1) s = string("A:") + ch + "v"; else if (w == 2) s = string("A: v") + ch + "w"; else if (w == 3) s = string("A: v") + ch;
          else if (w == 4) s = string("Ab") + ch + ": v"; else if (w == 5) s = string("Ab") + ch + " : v"; else if (w == 6) s = ch + string("Ab: v");
          else { int y = c.choose(256); if (y == '\n') return; s = string("A: ") + ch + (char)y + "z"; }
          c.sample(show(s)); check(c, s); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "long"; p.what = "runs of 1..70000 repeated units in names and values and between tokens";
      p.body = [](Ctx& c) { static const vector<string> U = {" ", "\t", "\r\n ", " \r\n\t ", "x", "x ", "x\r\n ", ":"}; static const vector<int> N = {1, 3, 255, 256, 998, 1023, 1024, 4096, 70000}; string run; const string& u = c.pick(U); int n = c.pick(N); for (int i = 0; i < n; i++) run += u;
          int w = c.choose(4); string s = w == 0 ? "A:" + run : w == 1 ? "A:" + run + "z" : w == 2 ? "A: y" + run + "z" : "A: y" + run; check(c, s); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "names"; p.what = "names of every length up to 300 and at powers of two up to 65536, of capitals throughout or with one capital at the start, the end, or before the end";
      p.body = [](Ctx& c) { int k = c.choose(316), n = k < 300 ? k + 1 : k < 308 ? (1 << (k - 299 + 8)) : (1 << (k - 307 + 8)) + 1; int w = c.choose(5); string s;
          for (int i = 0; i < n; i++) { bool cap = w == 0 || (w == 1 && i == 0) || (w == 2 && i == n - 1) || (w == 3 && i == n - 2) || (w == 4 && i % 3 == 1); s += (char)((cap ? 'A' : 'a') + i % 26); }
          check(c, s + (c.choose(2) ? ": V" : " \t:V")); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "pairs"; p.what = "pairs of fields from a set of variants: canonical forms are equal exactly when the reference forms are";
      p.body = [](Ctx& c) { static const vector<string> A = {"", " ", "\t", "\r\n ", "x", "X"}; string a1, b1; auto mk = [&](string& s) { s = c.choose(2) ? "Ab" : "aB"; s += c.choose(2) ? "" : " "; s += ":"; s += c.pick(A); s += "v"; s += c.pick(A); s += "w"; s += c.pick(A); }; mk(a1); mk(b1);
          string c1, c2, x = filter(a1, true, c1), y = filter(b1, true, c2); c.require(c1.empty() && c2.empty(), "pair-error", "error");
          bool same = ref::header_canon(a1, true) == ref::header_canon(b1, true); c.require((x == y) == same, "pair", show(a1) + " and " + show(b1)); c.transition(); c.validated(); c.outcome(same ? "same" : "different"); c.state(a1 + "|" + b1); };
      p.split = 6; out.push_back(p); }
    { Phase p; p.name = "in-message"; p.what = "every field over {a,colon,SP,TAB,CRLF SP} up to length 5 inside a message, as extracted by the parser";
      p.body = [](Ctx& c) { static const vector<string> A = {"a", " ", "\r\n ", "\t", ":"}; string f = "Z:" + c.word(A, 0, 5); std::istringstream in("From: x\r\n" + f + "\r\nTo: y\r\n\r\nbody"); DKIM::Message m; while (m.ParseLine(in) && !m.IsDone()) {}
          string got; for (auto& h : m.GetHeaders()) if (h->GetName() == "Z") got = h->GetHeader(); c.eq(got, f, "extract", "field as extracted"); check(c, got); }; out.push_back(p); }
}
