// C19: address lists, generated from the grammar together with the addresses they contain.
#include "lib.hpp"
using namespace mc;
using std::string;
using std::vector;
const char* mc::property_id = "C19";

// what may stand between any two tokens
static const vector<string> GAP = {"", " ", "\r\n ", "(c)", " (a (nested) b) ", "(\\) \\( \\\\ \\\"x)", "(\"<,;@>)", "\t(x)\r\n (y)(z)", "()", "((a)(b(c)))", "(\xff\xe5)"};
struct Part { string text, value; };
static const vector<Part> LOCAL = {{"ab", "ab"}, {"a.b+c", "a.b+c"}, {"\"q\"", "q"}, {"\"q r,s\"", "q r,s"}, {"\"q\\\"r\"", "q\"r"}, {"\"q\\\\\"", "q\\"}, {"\"<x>(y);\"", "<x>(y);"}, {"\"a@b\"", "a@b"}, {"\"\xff\"", "\xff"}, {"\"\\q\\ \"", "q "}, {"\xc3\xa5", "\xc3\xa5"}, {"a\\b", "a\\b"}};
static const vector<Part> DOMAIN_ = {{"x.com", "x.com"}, {"[1.2.3.4]", "[1.2.3.4]"}, {"b", "b"}, {"\xc3\xa5.se", "\xc3\xa5.se"}};
static const vector<string> NAME = {"", "Joe", "Joe Q. Public", "\"Joe\"", "\"Doe, Joe\"", "\"a@b\"", "\"x <y@z>\"", "Doe, Joe", "A, B, C", "\"D\", Joe", "\"es\\\"c\\\\\"", "=?utf-8?Q?x?=", "Joe \"the\" D", "J:x", "\"\"", "\"((\"", "O'N"};
static string mailbox(Ctx& c, string& value) {
    const Part& l = c.dev(LOCAL, "local"); const Part& d = c.dev(DOMAIN_, "domain"); value = l.value + "@" + d.value;
    string addr = l.text + c.dev(GAP, "before @") + "@" + c.dev(GAP, "after @") + d.text;
    if (c.choose(2)) { string n = c.dev(NAME, "name"); string g1 = c.dev(GAP, "before <"); if (n.empty() || g1.empty()) {} return c.dev(GAP, "start") + n + g1 + "<" + c.dev(GAP, "after <") + addr + c.dev(GAP, "before >") + ">" + c.dev(GAP, "end"); }
    return c.dev(GAP, "start") + addr + c.dev(GAP, "end");
}
static string run(const string& s, string& cls, string* what = nullptr) { string o; cls = lib::classify([&] { for (auto& a : DKIM::Tokenizer::ParseAddressList(s)) o += "<" + a + ">"; }, what); return o; }
static void check(Ctx& c, const string& s, const string& want) {
    string cls, what, got = run(s, cls, &what); c.transition(); c.validated(); c.state(s); c.note(show(s)); c.sample(show(s) + " -> " + show(got)); c.outcome(got);
    c.require(cls.empty(), "refused", "the list " + show(s, 2000) + " was refused: " + what); c.eq(got, want, "addresses", "addresses of " + show(s, 2000));
}
static string gen(Ctx& c, int n, string& want) {
    static const vector<string> SEP = {",", ";", ", ", ",\r\n ", ",,", " ; (c) "}; string s; want.clear();
    for (int i = 0; i < n; i++) { if (i) s += c.dev(SEP, "separator"); string v; s += mailbox(c, v); want += "<" + v + ">"; }
    if (n) { int t = c.deviate(3, "tail"); if (t == 1) s += ","; if (t == 2) s += "; "; }
    return s;
}
// is the text inside a quoted string, comment or angle bracket at its end?
static bool open(const string& s) {
    bool angle = false; for (size_t i = 0; i < s.size();) { char ch = s[i++];
        if (ch == '"') { for (;;) { if (i >= s.size()) return true; if (s[i] == '\\') { i++; if (i >= s.size()) return true; i++; continue; } if (s[i++] == '"') break; } }
        else if (ch == '(') { int d = 1; while (d) { if (i >= s.size()) return true; if (s[i] == '\\') { i++; if (i >= s.size()) return true; i++; continue; } if (s[i] == '(') d++; if (s[i] == ')') d--; i++; } }
        else if (ch == '<') angle = true; else if (ch == '>') angle = false; }
    return angle;
}
void mc::phases(vector<Phase>& out, bool th) {
    for (int n = 1; n <= (th ? 4 : 3); n++) { Phase p; p.name = "list" + std::to_string(n); p.bound = th ? (n == 1 ? 5 : n == 2 ? 4 : 3) : (n == 1 ? 4 : 2);
        p.what = "lists of " + std::to_string(n) + " mailboxes, bare or in angle brackets, with up to " + std::to_string(p.bound) + " unusual parts out of: 12 local parts, 4 domains, 17 display names, 11 kinds of comments and white space in every gap, 6 separators, trailing separators";
        p.body = [n](Ctx& c) { string want, s = gen(c, n, want); check(c, s, want); }; p.split = 5; out.push_back(p); }
    { Phase p; p.name = "comments"; int n = th ? 9 : 7; p.what = "every comment text over { ( ) \\ \" a < , NUL-free } up to " + std::to_string(n) + " symbols in a gap: balanced ones disappear, unbalanced ones are refused"; p.body = [n](Ctx& c) { static const vector<string> A = {"(", ")", "\\", "\"", "a", "<"}; string t = c.word(A, 0, n); int at = c.choose(2); string s = at ? "x@(" + t + ")y" : "(" + t + ")x@y"; int d = 1; size_t i = 0; string u = t + ")"; while (d && i < u.size()) { if (u[i] == '\\') { i += 2; continue; } if (u[i] == '(') d++; if (u[i] == ')') d--; i++; } if (d == 0 && i == u.size()) { check(c, s, "<x@y>"); return; } if (!open(s)) return; string cls, got = run(s, cls); c.transition(); c.validated(); c.state(s); c.require(cls == "permerror", "unterminated", show(s) + " gave " + got); c.outcome(cls); }; out.push_back(p); }
    { Phase p; p.name = "quoted"; int n = th ? 8 : 6; p.what = "every quoted text over { \\ \" a , ; < ( @ } up to " + std::to_string(n) + " symbols as a local part and as a display name"; p.body = [n](Ctx& c) { static const vector<string> A = {"\\", "\"", "a", ",", "<", "(", "@"}; string t = c.word(A, 0, n), v; bool ok = true; size_t i = 0; for (; i < t.size(); i++) { if (t[i] == '\\') { i++; if (i >= t.size()) { ok = false; break; } v += t[i]; } else if (t[i] == '"') { ok = false; break; } else v += t[i]; } int w = c.choose(2); string s = w ? "\"" + t + "\" <x@y>" : "\"" + t + "\"@y"; if (ok) { check(c, s, w ? "<x@y>" : "<" + v + "@y>"); return; } if (!open(s)) return; string cls, got = run(s, cls); c.transition(); c.validated(); c.state(s); c.require(cls == "permerror", "unterminated", show(s) + " gave " + got); c.outcome(cls); }; out.push_back(p); }
    { Phase p; p.name = "errors"; p.bound = th ? 2 : 1; p.what = "every prefix of every list of two mailboxes (unterminated quotes, comments and brackets are refused, others not), and NUL in every place"; p.body = [](Ctx& c) { string want, s = gen(c, 2, want); for (size_t k = 0; k <= s.size(); k++) { string t = s.substr(0, k), cls, what, got = run(t, cls, &what); c.transition(); c.validated(); c.state(t); bool o = open(t); if (o) c.require(cls == "permerror", "unterminated", show(t) + " gave " + cls + got); else if (t.find('"') == string::npos && (t.empty() || t.back() != '\r')) // an item that is only a quoted string is no mailbox
                   c.require(cls.empty(), "refused", show(t) + " was refused: " + what); c.outcome(cls); if (k < s.size()) { t = s; t[k] = '\0'; got = run(t, cls, &what); c.require(cls == "permerror", "nul", show(t) + " gave " + got); t = s; t.insert(k, 1, '\0'); got = run(t, cls, &what); c.require(cls == "permerror", "nul", show(t) + " gave " + got); c.transition(2); c.validated(2); } } c.sample(show(s)); }; p.split = 5; out.push_back(p); }
    { Phase p; p.name = "long"; p.what = "lists of 1 to 600 mailboxes, deep comments, long strings"; p.body = [](Ctx& c) { int n = 1 + c.choose(600), k = c.choose(4); string s, want; if (k == 0) for (int i = 0; i < n; i++) { string a = fmt("u%d@d%d.com", i, n); s += (i ? "," : "") + (i % 2 ? a : "N " + std::to_string(i) + " <" + a + ">"); want += "<" + a + ">"; } if (k == 1) { s = string((size_t)n * 10, '(') + "x" + string((size_t)n * 10, ')') + "a@b"; want = "<a@b>"; } if (k == 2) { s = "\"" + string((size_t)n * 50, 'q') + "\"@b"; want = "<" + string((size_t)n * 50, 'q') + "@b>"; } if (k == 3) { for (int i = 0; i < n; i++) s += "w, "; s += "<a@b>"; want = "<a@b>"; } check(c, s, want); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "quoted-items"; p.bound = th ? 2 : 1; p.what = "lists of one to " + string(th ? "two" : "three") + " items, each a mailbox or a quoted string that quotes a list of up to two mailboxes (once or twice over), with up to " + std::to_string(p.bound) + " unusual parts"; p.body = [](Ctx& c) { int n = 1 + c.choose(c.thorough ? 2 : 3); string s, want; for (int i = 0; i < n; i++) { if (i) s += ", "; int k = c.choose(3); string v, t; if (!k) { t = mailbox(c, v); want += "<" + v + ">"; } else { t = gen(c, 1 + c.choose(2), v); want += v; for (int q = 0; q < k; q++) { string e; for (char x : t) { if (x == '"' || x == '\\') e += '\\'; e += x; } t = "\"" + e + "\""; } t = c.dev(GAP, "before quoted") + t + c.dev(GAP, "after quoted"); } s += t; } check(c, s, want); }; p.split = 5; out.push_back(p); }
}
