// C20: colon separated lists and white space readers.
#include "lib.hpp"
using namespace mc; using std::string; using std::vector;
using namespace DKIM::Tokenizer;
const char* mc::property_id = "C20";
static bool W(char ch) { return ch == ' ' || ch == '\t'; }
// reference unit reader: returns the set of acceptable results; refused = permanent error expected
static vector<string> unit(const string& s, int type, bool& refused) {
    refused = false; auto crlf = [&](size_t i) { if (i >= s.size() || s[i] != '\r') return 0; if (i + 1 < s.size() && s[i + 1] == '\n') return 1; return -1; };
    if (type == READ_WSP) return {!s.empty() && W(s[0]) ? s.substr(0, 1) : ""};
    if (type == READ_WSP_LOOSE) return {!s.empty() && (W(s[0]) || s[0] == '\r' || s[0] == '\n') ? s.substr(0, 1) : ""};
    if (type == READ_CRLF) { int k = crlf(0); if (k < 0) { refused = true; return {}; } return {k ? "\r\n" : ""}; }
    size_t i = 0; while (i < s.size() && W(s[i])) i++;
    int k = crlf(i); if (k < 0) { refused = true; return {}; }
    if (!k) return {s.substr(0, i)};
    size_t j = i + 2; if (j >= s.size() || !W(s[j])) { if (i) return {"", s.substr(0, i)}; return {""}; } // line end that is no folding: not consumed
    while (j < s.size() && W(s[j])) j++;
    return {s.substr(0, j)};
}
static void ws(Ctx& c, const string& s) {
    for (int t : {READ_CRLF, READ_WSP, READ_FWS, READ_WSP_LOOSE}) {
        for (int at = 0; at < 2; at++) { // at the start of the stream and after other octets were read
            std::stringstream in(at ? "xy" + s : s); if (at) { in.get(); in.get(); }
            bool refused; auto ok = unit(s, t, refused); string got, cls = lib::classify([&] { got = ReadWhiteSpace(in, (WhiteSpaceType)t); });
            c.transition(); c.validated();
            if (refused) { c.require(cls == "permerror", "bare-cr", "bare CR accepted in " + show(s)); c.outcome("refused"); continue; }
            c.require(cls.empty(), "ws-error", "reading white space of kind " + std::to_string(t) + " from " + show(s) + " raised " + cls);
            bool f = false; for (auto& o : ok) f |= o == got; c.require(f, "ws", "kind " + std::to_string(t) + " from " + show(s) + ": got " + show(got) + " expected " + show(ok[0]));
            in.clear(); string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); c.eq(rest, s.substr(got.size()), "ws-consumed", "stream content after reading " + show(got) + " from " + show(s)); c.outcome(got); } }
    c.state(s);
}
// reference list: folding white space = runs of SP/TAB/CRLF-before-WSP
static bool list(const string& s, vector<string>& out, bool& outside) {
    outside = false; string n; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\r') { if (i + 1 >= s.size() || s[i + 1] != '\n') return false; if (i + 2 >= s.size() || !W(s[i + 2])) { outside = true; } i++; }
    out.clear(); size_t p = 0; auto isws = [&](size_t i) { return W(s[i]) || (s[i] == '\r') || (s[i] == '\n' && i && s[i - 1] == '\r'); };
    while (true) { size_t e = s.find(':', p); bool last = e == string::npos; if (last) e = s.size(); size_t a = p, b = e; while (a < b && isws(a)) a++; while (b > a && isws(b - 1)) b--; if (a == b) { if (last) return true; return false; } out.push_back(s.substr(a, b - a)); if (last) return true; p = e + 1; }
}
static void vl(Ctx& c, const string& s) {
    vector<string> want; bool outside; bool ok = list(s, want, outside); string what; std::list<string> got; string cls = lib::classify([&] { got = ValueList(s); }, &what); c.transition(); c.state(s);
    if (outside) { c.outcome("outside"); return; } // a line end that is no folding cannot occur in a field: only termination is checked
    c.validated(); if (!ok) { c.require(cls == "permerror", "list-accepted", "list " + show(s) + " was accepted"); c.outcome("refused"); return; }
    c.require(cls.empty(), "list-refused", "list " + show(s) + " was refused: " + what); vector<string> g(got.begin(), got.end()); string a, b; for (auto& x : g) a += show(x) + ","; for (auto& x : want) b += show(x) + ","; c.eq(a, b, "list", "values of " + show(s)); c.outcome(a);
}
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "whitespace"; int n = th ? 8 : 7; p.what = "every text over {SP,CR,LF,TAB,a} up to length " + std::to_string(n) + " x four kinds of white space, at the start and inside a stream: result and remaining stream"; p.body = [n](Ctx& c) { static const vector<string> A = {" ", "\r", "\n", "a", "\t"}; string s = c.word(A, 0, n); c.sample(show(s)); ws(c, s); }; out.push_back(p); }
    { Phase p; p.name = "lists"; int n = th ? 8 : 7; p.what = "every list over {a,colon,SP,CRLF SP,B,CR,TAB} up to length " + std::to_string(n); p.body = [n](Ctx& c) { static const vector<string> A = {"a", ":", " ", "\r\n ", "B", "\r", "\t"}; string s = c.word(A, 0, n); c.sample(show(s)); vl(c, s); }; out.push_back(p); }
    { Phase p; p.name = "octets"; p.what = "every octet in every position of a two value list and pairs of octets"; p.body = [](Ctx& c) { int w = c.choose(6); string X(1, (char)c.choose(256)); string s = w == 0 ? X + "from:to" : w == 1 ? "fr" + X + "om:to" : w == 2 ? "from" + X + ":to" : w == 3 ? "from:" + X + "to" : w == 4 ? "from:to" + X : ""; if (w == 5) { string Y(1, (char)c.choose(256)); s = "a" + X + Y + "b:c"; } vl(c, s); for (int t = 0; t < 4; t++) {} ws(c, X); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "long"; p.what = "long values, white space and many values; 1..70000 repeated units"; p.body = [](Ctx& c) { static vector<int> N; if (N.empty()) { for (int i = 1; i <= 300; i++) N.push_back(i); for (int i : {511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 65535, 65536, 70000}) N.push_back(i); } static const vector<string> U = {"a", " ", "a:", "a : ", "\r\n ", "a\r\n ", "\t"}; int n = c.pick(N); const string& u = c.pick(U); string s; for (int i = 0; i < n; i++) s += u; int w = c.choose(3); if (w == 1) s = "x:" + s + ":y"; if (w == 2) s = "x" + s + "y"; vl(c, s); if (n <= 4096 && u != "a" ) ws(c, s); }; p.split = 1; out.push_back(p); }
}
