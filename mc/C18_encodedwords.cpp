// C18: RFC 2047 encoded words.
#include "lib.hpp"
using namespace mc;
using std::string;
using std::vector;
const char* mc::property_id = "C18";

// What RFC 2047 leaves no doubt about is fixed; four points on which decoders differ are flags,
// and a result is accepted if it is consistent with one setting of them for the whole text.
struct Flags { bool adjacent; /* a word may directly follow other text */ bool spaces; /* white space inside a word is tolerated (and dropped from Q text) */ bool empties; /* empty charset or text */ bool dropws; /* DEVIATION: white space between plain text and a following word is dropped */ };
struct Word { string text; size_t end; bool doubtful = false; };
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static bool word(const string& s, size_t p, const Flags& f, Word& w) {
    if (s.compare(p, 2, "=?") != 0) return false;
    size_t a = s.find('?', p + 2); if (a == string::npos) return false;
    size_t b = s.find('?', a + 1); if (b == string::npos) return false;
    size_t c = s.find('?', b + 1); if (c == string::npos || c + 1 >= s.size() || s[c + 1] != '=') return false;
    if (c + 2 < s.size() && !ws(s[c + 2])) return false;
    string charset = s.substr(p + 2, a - p - 2), enc = s.substr(a + 1, b - a - 1), text = s.substr(b + 1, c - b - 1);
    if (!f.empties && (charset.empty() || text.empty())) return false;
    if (!f.spaces) for (char x : charset + text) if (ws(x)) return false;
    w.end = c + 2;
    if (enc == "q" || enc == "Q") return ref::qpdec(text, w.text, true);
    if (enc == "b" || enc == "B") { if (!ref::b64dec(ref::nows(text), w.text)) { w.doubtful = true; w.text.clear(); } return true; }
    return false;
}
// text may contain CR and LF only in CRLF followed by white space
static string decode(const string& in, const Flags& f, bool& doubtful) {
    size_t b = 0, e = in.size(); while (b < e && ws(in[b])) b++; while (e > b && ws(in[e - 1])) e--;
    string s = in.substr(b, e - b), o; bool prevword = false, start = true;
    for (size_t p = 0; p < s.size();) {
        string space; bool delim = start; start = false;
        while (p < s.size() && ws(s[p])) { if (s[p] == ' ' || s[p] == '\t') space += s[p]; delim = true; p++; }
        Word w;
        if ((delim || f.adjacent) && word(s, p, f, w)) { if (!prevword && !f.dropws) o += space; o += w.text; doubtful |= w.doubtful; p = w.end; prevword = true; }
        else { o += space; o += s[p++]; prevword = false; }
    }
    return o;
}
static void check(Ctx& c, const string& s) {
    string got, what, cls = lib::classify([&] { got = DKIM::Conversion::EncodedWord::Decode(s); }, &what);
    c.transition(); c.validated(); c.state(s); c.note(show(s) + " -> " + show(got)); c.sample(show(s) + " -> " + show(got));
    c.require(cls.empty(), "refused", "decoding " + show(s) + " raised " + what);
    bool deviant = false, doubtful = false; string first;
    for (int dev = 0; dev < 2; dev++) for (int k = 0; k < 8; k++) {
        Flags f{(k & 1) != 0, (k & 2) != 0, (k & 4) != 0, dev == 1}; string w = decode(s, f, doubtful); if (!dev && !k) first = w;
        if (w == got) { if (dev) deviant = true; else { c.outcome(got); return; } break; } }
    if (doubtful) { c.outcome("damaged base64"); return; } // decoding of text that is not base64 is not prescribed
    if (deviant) c.fail("ws-before-encoded-word", "white space between text and a following encoded word is dropped: " + show(s) + " gives " + show(got) + " instead of " + show(first));
    c.fail("decode", show(s, 2000) + " decodes to " + show(got, 2000) + ", expected " + show(first, 2000));
}
void mc::phases(vector<Phase>& out, bool th) {
    auto words = [&](const char* name, const vector<string>& A, int n) { Phase p; p.name = name; string al; for (auto& a : A) al += "{" + show(a) + "} "; p.what = "every sequence of up to " + std::to_string(n) + " of " + al; p.body = [A, n](Ctx& c) { check(c, c.word(A, 0, n)); }; out.push_back(p); };
    words("sequences", {"a", " ", "=?utf-8?Q?b=20c?=", "=?x?B?ZGU=?=", "\r\n\t", "=", "?", "=?x?q?_?=", "=?x?Q?=3D?="}, th ? 7 : 6);
    words("fragments", {"=?", "?=", "?", "Q", "x", "=", " ", "=41", "?b?"}, th ? 8 : 6);
    words("interior", {"=?x?Q?", "?=", "a", "_", "=41", "=4", "=3d", "\x80", ";", " ", "\r\n ", "=?x?B?"}, th ? 6 : 5);
    { Phase p; p.name = "base64"; int n = th ? 7 : 6; p.what = "encoded words with every base64 text over {A, Z, 9, /, =, +} up to length " + std::to_string(n) + ", with text around"; p.body = [n](Ctx& c) { static const vector<string> A = {"A", "Z", "9", "/", "=", "+"}; int w = c.choose(3); string t = c.word(A, 0, n); check(c, (w == 1 ? "x " : "") + ("=?utf-8?B?" + t) + "?=" + (w == 2 ? " y" : "")); }; out.push_back(p); }
    { Phase p; p.name = "octets"; p.what = "every octet value (printable or not, except line ends) in every place of an encoded word, as text around it, and escaped as =XX"; p.body = [](Ctx& c) { int x = c.choose(256); if (x == '\r' || x == '\n') return; string ch(1, (char)x); int w = c.choose(9); static char hex[8]; snprintf(hex, 8, "=%02X", x); string s; switch (w) { case 0: s = "=?u" + ch + "?Q?a?="; break; case 1: s = "=?u?" + ch + "?a?="; break; case 2: s = "=?u?Q?a" + ch + "b?="; break; case 3: s = "=?u?Q?a?=" + ch; break; case 4: s = ch + "=?u?Q?a?="; break; case 5: s = "a" + ch + "b"; break; case 6: s = string("=?u?Q?") + hex + "?="; break; case 7: s = "=?u?B?" + ref::b64enc(ch + "z") + "?="; break; case 8: s = "=?u?" + ch + "?YQ==?= =?u?Q?b?="; break; } check(c, s); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "long"; p.what = "long texts: 1 to 400 words, long words up to 20000 octets, many unfinished words"; p.body = [](Ctx& c) { int k = c.choose(4), n = 1 + c.choose(400); string s; if (k == 0) for (int i = 0; i < n; i++) s += (i ? (i % 3 ? " " : "\r\n ") : "") + string("=?utf-8?Q?") + (char)('a' + i % 26) + "=20?="; if (k == 1) s = "=?x?B?" + ref::b64enc(string((size_t)n * 50, 'q')) + "?= t"; if (k == 2) for (int i = 0; i < n; i++) s += "=?x?Q?a"; if (k == 3) { for (int i = 0; i < n; i++) s += "word =? "; s += "=?x?Q?end?="; } check(c, s); }; p.split = 2; out.push_back(p); }
}
