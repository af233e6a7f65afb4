// C17: base64 and quoted-printable codecs.
#include "lib.hpp"
using namespace mc; using std::string; using std::vector;
using DKIM::Conversion::QuotedPrintable;
const char* mc::property_id = "C17";
static void b64(Ctx& c, const string& d) {
    string e = DKIM::Conversion::Base64_Encode(d); c.eq(e, ref::b64enc(d), "b64-encode", "base64 of " + show(d)); string back = DKIM::Conversion::Base64_Decode(e); c.eq(back, d, "b64-decode", "base64 round trip"); c.transition(2); c.validated(2); c.state(d); c.outcome(e);
}
static bool safe(char ch) { return ch >= 0x21 && ch <= 0x7e && ch != '=' && ch != ';'; }
static void qp(Ctx& c, const string& d) {
    string e = QuotedPrintable::Encode(d); for (size_t i = 0; i < e.size(); i++) { if (e[i] == '=') { c.require(i + 2 < e.size() + 0 && isxdigit((unsigned char)e[i + 1]) && isxdigit((unsigned char)e[i + 2]) && !islower((unsigned char)e[i + 1]) && !islower((unsigned char)e[i + 2]), "qp-escape", "bad escape in " + show(e)); i += 2; } else c.require(safe(e[i]), "qp-unsafe", "unsafe octet in " + show(e) + " for " + show(d)); }
    string back, cls = lib::classify([&] { back = QuotedPrintable::Decode(e); }); c.require(cls.empty(), "qp-refused", "decoder refuses the encoder's output " + show(e)); c.eq(back, d, "qp-roundtrip", "quoted-printable round trip"); c.transition(2); c.validated(2); c.state(d); c.outcome(e);
}
static void qpd(Ctx& c, const string& s) {
    for (int us = 0; us < 2; us++) { string got, want; bool ok = ref::qpdec(s, want, us); string cls = lib::classify([&] { got = us ? QuotedPrintable::Decode(s, true) : QuotedPrintable::Decode(s); });
        c.require(cls == (ok ? "" : "permerror"), ok ? "qp-valid-refused" : "qp-invalid-accepted", show(s) + fmt(" (mode %d): ", us) + (cls.empty() ? "accepted" : cls)); if (ok) c.eq(got, want, "qp-decode", "decoding " + show(s)); c.outcome(ok ? got : "refused"); c.transition(); c.validated(); }
    c.state(s);
}
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "b64-short"; p.what = "every octet string of length 0..2 and every string of length 3 over 40 octet values"; p.body = [](Ctx& c) { int n = c.choose(4); string s; if (n < 3) for (int i = 0; i < n; i++) s += (char)c.choose(256); else { static const int v[] = {0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13, 15, 16, 31, 32, 33, 43, 47, 48, 61, 63, 64, 65, 90, 95, 97, 122, 126, 127, 128, 129, 191, 192, 193, 223, 224, 251, 254, 255}; for (int i = 0; i < 3; i++) s += (char)v[c.choose(40)]; } b64(c, s); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "b64-length"; int n = th ? 9000 : 3000; p.what = "strings of every length 0.." + std::to_string(n) + " in six fillings, and lengths around 8192, 16384, 65536"; p.body = [n](Ctx& c) { static const int big[] = {4095, 4096, 4097, 8191, 8192, 8193, 12288, 16383, 16384, 16385, 65535, 65536, 65537, 100000}; int l = c.choose(n + 14); int len = l < n ? l : big[l - n]; int f = c.choose(6); string s; for (int i = 0; i < len; i++) s += (char)(f == 0 ? 0 : f == 1 ? 255 : f == 2 ? 'A' : f == 3 ? i : f == 4 ? (i * 7 + (i >> 8)) : (i % 3 == 0 ? '\n' : 0xfb)); b64(c, s); }; p.split = 1; out.push_back(p); }
    { Phase p; p.name = "qp-encode"; p.what = "every octet string of length 0..2 and length 3 over 24 octet values, and long strings"; p.body = [](Ctx& c) { int n = c.choose(5); string s; if (n < 3) for (int i = 0; i < n; i++) s += (char)c.choose(256); else if (n == 3) { static const int v[] = {0, 9, 10, 13, 32, 33, 34, 43, 48, 57, 58, 59, 60, 61, 62, 63, 64, 65, 95, 126, 127, 128, 192, 255}; for (int i = 0; i < 3; i++) s += (char)v[c.choose(24)]; } else { int len = 1 + c.choose(400); for (int i = 0; i < len; i++) s += (char)(i * 5 + len); } qp(c, s); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "qp-decode"; int n = th ? 6 : 5; p.what = "every text over {=,A,0,a,F,9,G,SP,CR,LF,TAB,underscore,z} up to length " + std::to_string(n) + ", both modes"; p.body = [n](Ctx& c) { static const vector<string> A = {"=", "A", "0", " ", "\r", "\n", "_", "a", "F", "9", "G", "\t", "z"}; string s = c.word(A, 0, n); c.sample(show(s)); qpd(c, s); }; out.push_back(p); }
    { Phase p; p.name = "qp-decode-octets"; p.what = "every octet and every pair of octets, alone, after '=', and after '=4'"; p.body = [](Ctx& c) { int w = c.choose(4); char x = (char)c.choose(256); string s = w == 0 ? string(1, x) : w == 1 ? string("=") + x + "1" : w == 2 ? string("=4") + x : string(1, x) + (char)c.choose(256); qpd(c, s); int y = w == 1 ? c.choose(256) : 0; if (w == 1) qpd(c, string("=") + x + (char)y + "q"); }; p.split = 2; out.push_back(p); }
}
