// C08: splitting a message into header fields and body.
#include "lib.hpp"
#include "stream.hpp"
using namespace mc; using std::string; using std::vector;
const char* mc::property_id = "C08";
static string dump(const ref::Msg& m) { string o = fmt("body=%ld", m.body); for (auto& f : m.h) o += " [" + show(f.name) + " " + show(f.raw) + fmt(" @%zu]", f.colon ? f.valueOff : 0); return o; }
static string dump(const DKIM::Message& m) { string o = fmt("body=%ld", (long)m.GetBodyOffset()); for (auto& f : m.GetHeaders()) o += " [" + show(f->GetName()) + " " + show(f->GetHeader()) + fmt(" @%zu]", f->GetHeader().find(':') == string::npos ? 0 : f->GetValueOffset()); return o; }
static void check(Ctx& c, const string& m, size_t start = 0) {
    std::istringstream in(m); in.seekg((std::streamoff)start); DKIM::Message p; while (p.ParseLine(in) && !p.IsDone()) c.transition();
    string want = dump(ref::split(m, start)), got = dump(p);
    c.require(p.IsDone(), "done", "parser is not done at the end"); c.eq(got, want, "split", "message " + show(m));
    if (p.GetBodyOffset() >= 0) { // what follows is the body, untouched
        size_t o = (size_t)p.GetBodyOffset(); c.require(o >= start && o <= m.size() && o > 0 && m[o - 1] == '\n', "offset", "body offset inside a line"); }
    c.validated(); c.state(m); c.outcome(got);
}
static string tocrlf(const string& s) { string o; for (char ch : s) { if (ch == '\n') o += '\r'; o += ch; } return o; }
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "words"; int n = th ? 9 : 7; p.what = "every message over {a,colon,LF,SP,CR,TAB} up to length " + std::to_string(n);
      p.body = [n](Ctx& c) { static const vector<string> A = {"a", "\n", ":", " ", "\r", "\t"}; string s = c.word(A, 0, n); c.sample(show(s)); check(c, s); }; out.push_back(p); }
    { Phase p; p.name = "lines"; int n = th ? 6 : 4; p.what = "every sequence of up to " + std::to_string(n) + " line forms (fields, continuations, blank, white space only, no colon) with CRLF or LF ends, and with or without a final line end; LF and CRLF give the same fields";
      p.body = [n](Ctx& c) { static const vector<string> L = {"A: 1", " x", "", "\ty z", "B :2", " ", "noc", "C:", ":v", "\r"}; string s; int k = c.choose(n + 1); for (int i = 0; i < k; i++) { s += c.pick(L); if (i + 1 < k || c.choose(2)) s += c.choose(2) ? "\n" : "\r\n"; }
          c.sample(show(s)); check(c, s); 
          string lf; for (size_t i = 0; i < s.size(); i++) if (!(s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n')) lf += s[i];
          // (only when removing CRs did not create or destroy line ends)
          if (lf.find('\r') == string::npos) { std::istringstream i1(lf), i2(tocrlf(lf)); DKIM::Message a, b; while (a.ParseLine(i1) && !a.IsDone()) {} while (b.ParseLine(i2) && !b.IsDone()) {}
              string x = dump(a), y = dump(b); c.eq(x.substr(x.find(' ') == string::npos ? x.size() : x.find(' ')), y.substr(y.find(' ') == string::npos ? y.size() : y.find(' ')), "lf-crlf", "LF versus CRLF for " + show(lf)); c.require((a.GetBodyOffset() < 0) == (b.GetBodyOffset() < 0), "lf-crlf", "body presence"); } };
      out.push_back(p); }
    { Phase p; p.name = "octets"; p.what = "every octet value at the start of a line, in a name, in a value, at the end of a line, and in the body; pairs of octets inside a line; and every line of one or two octets, between two fields or first in the message";
      p.body = [](Ctx& c) { int w = c.choose(8); char x = (char)c.choose(256); string s; if (w == 0) s = string(1, x) + "A: b\n\nbody"; else if (w == 1) s = string("A") + x + "B: c\r\n d\r\n\r\n"; else if (w == 2) s = string("A: b\r\nB: ") + x + "\r\nC: d\r\n\r\nq"; else if (w == 3) s = string("A: b\n") + x + "B: c\n\nx"; else if (w == 4) s = string("A: b\r\n\r\n") + x;
          else if (w >= 6) { string l(1, x); int two = c.choose(257); if (two) l += (char)(two - 1); s = w == 6 ? "A: b\r\n" + l + "\r\nB: c\r\n\r\nbody" : l + "\nB: c\n d\n\nbody"; }
          else { char y = (char)c.choose(256); s = string("A: b") + x + y + "c: d\n\nx"; } c.sample(show(s)); check(c, s); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "long"; p.what = "line lengths and line counts around powers of two and stream buffer sizes";
      p.body = [](Ctx& c) { static const vector<int> N = {1, 127, 128, 998, 1023, 1024, 4095, 4096, 8191, 8192, 65537, 200000}; int n = c.pick(N); int w = c.choose(5); string s; if (w == 0) s = "A: " + string((size_t)n, 'x') + "\r\n\r\nb"; else if (w == 1) s = string((size_t)n, 'N') + ": v\n\n"; else if (w == 2) { for (int i = 0; i < n && i < 5000; i++) s += "A: b\r\n"; s += "\r\nz"; } else if (w == 3) { s = "A: b"; for (int i = 0; i < n && i < 5000; i++) s += "\r\n c"; s += "\r\n\r\nz"; } else s = "A:" + string((size_t)n, ' ') + "\r\n" + string((size_t)n, '\t') + "x\r\n\r\n"; check(c, s); }; p.split = 1; out.push_back(p); }
    { Phase p; p.name = "offset"; p.what = "messages that start at a stream offset: every message over {a,colon,LF,SP,CR} up to length 6 after prefixes of 0..3 octets";
      p.body = [](Ctx& c) { static const vector<string> A = {"a", "\n", ":", " ", "\r"}; static const vector<string> P = {"", "x", "\n\n", "q:\n"}; string pre = c.pick(P); string s = c.word(A, 0, 6); check(c, pre + s, pre.size()); }; out.push_back(p); }
    { Phase p; p.name = "far"; p.what = "messages at stream positions below, at and beyond 2^31, 2^32, 2^40 and near 2^63: every message over {a,colon,LF,CR} up to length 6; the body offset is a stream position";
      p.body = [](Ctx& c) { static const vector<string> A = {"a", "\n", ":", "\r"}; static const long B[] = {1l << 31, 1l << 32, 1l << 40, 9223372036854775000l}; long far = B[c.choose(4)] - c.choose(8); string s = c.word(A, 0, 6); PlanBuf b(s); b.far = far; std::istream in(&b); DKIM::Message p; while (p.ParseLine(in) && !p.IsDone()) c.transition(); ref::Msg want = ref::split(s); if (want.body >= 0) want.body += far; c.eq(dump(p), dump(want), "far", fmt("at position %ld message ", far) + show(s)); c.validated(); c.state(s + fmt("|%ld", far)); c.outcome(dump(p)); c.sample(show(s)); }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "reset"; p.what = "a parser object reset after each of a set of messages (parsed completely or partially) parses each next message like a fresh one";
      p.body = [](Ctx& c) { static const vector<string> M = {"A: b\r\n\r\nbody", "A: b", "", "\n", " x\n y\n", "A: b\n c", "nocolon\n\n", "A: b\nB: c\n"}; DKIM::Message m; string tr; for (int k = 0; k < 3; k++) { const string& s = c.pick(M); int part = c.choose(3); std::istringstream in(s); if (part == 0 || k == 2) while (m.ParseLine(in) && !m.IsDone()) {} else for (int i = 0; i < part; i++) { m.ParseLine(in); if (m.IsDone()) break; }
              tr += show(s); if (k == 2) c.eq(dump(m), dump(ref::split(s)), "reset", "after reset, history " + tr); m.Reset(); c.require(m.GetHeaders().empty() && !m.IsDone(), "reset-state", "Reset leaves state behind"); c.transition(); } c.validated(); c.state(tr); c.outcome(tr); };
      out.push_back(p); }
}
