// C05: body canonicalization.  Every body over a small alphabet, and every short pattern
// placed around every buffer-size boundary, streamed through the real canonicalizer in one
// or several reads, compared with the two-pass reference.
#include "lib.hpp"
using namespace mc; using std::string; using std::vector;
const char* mc::property_id = "C05";

// a streambuf that hands out the text in chunks of the given sizes (then the rest), seekable
struct ChunkBuf : std::streambuf {
    string t; vector<size_t> cut; size_t pos = 0; // pos = offset of egptr
    ChunkBuf(const string& s, const vector<size_t>& c) : t(s), cut(c) { setg(&t[0], &t[0], &t[0]); }
    int_type underflow() override {
        size_t at = (size_t)(gptr() - eback());
        if (at >= t.size()) return traits_type::eof();
        size_t e = t.size(); for (size_t c : cut) if (c > at && c < e) { e = c; }
        setg(&t[0], &t[0] + at, &t[0] + e); return traits_type::to_int_type(*gptr());
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
        off_type b = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (off_type)(gptr() - eback()) : (off_type)t.size();
        o += b; if (o < 0 || o > (off_type)t.size()) return pos_type(off_type(-1));
        setg(&t[0], &t[0] + o, &t[0] + o); return pos_type(o);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
static string run(std::istream& in, DKIM::CanonMode m, ssize_t off, bool lim, size_t n, bool& ok) {
    string out; ok = DKIM::Conversion::CanonicalizationBody(in, m, off, lim, n, [&](const char* p, size_t k) { out.append(p, k); }); return out;
}
static void check(Ctx& c, const string& body, const vector<size_t>& cuts, const string& prefix = "", bool idem = true) {
    for (int m = 0; m < 2; m++) {
        string t = prefix + body; ChunkBuf b(t, cuts); std::istream in(&b); bool ok;
        string got = run(in, m ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, (ssize_t)prefix.size(), false, 0, ok);
        string want = ref::body_canon(body, m);
        c.transition();
        if (got != want) c.fail(m ? "relaxed" : "simple", "canonical form of body " + show(body) + ": got " + show(got) + " expected " + show(want));
        c.require(ok, "limit", "no limit was set but the canonicalizer reports one not reached");
        // idempotence for the normalised form
        if (idem && !got.empty()) { std::istringstream i2(got); string g2 = run(i2, m ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, 0, false, 0, ok); c.eq(g2, got, "idempotent", "canonicalizing " + show(got) + " again"); }
        c.validated(); c.outcome(got);
    }
    c.state(hash_str(body));
}
static const vector<string> ABC = {"a", "\n", " ", "\r", "\t", "b"};

void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "short"; p.what = "every body over {a,LF,SP,CR,TAB,b} up to length " + std::to_string(th ? 9 : 7) + ", both modes, one read";
      p.body = [th](Ctx& c) { string b = c.word(ABC, 0, th ? 9 : 7); c.sample(show(b)); check(c, b, {}); }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "octets"; p.what = "every octet value, as every position of a three octet body with context from {a,SP,LF}, and every pair of octet values";
      p.body = [](Ctx& c) { int k = c.choose(2); string b;
          if (k == 0) { static const vector<string> ctx = {"", "a", " ", "\n", "\r\n", "\t"}; b = c.pick(ctx) + string(1, (char)c.choose(256)) + c.pick(ctx); }
          else { int x = c.choose(256); int y = c.choose(256); b = string(1, (char)x) + string(1, (char)y); }
          c.sample(show(b)); check(c, b, {}); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "chunks"; p.what = "every body over {a,LF,SP,CR} of length 1..5 x every way of dividing it into reads x offset into the stream 0 or 3";
      p.body = [](Ctx& c) { static const vector<string> A = {"a", "\n", " ", "\r"}; string b = c.word(A, 1, 5); int off = c.choose(2) ? 3 : 0; vector<size_t> cuts;
          for (size_t i = 1; i < b.size() + (size_t)off; i++) if (c.choose(2)) cuts.push_back(i);
          check(c, b, cuts, string((size_t)off, '\n')); }; out.push_back(p); }
    { Phase p; p.name = "boundary"; p.what = string("every pattern over {a,LF,SP,CR} of length 1..") + (th ? "5" : "3") + " straddling octet N of the body for N around every multiple of the read sizes 512, 1000, 1024, 2048, 4096, 8000, 8096, 8192, 16192, 16384, 24288, 32768, 65536, after fillings of text, lines, white space, blank lines, and followed by nothing, text, or a blank tail";
      p.body = [th](Ctx& c) {
          static const vector<int> N = {8096, 4096, 8192, 16192, 1024, 512, 1000, 2048, 8000, 8095, 8097, 8191, 10000, 16384, 24288, 32768, 65536};
          static const vector<string> F = {"x", "x\r\n", " ", "\r\n", "\n", "xyz \t"};
          int n = c.pick(N, "boundary"); const string& f = c.pick(F, "fill"); int tail = c.choose(3, "tail");
          static const vector<string> A = {"a", "\n", " ", "\r"}; string pat = c.word(A, 1, th ? 5 : 3);
          // the pattern is placed so that the boundary falls at each of its positions
          size_t k = (size_t)c.choose((int)pat.size() + 1, "shift"); size_t pre = (size_t)n - k;
          string b; b.reserve(pre + 64); while (b.size() + f.size() <= pre) b += f; while (b.size() < pre) b.insert(0, "q");
          b += pat; if (tail == 1) b += "end\r\n"; else if (tail == 2) b += " \r\n\r\n \t\r\n";
          if (c.verbose) c.note(fmt("boundary %d fill %s pattern %s shift %zu tail %d", n, show(f).c_str(), show(pat).c_str(), k, tail));
          check(c, b, {}, "", false); }; p.split = 4; out.push_back(p); }
    { Phase p; p.name = "long-runs"; p.what = "runs of one symbol of every length around buffer sizes, bounded by text on either side";
      p.body = [](Ctx& c) { static const vector<string> S = {" ", "\t", "\n", "\r\n", "\r", "a", " \t", " \r\n", "\t\n"}; static const vector<int> N = {1, 2, 100, 4095, 4096, 4097, 8090, 8095, 8096, 8097, 8191, 8192, 8193, 16191, 16192, 16193, 40000, 200000};
          static const vector<string> E = {"", "z", "z\r\n", "\r\n"}; const string& s = c.pick(S); int n = c.pick(N); string pre = c.pick(E), post = c.pick(E); string b = pre; for (int i = 0; i < n; i++) b += s; b += post; check(c, b, {}); };
      p.split = 3; out.push_back(p); }
    { Phase p; p.name = "no-body"; p.what = "a message without body (offset -1) and with an empty body, both modes, with and without limits";
      p.body = [](Ctx& c) { int m = c.choose(2), off = c.choose(2), lim = c.choose(2); size_t n = (size_t)c.choose(4); string t = off ? "" : "abc"; std::istringstream in(t); bool ok;
          string got = run(in, m ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, off ? 0 : -1, lim, n, ok); string want = m ? "" : "\r\n"; bool wok = !lim || n <= want.size(); if (lim && want.size() > n) want.resize(n);
          c.eq(got, want, "empty", "canonical empty body"); c.require(ok == wok, "empty-limit", "limit result"); c.validated(); c.transition(); c.state(fmt("%d%d%d%zu", m, off, lim, n)); c.outcome(got); };
      p.split = 2; out.push_back(p); }
}
