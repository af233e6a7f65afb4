// C03: every edit of a signed message is classified exactly; only the owner's signature value passes.
#include "cfg.hpp"
using namespace mc; using std::string; using std::vector; using cfg::Cfg;
const char* mc::property_id = "C03";
struct Base { string msg; size_t sig = 0; ref::Sig s; string hin, bin; ref::Key key; };
static string b64lenient(const string& v) { string o; if (ref::b64dec(ref::nows(v), o)) return o; return DKIM::Conversion::Base64_Decode(ref::nows(v)); }
static const Base& base(int canon, int key, int shape) {
    static std::map<int, Base> cache; int id = (canon * 4 + key) * 8 + shape; auto it = cache.find(id); if (it != cache.end()) return it->second;
    static const char* M[] = {"From: J <j@example.com>\r\nSubject: a  b\r\n c\r\nTo: x\r\nSubject: 2\r\nDate: n\r\n\r\nHi \t x\r\n\r\nz\r\n\r\n", "Received: q\r\nFrom :x\r\nX-No:\ty\r\n\r\nb", "From: a\nTo: b \n\nl\n\n", "From:a\r\nTo:b\r\nFrom:c\r\n"};
    static const char* L[] = {"; d=example.com; s=sel; h=from:subject:to:date; bh=@BH@; b=@B@", ";\r\n\td=Example.com; s=sel;\r\n\th=Subject:From:X-None:From:Subject:Subject; l=5;\r\n\tbh=@BH@; b=@B@;", "; b=@B@; h=From:To; d=example.com; bh=@BH@; s=sel; i=x@example.com"};
    Base b; static const int KN[] = {3, 2, 1, 4}; b.key = cfg::key(KN[key]); int mi = shape % 4, li = shape / 4; if (mi == 3 && li == 0) li = 2; string val = string(" v=1; a=") + b.key.type + "-sha256; c=" + (canon & 1 ? "relaxed" : "simple") + "/" + (canon & 2 ? "relaxed" : "simple") + L[li];
    if (li == 1 && mi == 3) val = string(" v=1; a=") + b.key.type + "-sha256; c=" + (canon & 1 ? "relaxed" : "simple") + "/" + (canon & 2 ? "relaxed" : "simple") + "; d=example.com; s=sel; h=from:to; bh=@BH@; b=@B@; x=4000000000";
    string f = ref::make_sig(M[mi], "DKIM-Signature", val, b.key, li ? "\r\n\t " : "", li ? " " : "", 1700000000, li ? 40 : 0); string m = M[mi];
    bool mid = shape & 1; if (mid) { size_t p = m.find('\n') + 1; while (m[p] == ' ') p = m.find('\n', p) + 1; b.msg = m.substr(0, p) + f + "\r\n" + m.substr(p); } else b.msg = f + "\r\n" + m;
    ref::Msg p = ref::split(b.msg); for (size_t i = 0; i < p.h.size(); i++) if (ref::lower(p.h[i].name) == "dkim-signature") b.sig = i;
    ref::parse_sig(p.h[b.sig], 1700000000, b.s); b.hin = ref::header_hash_input(p, p.h[b.sig], b.s); b.bin = ref::body_hash_input(b.msg, p, b.s); return cache[id] = b;
}
static void judge(Ctx& c, const Base& b, const string& m, const string& what) {
    ref::Msg p = ref::split(m); vector<bool> want; // one expectation per DKIM-Signature field
    for (auto& f : p.h) if (ref::lower(f.name) == "dkim-signature") { ref::Sig s; bool ok = ref::parse_sig(f, env::clock_now, s).empty(); { bool bare = false; if (ok && s.rh) { ref::Sig r = s; r.rh = false; string raw = ref::header_hash_input(p, f, r); for (size_t i = 0; i < raw.size(); i++) if (raw[i] == '\r' && (i + 1 >= raw.size() || raw[i + 1] != '\n')) bare = true; } // has no relaxed form: refused
            if (ok) ok = !bare && s.alg == b.s.alg && s.digest == b.s.digest && ref::body_hash_input(m, p, s) == b.bin && ref::header_hash_input(p, f, s) == b.hin && b64lenient(s.t["b"].value) == b.s.b; } want.push_back(ok); }
    auto v = lib::verify(m, lib::fixed(lib::record(b.key))); c.transition(); c.state(m); c.note(what); c.note("edited message: " + show(m, 4000)); c.sample(what);
    c.require(v.size() == want.size(), "discovery", fmt("%zu signatures instead of %zu in ", v.size(), want.size()) + show(m, 3000));
    for (size_t i = 0; i < v.size(); i++) {
        if (want[i]) c.require(v[i].pass(), "unchanged-rejected", "nothing signed has changed, but: " + v[i].cls + " (" + v[i].what + ") after " + what + ": " + show(m, 3000));
        else { c.require(!v[i].pass(), "tampered-accepted", "signed content has changed, but the signature passes after " + what + ": " + show(m, 3000)); c.require(v[i].cls == "fail" || v[i].cls == "permerror", "class", "class " + v[i].cls); }
        c.outcome(v[i].str()); } c.validated();
}
static const vector<string>& ins() { static const vector<string> I = {"\r\n ", "\r\n", "\r\n\r\n", "Subject: q\r\n", "X: y\r\n", "  ", "\t\r\n\t", "b=", "; b=x", ":from"}; return I; }
static string edit(Ctx& c, const string& m, string& what, bool wide) {
    static const string S(" \t\r\na0:;=A\0\x80" "@./z", 17); int pos = c.choose((int)m.size() + 1, "position"); int k = c.choose(4, "kind"); string r = m; size_t at = (size_t)pos;
    if (k == 0 && at < m.size()) { r.erase(at, 1); what += fmt("delete octet %d ", pos); }
    else if (k == 1 && at < m.size()) { char x = wide ? (char)c.choose(256, "octet") : (S + string(1, (char)(m[at] ^ 0x20)))[(size_t)c.choose((int)S.size() + 1, "octet")]; r[at] = x; what += fmt("replace octet %d by 0x%02x ", pos, (unsigned char)x); }
    else if (k == 2) { char x = S[(size_t)c.choose((int)S.size(), "octet")]; r.insert(at, 1, x); what += fmt("insert 0x%02x at %d ", (unsigned char)x, pos); }
    else { const string& x = c.pick(ins(), "text"); r.insert(at, x); what += "insert " + show(x) + fmt(" at %d ", pos); }
    return r;
}
static string pair(Ctx& c, const string& m, string& what) { // two white-space level edits: they may cancel, cooperate or hide each other
    static const string S(" \t\n:;a", 6); string r = m; int n = (int)m.size(); int p1 = c.choose(n, "first"); auto one = [&](int p) { int k = c.choose(2 + (int)S.size(), "edit"); if ((size_t)p >= r.size()) return; if (k == 0) r.erase((size_t)p, 1); else if (k == 1) r[(size_t)p] ^= 0x20; else r.insert((size_t)p, 1, S[(size_t)k - 2]); what += fmt("edit %d at %d ", k, p); };
    one(p1); int d = c.choose(12, "second"); static const int D[] = {0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144}; one(p1 + D[d]); return r;
}
// Two contents (numbered texts) whose digests agree in as many leading / trailing octets as a small search finds,
// agree in one octet position, or both begin with a zero octet: a comparison that looks at part of a digest takes one for the other.
static std::pair<int, int> twin(const string& alg, int kind, const std::function<string(int)>& input) {
    static std::map<string, std::pair<int, int>> cache; string id = alg + fmt("/%d/", kind) + input(0); auto it = cache.find(id); if (it != cache.end()) return it->second;
    std::map<string, int> seen; for (int i = 0;; i++) { string d = ref::sha(alg, input(i)), k; size_t n = d.size();
        if (kind == 0) k = d.substr(0, 4); else if (kind == 1) k = d.substr(n - 4); else if (kind == 2) { if (d[0]) continue; k = "z"; } else if (kind == 3) { if (d[0] || d[n - 1]) continue; k = "z"; } else if (kind == 4) { if (d[1]) continue; k = d.substr(0, 1); } else if (kind == 5) k = d.substr(n / 2 - 2, 4); else if (kind == 6) { int x = 0; for (char ch : d) x ^= ch; k = string(1, (char)x) + d.substr(0, 2); } else k = d.substr(0, 2) + d.substr(n - 2);
        auto r = seen.emplace(k, i); if (!r.second) return cache[id] = {r.first->second, i}; }
}
static string digest_sig(const string& m, const string& val, const ref::Key& k, const string& bh) { string v = val; v.replace(v.find("@BH@"), 4, bh); return ref::make_sig(m, "DKIM-Signature", v, k, "", "", env::clock_now); }
// large messages: content that differs everywhere, with the octets worth changing
static const vector<size_t>& sizes(bool th) { static vector<size_t> v; if (v.empty()) { v = {100, 1000, 4096, 8096, 16193, 65535, 65536, 65537, 131072, 300001, 1 << 20}; if (th) for (size_t x : {(1 << 20) + 1, 3000000, 1 << 22, (1 << 24) + 5}) v.push_back(x); } return v; }
static string filler(size_t n, size_t line, const char* end) { string o; for (size_t i = 0; o.size() < n; i++) { o += std::to_string(i * 7919 + 13) + (i % 3 ? " " : "x"); if (line && i % line == line - 1) o += end; } o.resize(n); for (size_t i = n; i-- > 0 && (o[i] == '\r' || o[i] == '\n' || o[i] == ' ');) o[i] = 'e'; return o; }
static string large(int kind, size_t n, size_t& from, size_t& to) { string m = "From: a@example.com\r\n"; size_t fields = std::min(n / 16, (size_t)4000);
    if (kind == 3 || kind == 4) { m += "To: "; from = m.size(); m += kind == 3 ? filler(n, 9, "\r\n\t") : filler(n, 0, ""); to = m.size(); m += "\r\n\r\nbody\r\n"; return m; }
    if (kind == 5 || kind == 6) { from = m.size(); for (size_t i = 0; i < fields; i++) m += (kind == 5 ? string("X") : fmt("X%zu", i)) + ": " + std::to_string(i * 31) + "\r\n"; to = m.size(); return m + "\r\nbody\r\n"; }
    m += "To: x\r\n\r\n"; if (kind == 2) { for (size_t i = 0; i < n / 2; i++) m += "\r\n"; } from = m.size(); m += kind == 0 ? filler(n, 9, "\r\n") : kind == 1 ? filler(n, 0, "") : "tail"; to = m.size(); return m + "\r\n"; }
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "single-edits"; p.what = "every single-octet deletion, replacement and insertion, and insertion of fields, folds, blank lines and tags, at every position of signed messages: 4 canonicalization pairs x {rsa,ed25519} x message and signature layouts";
      p.body = [th](Ctx& c) { int canon = c.choose(4), key = c.choose(2), shape = c.choose(th ? 8 : 4); static const int SH[] = {0, 5, 2, 7, 1, 3, 4, 6}; const Base& b = base(canon, key, SH[shape]); string w; string m = edit(c, b.msg, w, false); judge(c, b, m, w); }; p.split = 4; out.push_back(p); }
    { Phase p; p.name = "all-octets"; p.what = "replacement of every octet of a signed message by every octet value (relaxed and simple, ed25519)";
      p.body = [](Ctx& c) { int canon = c.choose(2) * 3; const Base& b = base(canon, 1, 0); int pos = c.choose((int)b.msg.size()); string m = b.msg; m[(size_t)pos] = (char)c.choose(256); judge(c, b, m, fmt("octet %d := 0x%02x", pos, (unsigned char)m[(size_t)pos])); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "double-edits"; p.what = th ? "pairs of edits (delete, case flip, insert SP TAB LF : ; a) at every position and 12 distances, relaxed/relaxed and simple/simple, two layouts" : "pairs of edits at every position and 12 distances (relaxed/relaxed)";
      p.body = [th](Ctx& c) { int canon = th ? c.choose(4) : 3, shape = th ? c.choose(2) * 5 : 5; const Base& b = base(canon, 1, shape); string w; string m = pair(c, b.msg, w); judge(c, b, m, w); }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "signature-value"; p.what = "every truncation, every single bit flip, extensions by 1..9 octets at both ends, swapped halves, empty, the same number modulo n or modulo the group order, of rsa-512, ed25519, rsa-1024 and rsa-2048 signatures, in both canonicalizations";
      p.body = [](Ctx& c) { int key = c.choose(4), canon = c.choose(2) * 3, shape = c.choose(2) * 5; const Base& b = base(canon, key, shape); string s = b.s.b; size_t n = s.size(); int k = c.choose(7); string t = s, w;
          if (k == 0) { t = s.substr(0, (size_t)c.choose((int)n)); w = fmt("truncated to %zu", t.size()); } if (k == 1) { int bit = c.choose((int)n * 8); t[(size_t)bit / 8] ^= (char)(1 << (bit % 8)); w = fmt("bit %d flipped", bit); }
          if (k == 2) { int e = 1 + c.choose(9), f = c.choose(3), where = c.choose(2); string x((size_t)e, f == 0 ? '\0' : f == 1 ? '\xff' : s[0]); t = where ? s + x : x + s; w = fmt("extended by %d at %d", e, where); } if (k == 3) { t = s.substr((size_t)c.choose((int)n) + 1); w = "cut at the front"; } if (k == 4) { t = s + s; w = "doubled"; }
          if (k == 5) { std::rotate(t.begin(), t.begin() + (long)n / 2, t.end()); w = "halves swapped"; }
          if (k == 6) { w = "same value modulo the order"; if (b.key.type == "ed25519") { static const unsigned char L[32] = {0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10}; unsigned cy = 0; for (int i = 0; i < 32; i++) { cy += (unsigned char)t[32 + (size_t)i] + L[i]; t[32 + (size_t)i] = (char)cy; cy >>= 8; } }
              else { BIGNUM* nn = nullptr; EVP_PKEY_get_bn_param(b.key.pkey, "n", &nn); BIGNUM* x = BN_bin2bn((const unsigned char*)s.data(), (int)n, nullptr); BN_add(x, x, nn); int len = BN_num_bytes(x); if (len < (int)n) len = (int)n; t.assign((size_t)len, 0); BN_bn2binpad(x, (unsigned char*)&t[0], len); BN_free(x); BN_free(nn); } }
          ref::Msg p = ref::split(b.msg); const ref::Tag& tb = b.s.t.at("b"); size_t fo = b.msg.find(b.s.t.at("b").value.substr(0, 10)); (void)p; string m = b.msg; m.replace(fo, tb.value.size(), t.empty() ? "=" : ref::b64enc(t)); judge(c, b, m, w); }; p.split = 4; out.push_back(p); }
    { Phase p; p.name = "body-hash-value"; p.what = "bh= values next to the true one, with the signature made over them, so that only the body hash decides: every bit flip, every truncation at both ends, everything after every octet replaced, rotations, extensions; digests with a zero octet in every position; sha1 and sha256";
      p.body = [](Ctx& c) { bool s1 = c.choose(2); int zero = c.choose(s1 ? 21 : 33) - 1; int key = s1 ? 1 : 1 + c.choose(2); string alg = s1 ? "sha1" : "sha256"; string val = string(" v=1; a=") + cfg::key(key).type + "-" + alg + "; c=relaxed/relaxed; d=example.com; s=sel; h=from; bh=@BH@; b=@B@";
          string body, d; static std::map<int, string> found; string& fb = found[zero * 2 + s1]; if (fb.empty()) for (int i = 0;; i++) { fb = fmt("body %d\r\n", i); d = ref::sha(alg, fb); if (zero < 0 || d[(size_t)zero] == 0) break; } body = fb; d = ref::sha(alg, body); size_t n = d.size(); string t = d, w; int k = c.choose(7);
          if (k == 1) { int bit = c.choose((int)n * 8); t[(size_t)bit / 8] ^= (char)(1 << (bit % 8)); w = fmt("bit %d flipped", bit); } if (k == 2) { t = d.substr(0, (size_t)c.choose((int)n - 1) + 1); w = "truncated"; } if (k == 3) { t = d.substr((size_t)c.choose((int)n - 1) + 1); w = "cut at the front"; }
          if (k == 4) { int from = c.choose((int)n), how = c.choose(3); for (size_t j = (size_t)from; j < n; j++) t[j] = how == 0 ? '\0' : how == 1 ? (char)(t[j] + 1) : (char)~t[j]; w = fmt("octets from %d replaced", from); } if (k == 5) { int e = 1 + c.choose(3), f = c.choose(2); t += string((size_t)e, f ? d[0] : '\0'); w = "extended"; } if (k == 6) { std::rotate(t.begin(), t.begin() + 1 + c.choose((int)n - 1), t.end()); w = "rotated"; }
          string m = "From: a\r\n\r\n" + body, f = digest_sig(m, val, cfg::key(key), ref::b64enc(t)); c.require(f.compare(0, 5, "ERROR") != 0, "harness", f); auto v = lib::verify(f + "\r\n" + m, lib::fixed(lib::record(cfg::key(key)))); c.transition(); c.validated(); c.state(f); c.note(f); c.sample(w + " " + f); c.require(v.size() == 1, "discovery", "no signature"); bool want = t == d;
          c.require(v[0].pass() == want, want ? "unchanged-rejected" : "tampered-accepted", "body hash " + w + fmt(", zero octet at %d, ", zero) + alg + ": " + v[0].str() + " " + show(f, 1000)); if (!want) c.require(v[0].cls == "fail" || v[0].cls == "permerror", "class", "class " + v[0].cls); c.outcome(v[0].str() + w.substr(0, 5)); }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "twin-digests"; p.what = "a signed body or header field exchanged for another whose digest agrees in four leading, trailing or middle octets, in both ends, in a leading zero octet, zero octets at both ends, a zero second octet after an equal first one, or an equal octet sum; sha1 and sha256, rsa and ed25519";
      p.body = [](Ctx& c) { bool s1 = c.choose(2); int key = s1 ? 1 : 1 + c.choose(2); int kind = c.choose(8); bool head = c.choose(2), swap = c.choose(2); string alg = s1 ? "sha1" : "sha256"; string val = string(" v=1; a=") + cfg::key(key).type + "-" + alg + "; c=simple/simple; d=example.com; s=sel; h=from:subject; bh=@BH@; b=@B@";
          auto msg = [&](int i) { return fmt("From: a\r\nSubject: %d\r\n\r\nbody %d\r\n", head ? i : 0, head ? 0 : i); };
          auto input = [&](int i) -> string { if (!head) return fmt("body %d\r\n", i); string m = msg(i); static string v0; if (v0.empty() || true) v0 = " v=1; a=" + cfg::key(key).type + "-" + alg + "; c=simple/simple; d=example.com; s=sel; h=from:subject; bh=" + ref::b64enc(ref::sha(alg, "body 0\r\n")) + "; b="; return fmt("From: a\r\nSubject: %d\r\n", i) + "DKIM-Signature:" + v0; };
          auto t = twin(alg, kind, input); int a = swap ? t.second : t.first, b = swap ? t.first : t.second; string f = ref::make_sig(msg(a), "DKIM-Signature", val, cfg::key(key), "", "", env::clock_now); c.require(f.compare(0, 5, "ERROR") != 0, "harness", f);
          for (int w = 0; w < 2; w++) { string m = f + "\r\n" + msg(w ? b : a); auto v = lib::verify(m, lib::fixed(lib::record(cfg::key(key)))); c.transition(); c.validated(); c.state(m); c.sample(m); c.require(v.size() == 1, "discovery", "no signature"); c.require(v[0].pass() == !w, w ? "tampered-accepted" : "unchanged-rejected", fmt("%s %d exchanged for %d (kind %d): ", head ? "subject" : "body", a, w ? b : a, kind) + v[0].str() + " " + show(m, 1500)); c.outcome(v[0].str()); } }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "other-key"; p.what = "signatures checked with every other key of the same and of another type, and a signature value made by another key over the same data";
      p.body = [](Ctx& c) { int k1 = 1 + c.choose(6), k2 = 1 + c.choose(6), canon = c.choose(4), mode = c.choose(2); const ref::Key &a = cfg::key(k1), &k = cfg::key(k2); string msg = "From: a\r\nTo: b\r\n\r\nbody\r\n"; string val = " v=1; a=" + (mode ? k.type : a.type) + "-sha256; c=" + (canon & 1 ? "relaxed" : "simple") + "/" + (canon & 2 ? "relaxed" : "simple") + "; d=example.com; s=sel; h=from:to; bh=@BH@; b=@B@";
          string f = ref::make_sig(msg, "DKIM-Signature", val, a, "", "", env::clock_now); c.require(f.compare(0, 5, "ERROR") != 0, "harness", f); auto v = lib::verify(f + "\r\n" + msg, lib::fixed(lib::record(k))); c.transition(); c.validated(); c.state(fmt("%d %d %d %d", k1, k2, canon, mode)); c.require(v.size() == 1, "discovery", "no signature"); bool want = k1 == k2;
          c.require(v[0].pass() == want, want ? "own-key-rejected" : "foreign-key-accepted", fmt("signed with key %d, checked with key %d: ", k1, k2) + v[0].str()); c.outcome(v[0].str()); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "large"; p.what = "messages of 100 octets to " + string(th ? "16 MiB" : "1 MiB") + " (long bodies of lines or of one line or behind blank lines, long folded and unfolded fields, up to 4000 fields of one or of different names): verified as they are, and refused after one bit of one octet is flipped at or around every power of two, multiples of the read size, the middle and both ends";
      p.body = [th](Ctx& c) { int kind = c.choose(7); size_t n = c.pick(sizes(th)); int rel = c.choose(2); static string id, msg; static size_t from, to, off; string now = fmt("kind %d size %zu %s", kind, n, rel ? "relaxed" : "simple");
          if (id != now) { id = now; string m = large(kind, n, from, to), h = "from:to"; if (kind == 5 || kind == 6) { ref::Msg p = ref::split(m); for (size_t i = 1; i < p.h.size(); i++) h += (i % 8 ? ":" : ":\r\n ") + p.h[i].name; } string f = ref::make_sig(m, "DKIM-Signature", string(" v=1; a=ed25519-sha256; c=") + (rel ? "relaxed/relaxed" : "simple/simple") + "; d=example.com; s=s; h=" + h + "; bh=@BH@; b=@B@", cfg::key(2), "", "", env::clock_now); c.require(f.compare(0, 5, "ERROR") != 0, "harness", f); msg = f + "\r\n" + m; off = f.size() + 2; }
          size_t len = to - from; vector<size_t> at; auto add = [&](size_t x) { if (x < len) at.push_back(x); }; add(0); add(len - 1); add(len - 2); add(len / 2); add(len / 3); add(2 * len / 3); for (size_t x = 16; x < len + 2; x *= 2) { add(x - 1); add(x); add(x + 1); add(x + x / 2); } for (size_t x = 8096; x < len; x = x * 2) { add(x - 1); add(x); add(x + 1); } for (size_t x = 10; x < len; x *= 10) add(x); for (size_t x : {255, 998, 1000}) { add(x); }
          int k = c.choose((int)at.size() + 1); auto dns = lib::fixed(lib::record(cfg::key(2))); c.transition(); c.validated(); c.state(now + fmt(" %d", k)); if (k == 0) { auto v = lib::verify(msg, dns); c.require(v.size() == 1 && v[0].pass(), "unchanged-rejected", now + ": " + (v.size() ? v[0].cls + " " + v[0].what : "none")); c.outcome("pass"); return; }
          size_t x = off + from + at[(size_t)k - 1]; while (x > off + from && (msg[x] <= ' ' || msg[x] == ':')) x--; if (msg[x] <= ' ' || msg[x] == ':') throw Pruned(); char old = msg[x]; msg[x] ^= 1; struct Back { char& r; char o; ~Back() { r = o; } } back{msg[x], old}; auto v = lib::verify(msg, dns); c.require(v.size() == 1 && !v[0].pass(), "tampered-accepted", now + fmt(": octet %zu of the %zu flipped, but the signature passes", x - off - from, len)); c.outcome(v[0].str()); c.sample(now + fmt(" octet %zu", x - off - from)); }; p.split = 3; p.exec_limit_s = 60; out.push_back(p); }
}
