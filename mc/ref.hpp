// Reference model: an independent, deliberately boring implementation of the rules the
// properties state (RFC 5322 header splitting, RFC 6376/8463/8617 canonicalization, tag
// lists, signing and verification).  Shares no code with the library under test; Ed25519
// goes through OpenSSL here and libsodium there.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include <openssl/evp.h>
#include <openssl/x509.h>
#include <openssl/rsa.h>

namespace ref {
using std::string; using std::vector;

inline bool wsp(char c) { return c == ' ' || c == '\t'; }
inline bool ws4(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
inline string lower(string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
inline string trim4(const string& s) { size_t a = 0, b = s.size(); while (a < b && ws4(s[a])) a++; while (b > a && ws4(s[b - 1])) b--; return s.substr(a, b - a); }
inline string trim2(const string& s) { size_t a = 0, b = s.size(); while (a < b && wsp(s[a])) a++; while (b > a && wsp(s[b - 1])) b--; return s.substr(a, b - a); }
inline string nows(const string& s) { string o; for (char c : s) if (!(ws4(c) || c == '\v' || c == '\f')) o += c; return o; }

// ---------------------------------------------------------------- base64
static const char* const B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
inline string b64enc(const string& d) {
    string o; size_t i = 0;
    for (; i + 2 < d.size(); i += 3) { uint32_t v = (uint32_t)(uint8_t)d[i] << 16 | (uint32_t)(uint8_t)d[i + 1] << 8 | (uint8_t)d[i + 2];
        o += B64[v >> 18]; o += B64[(v >> 12) & 63]; o += B64[(v >> 6) & 63]; o += B64[v & 63]; }
    if (i + 1 == d.size()) { uint32_t v = (uint32_t)(uint8_t)d[i] << 16; o += B64[v >> 18]; o += B64[(v >> 12) & 63]; o += "=="; }
    else if (i + 2 == d.size()) { uint32_t v = (uint32_t)(uint8_t)d[i] << 16 | (uint32_t)(uint8_t)d[i + 1] << 8; o += B64[v >> 18]; o += B64[(v >> 12) & 63]; o += B64[(v >> 6) & 63]; o += "="; }
    return o;
}
inline bool b64dec(const string& s, string& out) { // strict alphabet and padding
    out.clear(); if (s.size() % 4) return false;
    for (size_t i = 0; i < s.size(); i += 4) {
        uint32_t v = 0; int pad = 0;
        for (int k = 0; k < 4; k++) {
            char c = s[i + (size_t)k]; const char* p = c ? strchr(B64, c) : nullptr;
            if (p) { if (pad) return false; v = v << 6 | (uint32_t)(p - B64); }
            else if (c == '=' && i + 4 == s.size() && k >= 2) { pad++; v <<= 6; }
            else return false;
        }
        out += (char)(v >> 16); if (pad < 2) out += (char)(v >> 8); if (pad < 1) out += (char)v;
    }
    return true;
}

// ---------------------------------------------------------------- message
struct Field { string raw, name; bool colon = false; size_t valueOff = 0; };
struct Msg { vector<Field> h; long body = -1; };   // body: offset or -1

inline void finish(Field& f) {
    size_t c = f.raw.find(':');
    f.colon = c != string::npos; f.valueOff = f.colon ? c + 1 : 0; f.name = f.colon ? trim2(f.raw.substr(0, c)) : "";
}
inline Msg split(const string& m, size_t start = 0) {
    Msg r; vector<string> lines; size_t p = start; 
    while (p < m.size()) {
        size_t nl = m.find('\n', p); bool term = nl != string::npos;
        string line = m.substr(p, (term ? nl : m.size()) - p);
        p = term ? nl + 1 : m.size();
        if (!line.empty() && line.back() == '\r') line.pop_back();
        if (line.empty()) { if (term) r.body = (long)p; break; }
        if (wsp(line[0]) && !r.h.empty()) r.h.back().raw += "\r\n" + line;
        else { Field f; f.raw = line; r.h.push_back(f); }
    }
    for (auto& f : r.h) finish(f);
    return r;
}

// ---------------------------------------------------------------- canonicalization
inline string body_canon(const string& in, bool relaxed) {
    // 1. normalize line ends: CR has no meaning of its own, LF ends a line
    vector<string> lines; string cur; bool open = false;
    for (char c : in) { if (c == '\r') continue; if (c == '\n') { lines.push_back(cur); cur.clear(); open = false; } else { cur += c; open = true; } }
    if (open) lines.push_back(cur);
    if (relaxed) for (auto& l : lines) {
        string o; for (char c : l) { if (wsp(c)) { if (o.empty() || o.back() != ' ') o += ' '; } else o += c; }
        while (!o.empty() && o.back() == ' ') o.pop_back();
        l = o;
    }
    while (!lines.empty() && lines.back().empty()) lines.pop_back();
    if (lines.empty()) return relaxed ? "" : "\r\n";
    string out; for (auto& l : lines) out += l + "\r\n";
    return out;
}
inline string header_canon(const string& raw, bool relaxed) {
    if (!relaxed) return raw;
    size_t c = raw.find(':');
    string name = lower(raw.substr(0, c)), value = raw.substr(c + 1);
    auto squeeze = [](const string& s) { string o; for (char ch : s) { if (ws4(ch)) { if (o.empty() || o.back() != ' ') o += ' '; } else o += ch; } return o; };
    name = squeeze(name); value = squeeze(value);
    while (!name.empty() && name.back() == ' ') name.pop_back();
    size_t a = 0, b = value.size(); while (a < b && value[a] == ' ') a++; while (b > a && value[b - 1] == ' ') b--;
    return name + ":" + value.substr(a, b - a);
}

// ---------------------------------------------------------------- tag lists
struct Tag { string value; size_t off = 0, end = 0; /* value span */ size_t rawBegin = 0, rawEnd = 0; /* everything between '=' and ';' */ };
inline bool tagchar(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_'; }
inline bool tags(const string& in, std::map<string, Tag>& out, vector<string>* order = nullptr) {
    out.clear(); size_t p = 0;
    while (p <= in.size()) {
        size_t e = in.find(';', p); bool last = e == string::npos; if (last) e = in.size();
        string spec = in.substr(p, e - p);
        if (trim4(spec).empty()) { if (last) return true; return false; }
        size_t q = spec.find('='); if (q == string::npos) return false;
        string name = trim4(spec.substr(0, q)); if (name.empty()) return false;
        for (char c : name) if (!tagchar(c)) return false;
        if (out.count(name)) return false;
        string rawv = spec.substr(q + 1);
        for (char c : rawv) if (!ws4(c) && !(c >= 0x21 && c <= 0x7e)) return false;
        Tag t; t.value = trim4(rawv); t.rawBegin = p + q + 1; t.rawEnd = e;
        size_t lead = 0; while (lead < rawv.size() && ws4(rawv[lead])) lead++;
        t.off = t.rawBegin + lead; t.end = t.off + t.value.size();
        out[name] = t; if (order) order->push_back(name);
        if (last) return true;
        p = e + 1;
    }
    return true;
}
// names that RFC 6376 does not allow and this library takes (they begin with a digit or an underscore): refusing them is right as well
inline bool loose(const std::map<string, Tag>& t) { for (auto& kv : t) { char c = kv.first[0]; if (!((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))) return true; } return false; }
inline bool colonlist(const string& v, vector<string>& out) { // value without surrounding white space
    out.clear(); size_t p = 0;
    while (p <= v.size()) {
        size_t e = v.find(':', p); bool last = e == string::npos; if (last) e = v.size();
        string x = trim4(v.substr(p, e - p));
        if (last && x.empty()) return true;
        if (x.empty()) return false;
        out.push_back(x); if (last) return true; p = e + 1;
    }
    return true;
}
inline bool qpdec(const string& s, string& out, bool us = false) {
    out.clear(); auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    for (size_t i = 0; i < s.size();) {
        char c = s[i];
        if (us && c == '_') { out += ' '; i++; }
        else if (c == '=') { if (i + 2 >= s.size() || hex(s[i + 1]) < 0 || hex(s[i + 2]) < 0) return false; out += (char)(hex(s[i + 1]) * 16 + hex(s[i + 2])); i += 3; }
        else if (c >= 0x21 && c <= 0x7e && (c != ';' || us)) { out += c; i++; } // a semicolon is unsafe only in tag values
        else if (wsp(c)) i++;
        else if (c == '\r' && i + 2 < s.size() && s[i + 1] == '\n' && wsp(s[i + 2])) i += 3;
        else return false;
    }
    return true;
}

// ---------------------------------------------------------------- signatures
struct Sig {
    std::map<string, Tag> t; bool arc = false; string alg, digest; string b, bh; bool b_ok = false, bh_ok = false; bool rh = false, rb = false;
    string domain, selector, local, maildomain; vector<string> h; bool hasl = false; unsigned long l = 0; unsigned long inst = 0;
};
// returns "" if the field is acceptable, else the reason
inline string parse_sig(const Field& f, long nowt, Sig& s) {
    s.arc = lower(f.name) == "arc-message-signature";
    if (!tags(f.raw.substr(f.valueOff), s.t)) return "tag list";
    auto has = [&](const char* n) { return s.t.count(n) > 0; };
    auto val = [&](const char* n) { return s.t[n].value; };
    if (!has("d") || val("d").empty()) return "d"; s.domain = lower(val("d"));
    if (!s.arc && (!has("v") || val("v") != "1")) return "v";
    if (!has("a")) return "a";
    string a = val("a");
    if (a == "rsa-sha256") { s.alg = "rsa"; s.digest = "sha256"; } else if (a == "rsa-sha1") { s.alg = "rsa"; s.digest = "sha1"; }
    else if (a == "ed25519-sha256") { s.alg = "ed25519"; s.digest = "sha256"; } else return "a";
    if (!has("b") || val("b").empty()) return "b";
    s.b_ok = b64dec(nows(val("b")), s.b);
    if (!has("bh") || val("bh").empty()) return "bh"; s.bh_ok = b64dec(nows(val("bh")), s.bh);
    if (has("c")) {
        string c = val("c"), x = c, y = "simple"; size_t k = c.find('/'); if (k != string::npos) { x = c.substr(0, k); y = c.substr(k + 1); }
        if (x == "relaxed") s.rh = true; else if (x != "simple") return "c";
        if (y == "relaxed") s.rb = true; else if (y != "simple") return "c";
    }
    if (!has("h")) return "h"; if (!colonlist(val("h"), s.h)) return "h";
    bool from = false; for (auto& x : s.h) if (lower(x) == "from") from = true;
    if (!from) return "from";
    if (s.arc) { if (!has("i")) return "i"; string v = val("i"); if (v.empty() || v.find_first_not_of("0123456789") != string::npos) return "i"; s.inst = strtoul(v.c_str(), nullptr, 10); if (s.inst < 1 || s.inst > 50) return "i"; }
    else if (!has("i")) { s.maildomain = s.domain; }
    else {
        string m; if (!qpdec(val("i"), m)) return "i"; size_t k = m.rfind('@'); if (k == string::npos) return "i";
        s.local = m.substr(0, k); s.maildomain = lower(m.substr(k + 1));
        if (s.maildomain != s.domain) { string suf = "." + s.domain; if (s.maildomain.size() < suf.size() || s.maildomain.compare(s.maildomain.size() - suf.size(), suf.size(), suf) != 0) return "i"; }
    }
    if (has("l")) { string v = val("l"); if (v.empty() || v.size() > 76) return "l"; unsigned __int128 n = 0; bool big = false;
        for (char c : v) { if (c < '0' || c > '9') return "l"; n = n * 10 + (unsigned)(c - '0'); if (n > (unsigned __int128)INT64_MAX) { big = true; n = 0; } }
        if (big) return "l"; s.l = (unsigned long)n; s.hasl = true; }
    if (has("q") && val("q") != "dns/txt") return "q";
    if (!has("s") || val("s").empty()) return "s"; s.selector = val("s");
    if (has("x")) { string v = val("x"); if (strtol(v.c_str(), nullptr, 10) < nowt) return "x"; }
    return "";
}

inline string sha(const string& alg, const string& d) {
    unsigned char md[EVP_MAX_MD_SIZE]; unsigned n = 0; EVP_Digest(d.data(), d.size(), md, &n, alg == "sha1" ? EVP_sha1() : EVP_sha256(), nullptr); return string((char*)md, n);
}
inline string body_of(const string& m, const Msg& p) { return p.body < 0 ? string() : m.substr((size_t)p.body); }
inline string body_hash_input(const string& m, const Msg& p, const Sig& s) {
    string c = body_canon(body_of(m, p), s.rb); if (s.hasl && c.size() > s.l) c.resize(s.l); return c;
}
// the octets that are hashed and signed
inline string header_hash_input(const Msg& p, const Field& self, const Sig& s) {
    string out; std::map<string, vector<const Field*>> pool;
    for (auto& f : p.h) if (&f != &self) pool[lower(f.name)].push_back(&f); // h= never refers to the signature itself
    for (auto& n : s.h) { auto it = pool.find(lower(n)); if (it == pool.end() || it->second.empty()) continue; out += header_canon(it->second.back()->raw, s.rh) + "\r\n"; it->second.pop_back(); }
    const Tag& b = s.t.at("b"); string v = self.raw.substr(self.valueOff); v.erase(b.rawBegin, b.rawEnd - b.rawBegin);
    return out + header_canon(self.raw.substr(0, self.valueOff) + v, s.rh);
}

// ---------------------------------------------------------------- keys
struct Key { string type; EVP_PKEY* pkey = nullptr; string pub64; };
inline string unb64(const string& s) { string o; b64dec(s, o); return o; }
inline Key rsa_key(const char* priv64, const char* pub64) {
    Key k; k.type = "rsa"; k.pub64 = pub64; string d = unb64(priv64); const unsigned char* p = (const unsigned char*)d.data(); k.pkey = d2i_PrivateKey(EVP_PKEY_RSA, nullptr, &p, (long)d.size()); return k;
}
inline Key ed_key(const char* seed64, const char* pub64) {
    Key k; k.type = "ed25519"; k.pub64 = pub64; string d = unb64(seed64); k.pkey = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, (const unsigned char*)d.data(), d.size()); return k;
}
inline string sign(const Key& k, const string& digest, const string& data) {
    EVP_MD_CTX* c = EVP_MD_CTX_new(); string out; size_t n = 0;
    if (k.type == "rsa") {
        EVP_DigestSignInit(c, nullptr, digest == "sha1" ? EVP_sha1() : EVP_sha256(), nullptr, k.pkey);
        EVP_DigestSign(c, nullptr, &n, (const unsigned char*)data.data(), data.size()); out.resize(n);
        EVP_DigestSign(c, (unsigned char*)&out[0], &n, (const unsigned char*)data.data(), data.size()); out.resize(n);
    } else {
        string h = sha(digest, data); n = 64; out.resize(64);
        EVP_DigestSignInit(c, nullptr, nullptr, nullptr, k.pkey);
        EVP_DigestSign(c, (unsigned char*)&out[0], &n, (const unsigned char*)h.data(), h.size());
    }
    EVP_MD_CTX_free(c); return out;
}
inline bool verify(const Key& k, const string& digest, const string& data, const string& sig) {
    EVP_MD_CTX* c = EVP_MD_CTX_new(); int r;
    if (k.type == "rsa") {
        EVP_DigestVerifyInit(c, nullptr, digest == "sha1" ? EVP_sha1() : EVP_sha256(), nullptr, k.pkey);
        r = EVP_DigestVerify(c, (const unsigned char*)sig.data(), sig.size(), (const unsigned char*)data.data(), data.size());
    } else {
        string h = sha(digest, data); EVP_DigestVerifyInit(c, nullptr, nullptr, nullptr, k.pkey);
        r = EVP_DigestVerify(c, (const unsigned char*)sig.data(), sig.size(), (const unsigned char*)h.data(), h.size());
    }
    EVP_MD_CTX_free(c); return r == 1;
}
// key record: "" if it may be used, else why not
struct KeyRec { std::map<string, Tag> t; string type = "rsa"; bool hasH = false, sha1 = false, sha256 = false, y = false, s = false; string p; };
inline string parse_key(const string& rec, KeyRec& k) {
    if (!tags(rec, k.t)) return "tag list"; auto has = [&](const char* n) { return k.t.count(n) > 0; }; auto val = [&](const char* n) { return k.t[n].value; }; vector<string> l;
    if (has("v") && val("v") != "DKIM1") return "v"; if (has("k")) { k.type = val("k"); if (k.type != "rsa" && k.type != "ed25519") return "k"; }
    if (has("h")) { k.hasH = true; if (!colonlist(val("h"), l) || l.empty()) return "h"; for (auto& x : l) { if (x == "sha1") k.sha1 = true; if (x == "sha256") k.sha256 = true; } if (!k.sha1 && !k.sha256) return "h"; }
    if (!has("p") || val("p").empty()) return "p"; string d; if (!b64dec(nows(val("p")), d)) return "p not base64"; k.p = d;
    if (k.type == "ed25519") { if (d.size() != 32) return "p"; } else { const unsigned char* q = (const unsigned char*)d.data(); EVP_PKEY* e = d2i_PUBKEY(nullptr, &q, (long)d.size()); if (!e) return "p"; bool ok = EVP_PKEY_base_id(e) == EVP_PKEY_RSA; EVP_PKEY_free(e); if (!ok) return "p"; }
    if (has("s")) { if (!colonlist(val("s"), l) || l.empty()) return "s"; bool ok = false; for (auto& x : l) if (x == "email" || x == "*") ok = true; if (!ok) return "s"; }
    if (has("t")) { if (!colonlist(val("t"), l)) return "t"; for (auto& x : l) { if (x == "y") k.y = true; if (x == "s") k.s = true; } }
    return "";
}
// may this record verify a signature with these properties?
inline string key_policy(const KeyRec& k, const Sig& s) { if (k.hasH && !(s.digest == "sha1" ? k.sha1 : k.sha256)) return "hash"; if (k.type != s.alg) return "type"; if (k.s && !s.arc && s.domain != s.maildomain) return "flag s"; return ""; }
// full verdict of the reference verifier for field number idx: "" = pass, else reason
inline string verdict(const string& m, const Msg& p, size_t idx, const Key& k, long nowt, Sig* outsig = nullptr) {
    Sig s; string e = parse_sig(p.h[idx], nowt, s); if (outsig) *outsig = s; if (!e.empty()) return "permerror:" + e;
    if (s.alg != k.type) return "permerror:key type";
    if (!s.bh_ok || sha(s.digest, body_hash_input(m, p, s)) != s.bh) return "fail:body";
    if (!s.b_ok || !verify(k, s.digest, header_hash_input(p, p.h[idx], s), s.b)) return "fail:sig";
    return "";
}
// reference signer: `value` is the text after "Name:" with the marker @B@ where the b= value
// (with whatever white space around it) goes, and @BH@ for the body hash
inline string wrapped(const string& s, int w, const string& sep = "\r\n\t ") { if (!w) return s; string o; for (size_t i = 0; i < s.size(); i += (size_t)w) { if (i) o += sep; o += s.substr(i, (size_t)w); } return o; }
inline string make_sig(const string& m, const string& name, string value, const Key& k, const string& bpre = "", const string& bpost = "", long nowt = 0, int wrap = 0, const string& sep = "\r\n\t ") {
    Msg p = split(m); Field f; size_t pos;
    string probe = value; if ((pos = probe.find("@B@")) != string::npos) probe.replace(pos, 3, "QUJD"); if ((pos = probe.find("@BH@")) != string::npos) probe.replace(pos, 4, "QUJD");
    f.raw = name + ":" + probe; finish(f); Sig s; string e = parse_sig(f, nowt, s);
    if (!e.empty()) return "ERROR " + e;
    string bh = b64enc(sha(s.digest, body_hash_input(m, p, s)));
    if ((pos = value.find("@BH@")) != string::npos) value.replace(pos, 4, wrapped(bh, wrap, sep));
    pos = value.find("@B@"); string v1 = value; v1.replace(pos, 3, "QUJD");
    f.raw = name + ":" + v1; finish(f); Sig s2; parse_sig(f, nowt, s2);
    string sg = b64enc(sign(k, s2.digest, header_hash_input(p, f, s2)));
    value.replace(pos, 3, bpre + wrapped(sg, wrap, sep) + bpost);
    return name + ":" + value;
}
}  // namespace ref
