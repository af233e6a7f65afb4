// C13: untrusted octets at every entry point: a result or a documented error, nothing else (ASan, UBSan, automatic variables filled with a pattern).
#include "cfg.hpp"
using namespace mc; using std::string; using std::vector;
const char* mc::property_id = "C13";
static volatile uint64_t sunk; static void sink(const string& s) { sunk = sunk + hash_str(s); }
static void sink(const std::list<string>& l) { for (auto& s : l) sink(s); }
static void use(const DKIM::TagList& t) { for (auto i = t.cbegin(); i != t.cend(); ++i) { sink(i->first); sink(i->second.GetValue()); DKIM::TagListEntry e; t.GetTag(i->first, e); } }
static void use(const DKIM::Signature& s) { sink(s.GetDomain()); sink(s.GetSelector()); sink(s.GetMailDomain()); sink(s.GetMailLocalPart()); sink(s.GetSignatureData()); sink(s.GetBodyHash()); sink(s.GetSignedHeaders()); sunk = sunk + s.GetBodySize() + s.GetARCInstance() + (unsigned)s.GetQueryType() + (s.GetBodySizeLimit() ? 1 : 0) + (unsigned)s.GetCanonModeBody() + (unsigned)s.GetCanonModeHeader(); use(s.GetTagList()); }
static void use(const DKIM::PublicKey& p) { sink(p.GetFlags()); sink(p.GetED25519PublicKey()); sunk = sunk + p.GetDigestAlgorithms().size() + p.GetServiceType().size() + (p.SoftFail() ? 1 : 0); }
static void use(const DKIM::Message& m) { for (auto& h : m.GetHeaders()) { sink(h->GetName()); sink(h->GetHeader()); sink(h->GetHeader().substr(h->GetValueOffset())); } sunk = sunk + (uint64_t)m.GetBodyOffset(); }
static void parse(DKIM::Message& m, const string& s) { std::istringstream in(s); while (m.ParseLine(in) && !m.IsDone()) {} }
// verify the way an application does; `all`: also hand every other field to the signature parser and check with whatever was parsed
static string verify(const string& msg, const string& record, DKIM::Validatory::ValidatorType t, bool all) {
    string r; std::istringstream in(msg); DKIM::Validatory v(in, t); lib::set_dns(v, lib::fixed(record));
    auto one = [&](const std::shared_ptr<DKIM::Header>& h) { DKIM::Message::HeaderList l = {h}; DKIM::Message::HeaderList::const_iterator i = l.begin(); DKIM::Signature s; DKIM::PublicKey p; string what; r += lib::classify([&] { v.GetSignature(i, s); use(s); v.GetPublicKey(s, p); use(p); v.CheckSignature(i, s, p); }, &what) + ","; sink(what); };
    for (auto& h : v.GetSignatures()) one(h);
    if (all) { DKIM::Message m; parse(m, msg); use(m); for (auto& h : m.GetHeaders()) { DKIM::Signature s; string what; lib::classify([&] { s.Parse(h); use(s); }, &what); sink(what); } }
    return r;
}
static string rsarec() { return lib::record(cfg::key(3)); }
static string edrec() { return lib::record(cfg::key(2)); }
struct Entry { const char* name; string prefix; std::function<string(const string&)> run; vector<string> alphabet, samples; };
static string goodmsg(const ref::Key& k, bool arc, const char* canon, const char* extra = "") {
    string m = "From: \"J, \\\"x\\\" (c)\" <j@example.com>,\r\n\t=?utf-8?q?a=20b?= <k@example.com>\r\nSubject: a \t b\r\n c\r\nTo: x\r\n\r\nHi \t x\r\n\r\n.\r\n\r\n";
    string val = string(arc ? " i=1; a=" : " v=1; a=") + k.type + "-sha256; c=" + canon + "; d=example.com; s=sel;\r\n\tt=1600000000; x=1900000000; q=dns/txt; h=From : subject: to:x; z=A:=20b|C:d" + (arc ? "" : "; i=a=40b@x.example.com") + extra + "; bh=@BH@; b=@B@";
    return ref::make_sig(m, arc ? "ARC-Message-Signature" : "DKIM-Signature", val, k, "", "", env::clock_now, 30) + "\r\n" + m;
}
static const vector<Entry>& entries() {
    static vector<Entry> E; if (!E.empty()) return E; using namespace DKIM::Conversion; using namespace DKIM::Tokenizer;
    auto guarded = [](std::function<void()> f) { string what, r = lib::classify(f, &what); sink(what); return r; };
    string pad(40, 'a');
    E.push_back({"Base64_Decode", "QUJDREVGR0hJSktMTU5PUFFSU1RVVlhZ", [=](const string& s) { return guarded([&] { sink(Base64_Decode(s)); }); }, {"A", "/", "=", "+", "\n", "\r\n", " ", "-", "\x80", string(1, '\0'), "QUJD"}, {"QUJDREVGR0hJSktMTU5PUFFSU1RVVlhZWg==", "QUJDREVGR0hJ\r\n SktMTU5PUFFSU1RVVlhZ\r\n WkE="}});
    E.push_back({"QuotedPrintable::Decode", pad, [=](const string& s) { return guarded([&] { sink(QuotedPrintable::Decode(s)); }); }, {"=", "A", "a", "2", ";", " ", "\r\n", "\r", "\n", "_", "\xff", string(1, '\0')}, {"a=3Bb =20\r\n c=E5=E4=F6_?x"}});
    E.push_back({"QuotedPrintable::Decode spaces", pad, [=](const string& s) { return guarded([&] { sink(QuotedPrintable::Decode(s, true)); }); }, {"=", "A", "a", "2", ";", " ", "\r\n", "\r", "\n", "_", "\xff", string(1, '\0')}, {"a=3Bb =20\r\n c=E5=E4=F6_?x"}});
    E.push_back({"EncodedWord::Decode", pad, [=](const string& s) { return guarded([&] { sink(EncodedWord::Decode(s)); }); }, {"=?", "?", "=", "q", "b", "?=", "A", " ", "\r\n ", "\r", "\xff", "=2", "=41"}, {"x =?utf-8?q?a=20b_c?= =?iso-8859-1?B?QUJDRA==?=\r\n =?=?q?x?= (=?u?Q?=?=)"}});
    E.push_back({"ValueList", pad, [=](const string& s) { return guarded([&] { sink(ValueList(s)); }); }, {"a", ":", " ", "\t", "\r\n ", "\r\n", "\r", "\n", string(1, '\0'), "\xff"}, {"From : To:\r\n\t Subject :x-y: z"}});
    E.push_back({"ParseAddressList", pad + "@a,", [=](const string& s) { return guarded([&] { sink(ParseAddressList(s)); }); }, {"a", "@", "\"", "\\", "(", ")", "<", ">", ",", ";", " ", "\r\n ", "\r", string(1, '\0'), "\xff"}, {"\"J, \\\"x\\\" (c)\" <j@example.com>, (a (b \\) c)) k@x, \"<q@x>, r@y\", A: b@c, d@e;"}});
    E.push_back({"ReadWhiteSpace", string(40, ' '), [=](const string& s) { return guarded([&] { for (auto t : {READ_CRLF, READ_WSP, READ_FWS, READ_WSP_LOOSE}) { std::stringstream in(s); for (size_t i = 0; i <= s.size() + 2; i++) { string r = ReadWhiteSpace(in, t); sink(r); if (r.empty()) break; } } }); }, {" ", "\t", "\r\n", "\r", "\n", "a", string(1, '\0'), "\xff"}, {" \t\r\n \t x\r\ny"}});
    E.push_back({"TagList::Parse", "v=" + pad + ";", [=](const string& s) { return guarded([&] { DKIM::TagList t; t.Parse(s); use(t); }); }, {"a", "b", "=", ";", " ", "\r\n ", "\r\n", "\r", "_", "1", string(1, '\0'), "\xff", ":"}, {"v=1; a=x y ;\r\n\tb = QUJD\r\n RA==; _c=; d1=\t;"}});
    E.push_back({"PublicKey::Parse", "n=" + pad + ";", [=](const string& s) { return guarded([&] { DKIM::PublicKey p; p.Parse(s); use(p); }); }, {"p=", "k=ed25519", "k=rsa", "h=", "sha1", "t=", "y", "s=", "*", ":", ";", " ", "QUJD", "=", string(1, '\0')}, {rsarec() + "; h=sha256 : sha1; s=email:*; t=y:s; n=x; g=*", edrec() + "; h=sha1:sha256; t=s : y"}});
    E.push_back({"Signature::Parse", "z=" + pad + ";", [=](const string& s) { return guarded([&] { for (const char* n : {"DKIM-Signature", "ARC-Message-Signature", "X"}) { string m = string(n) + ":" + s; DKIM::Message ms; parse(ms, m); use(ms); for (auto& h : ms.GetHeaders()) { DKIM::Signature sg; string what; lib::classify([&] { sg.Parse(h); use(sg); }, &what); sink(what); } } }); },
        {"v=1;a=rsa-sha256;b=QQ==;bh=QQ==;d=a;s=b;h=from;", "i=", "@", "l=", "c=", "relaxed/", "simple", "x=", "t=", "q=", "dns/txt", "9", ":", ";", " ", "\xff"}, {}});
    { auto& smp = E.back().samples; for (bool arc : {false, true}) { string m = goodmsg(cfg::key(2), arc, "relaxed/simple", "; l=3"); size_t a = m.find(':') + 1; smp.push_back(ref::split(m).h[0].raw.substr(a)); } }
    E.push_back({"FilterHeader", "Name:" + pad, [=](const string& s) { return guarded([&] { for (auto t : {DKIM::DKIM_C_SIMPLE, DKIM::DKIM_C_RELAXED}) { string what; lib::classify([&] { sink(CanonicalizationHeader(t).FilterHeader(s)); }, &what); sink(what); } }); }, {"a", ":", " ", "\t", "\r\n", "\r\n ", "\r", "\n", string(1, '\0'), "\xff"}, {"SubJect \t:\r\n a  b\r\n\tc \t\r\n"}});
    E.push_back({"CanonicalizationBody", pad, [=](const string& s) { return guarded([&] { for (auto t : {DKIM::DKIM_C_SIMPLE, DKIM::DKIM_C_RELAXED}) for (long l : {-1L, 0L, 1L, 3L, 100000000000L}) for (ssize_t off : {-1, 0, 1}) { std::istringstream in(s); string o; CanonicalizationBody(in, t, off, l >= 0, l >= 0 ? (size_t)l : 0, [&](const char* p, size_t n) { o.append(p, n); }); sink(o); } }); }, {"a", " ", "\t", "\r\n", "\r", "\n", "\r\n\r\n", string(1, '\0'), "\xff"}, {"a \t b\r\n\r\n c\n\r\n\r\n"}});
    E.push_back({"Message::ParseLine", "X:" + pad + "\r\n", [=](const string& s) { return guarded([&] { DKIM::Message m; parse(m, s); use(m); m.Reset(); parse(m, s); use(m); }); }, {"a", ":", " ", "\t", "\r\n", "\r", "\n", string(1, '\0'), "\xff"}, {goodmsg(cfg::key(2), false, "simple/simple")}});
    E.push_back({"Validatory", "X:" + pad + "\r\n", [=](const string& s) { string r; for (auto t : {DKIM::Validatory::DKIM, DKIM::Validatory::ARC, DKIM::Validatory::NONE}) r += verify(s, edrec(), t, true); return r; }, {"DKIM-Signature:", "ARC-Message-Signature:", "v=1;a=ed25519-sha256;b=QQ==;bh=47DEQpj8HBSa+/TImW+5JCeuQeRkm5NMpJWZG3hSuFU=;d=a;s=b;h=from;c=relaxed/relaxed;", "i=1;", "From:", "a", " ", "\r\n", "\r", "\n", ":", string(1, '\0')}, {goodmsg(cfg::key(2), false, "relaxed/simple"), goodmsg(cfg::key(2), true, "simple/relaxed")}});
    E.push_back({"Signatory", "X:" + pad + "\r\n", [=](const string& s) { return guarded([&] { for (int rel = 0; rel < 2; rel++) { cfg::Cfg k; k.sigs[0].key = 2; k.rh = k.rb = rel; if (rel) { k.hdrmode = 1; k.hdr = {}; } else k.over = {"from", "a"}; DKIM::SignatoryOptions o; cfg::apply(k, o); string out, what; lib::sign(s, o, out, &what); sink(out); sink(what); } }); }, {"From:", "DKIM-Signature:", "a", ":", " ", "\t", "\r\n", "\r", "\n", string(1, '\0'), "\xff"}, {goodmsg(cfg::key(2), false, "relaxed/simple")}});
    E.push_back({"ValidateDomain", pad, [=](const string& s) { return guarded([&] { sunk = sunk + (DKIM::Util::ValidateDomain(s) ? 1 : 0); }); }, {"a", ".", "-", "1", "_", " ", "\xff", string(1, '\0'), "xn--"}, {"a-b.example.com"}});
    return E;
}
static void run(Ctx& c, const Entry& e, const string& s, const string& what) {
    c.transition(); c.state(string(e.name) + "|" + s); c.note(string(e.name) + " on " + show(s, 3000)); c.sample(string(e.name) + " " + show(s, 200)); string t(s.data(), s.size()); // exact capacity: one octet beyond the terminator is outside
    string r = e.run(t); for (size_t b = 0, k; b <= r.size(); b = k + 1) { k = r.find(',', b); if (k == string::npos) k = r.size(); string x = r.substr(b, k - b); c.require(x.empty() || x == "permerror" || x == "temperror" || x == "fail", "class", string(e.name) + ": result class " + x + " for " + what); } c.validated(); c.outcome(string(e.name) + r);
}
static string der(int tag, const string& v) { string o(1, (char)tag); size_t n = v.size(); if (n < 128) o += (char)n; else if (n < 256) { o += (char)0x81; o += (char)n; } else { o += (char)0x82; o += (char)(n >> 8); o += (char)n; } return o + v; }
static string derint(const string& big) { string b = big; while (b.size() > 1 && !b[0]) b.erase(0, 1); if (b.empty() || (b[0] & 0x80)) b = string(1, '\0') + b; return der(2, b); }
static string spki(const string& n, const string& e) { return der(0x30, string("\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00", 15) + der(3, string(1, '\0') + der(0x30, derint(n) + derint(e)))); }
static const string& edmsg() { static string m = goodmsg(cfg::key(2), false, "relaxed/simple"); return m; }
static const string& rsamsg() { static string m = goodmsg(cfg::key(3), false, "relaxed/simple"); return m; }
static string with_b(const string& m, const string& b) { ref::Msg p = ref::split(m); ref::Sig s; ref::parse_sig(p.h[0], env::clock_now, s); const ref::Tag& t = s.t.at("b"); size_t at = m.find(t.value); string r = m; return r.replace(at, t.value.size(), b); }
static void key(Ctx& c, const string& msg, const string& rec, const string& what, bool maypass) {
    c.transition(); c.state(rec + msg); c.note(what + ": " + show(rec, 2000)); c.note(show(msg, 3000)); c.sample(what); string r = verify(msg, rec, DKIM::Validatory::DKIM, false); c.require(maypass || r != ",", "forged", "a signature passes with " + what); c.validated(); c.outcome(r);
}
void mc::phases(vector<Phase>& out, bool th) {
    { Phase p; p.name = "words"; int n = th ? 6 : 4; p.what = "every word up to " + std::to_string(n) + " symbols over an alphabet of 8-16 hostile symbols for each of 16 entry points (decoders, tokenizers, tag lists, key records, signature fields, canonicalization, message parser, verifier, signer), bare and behind a long legal prefix";
      p.body = [n](Ctx& c) { const Entry& e = entries()[(size_t)c.choose((int)entries().size(), "entry")]; bool pre = c.choose(2, "prefix"); string w = c.word(e.alphabet, 0, e.alphabet.size() > 12 && n > 4 ? n - 1 : n); run(c, e, pre ? e.prefix + w : w, show(w)); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "octets"; p.what = string("a well formed input for every entry point with every octet replaced by ") + (th ? "every value" : "32 values (each bit flipped, and delimiters, controls and octets above 127)") + ", inserted (12 values), deleted, doubled, and cut at every place";
      p.body = [th](Ctx& c) { const Entry& e = entries()[(size_t)c.choose((int)entries().size(), "entry")]; const string& b = c.pick(e.samples); int pos = c.choose((int)b.size() + 1); int k = c.choose(5); string s = b, w; size_t at = (size_t)pos; static const string I("\0\r\n \t:;=\"\\\xff?", 12);
          if (k == 0 && at < b.size()) { static const vector<int> Q = {0, 9, 10, 13, 32, '"', '(', ')', ':', ';', '<', '=', '>', '?', '@', '\\', '_', 'A', '0', 0x7f, 0x80, 0xa0, 0xc3, 0xff}; int x = c.choose(th ? 256 : 32); s[at] = (char)(th ? x : x < 8 ? b[at] ^ (1 << x) : Q[(size_t)x - 8]); w = fmt("octet %d replaced", pos); } else if (k == 1 && at < b.size()) s.erase(at, 1); else if (k == 2) s = b.substr(0, at); else if (k == 3) s.insert(at, 1, I[(size_t)c.choose((int)I.size())]); else if (k == 4) s.insert(at, b.substr(at, 1 + at % 7)); run(c, e, s, w); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "hostile-tags"; p.bound = th ? 3 : 2; p.what = "signature fields with up to " + std::to_string(p.bound) + " tags carrying hostile values (16 tags x up to 30 values), DKIM and ARC, rsa and ed25519, through whole verifications, with key records that have hostile parts too";
      p.body = [](Ctx& c) { bool arc = c.choose(2), ed = c.choose(2); const ref::Key& k = cfg::key(ed ? 2 : 3); static const bool th = c.thorough; static const vector<string> H = {"", "-", "\"", "0", "1", "-1", "51", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "2147483648", " 1", "1 1", "0x10", "1e3", "@", "a@", "@a", "a@b@example.com", string("a\0b", 3), "\xff\xfe", "=", "====", "A", "AA==", string(2000, 'A'), string(th ? 70000 : 3000, '='), ":", "a::b", "from:from:from:from:from:from", "%s%n%s%n", "\r\n ", "\r\n\t\r\n\t"};
          static const char* T[] = {"v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "t", "x", "z", "unknown"}; string val; 
          for (auto t : T) { string n = t, v; bool present = true; if (n == "v") v = "1"; else if (n == "a") v = k.type + "-sha256"; else if (n == "b") v = ref::b64enc(string(64, 'B')); else if (n == "bh") v = ref::b64enc(ref::sha("sha256", "x\r\n")); else if (n == "c") v = "relaxed/simple"; else if (n == "d") v = "example.com"; else if (n == "h") v = "from:to"; else if (n == "i" && arc) v = "1"; else if (n == "s") v = "sel"; else present = false;
              int d = c.deviate((int)H.size() + 3, t); if (d == 1) { present = !present; if (v.empty()) v = "1"; } else if (d == 2) { v += "; " + n + "=" + (v.empty() ? "1" : v); present = true; } else if (d >= 3) { v = H[(size_t)d - 3]; present = true; } if (present) val += string(val.empty() ? " " : "; ") + n + "=" + v; }
          string rec = lib::record(k); static const vector<string> R = {"", "; h=%s%n", "; t=\xff:s:y", "; s=email:\xff", "; k=rsa; k=rsa", "; v=DKIM2", "; h=sha1", "; n=" + string(th ? 60000 : 3000, 'x'), "; t=" + string(th ? 30000 : 2000, ':')}; rec += c.dev(R, "record");
          string m = string(arc ? "ARC-Message-Signature:" : "DKIM-Signature:") + val + "\r\nFrom: a\r\nTo: b\r\n\r\nx\r\n"; c.transition(); c.state(m + rec); c.note(show(m, 3000)); c.note(show(rec, 500)); c.sample(show(m, 300)); string r = verify(m, rec, arc ? DKIM::Validatory::ARC : DKIM::Validatory::DKIM, false); c.require(r.empty() || r == "permerror," || r == "temperror," || r == "fail,", "class", "result " + r + " for " + show(m, 1000)); c.validated(); c.outcome(r); }; p.split = 3; out.push_back(p); }
    { Phase p; p.name = "rsa-keys"; p.what = "the DER of an rsa key with every octet replaced by every value, deleted, and cut at every place, used to check the signature made with the real key"; p.body = [](Ctx& c) { string d = ref::unb64(cfg::key(3).pub64); int pos = c.choose((int)d.size()), k = c.choose(3); string e = d; if (k == 0) e[(size_t)pos] = (char)c.choose(256); if (k == 1) e.erase((size_t)pos, 1); if (k == 2) e = d.substr(0, (size_t)pos);
          key(c, rsamsg(), "v=DKIM1; k=rsa; p=" + ref::b64enc(e), fmt("DER octet %d edit %d", pos, k), e == d || e.substr(0, 30) != d.substr(0, 30)); }; p.split = 1; out.push_back(p); }
    { Phase p; p.name = "rsa-numbers"; p.what = "rsa keys with moduli of 0 to 16392 bits (zero, one, even, all ones, power of two) and exponents 0, 1, 2, 3, 65537, very long ones, with signatures of lengths around and far from the modulus length"; p.body = [](Ctx& c) { static const vector<int> bits = {0, 1, 2, 3, 8, 63, 64, 65, 368, 400, 504, 511, 512, 513, 1023, 1024, 2048, 4096, 8192, 16384, 16392}; int b = c.pick(bits), shape = c.choose(4), ex = c.choose(10), sl = c.choose(7), sv = c.choose(4); size_t len = (size_t)(b + 7) / 8; string n(len, shape == 0 ? '\xff' : '\0'); if (len) { unsigned char top = (unsigned char)(0xff >> (8 * len - (size_t)b)); if (shape == 0) n[0] = (char)top; else n[0] = (char)(1 << ((b - 1) % 8)); if (shape == 1) n[len - 1] |= 1; if (shape == 3) n[len - 1] |= 2; }
          string e; switch (ex) { case 0: e = string(1, '\0'); break; case 1: e = "\1"; break; case 2: e = "\2"; break; case 3: e = "\3"; break; case 4: e = string("\1\0\1", 3); break; case 5: e = string(8, '\xff'); break; case 6: e = string(9, '\xff'); break; case 7: e = n; break; case 8: e = "\x11" + string(b > 4096 ? 16 : 300, '\1'); break; case 9: e = "\1" + string(len + 1, '\0'); }
          size_t m = sl == 0 ? 0 : sl == 1 ? 1 : sl == 2 ? (len ? len - 1 : 0) : sl == 3 ? len : sl == 4 ? len + 1 : sl == 5 ? 11 : 2 * len + 7; string sig(m, sv == 0 ? '\0' : sv == 1 ? '\xff' : sv == 2 ? '\1' : '\0'); if (sv == 3 && m) sig[m - 1] = 1; if (b > 4096 && ex > 4) sig.resize(std::min(sig.size(), (size_t)64));
          key(c, with_b(rsamsg(), sig.empty() ? "=" : ref::b64enc(sig)), "v=DKIM1; k=rsa; p=" + ref::b64enc(spki(n, e)), fmt("modulus of %d bits shape %d, exponent %d, signature of %zu octets", b, shape, ex, m), false); }; p.split = 3; p.exec_limit_s = 40; out.push_back(p); }
    { Phase p; p.name = "ed25519-keys"; p.what = "ed25519 keys of 0 to 70 octets and small-order or non-canonical points, with signatures of 0 to 130 octets"; p.body = [](Ctx& c) { int kind = c.choose(10); string k; if (kind == 0) { int n = c.choose(71); k = ref::unb64(cfg::key(2).pub64); while ((int)k.size() < n) k += k; k.resize((size_t)n); } else { k = string(32, kind == 2 ? '\xff' : '\0'); if (kind == 3) k[0] = 1; if (kind == 4) k = "\xec" + string(30, '\xff') + "\x7f"; if (kind == 5) k = "\xed" + string(30, '\xff') + "\x7f"; if (kind == 6) k = "\xee" + string(30, '\xff') + "\x7f"; if (kind == 7) { k[0] = 1; k[31] = '\x80'; } if (kind == 8) k = ref::unb64("JuiVj8KyJ7BFw/SJ8u+Y8NXfrAXTxjM5sTgCiG1T/AU="); if (kind == 9) k = ref::unb64("xxdqcD1N2E+6PAt2DRBnDyogU/osOczGTsf9d5KsA3o="); }
          int n = c.choose(131), fill = c.choose(3); string sig = ref::unb64(ref::nows([] { ref::Msg p = ref::split(edmsg()); ref::Sig s; ref::parse_sig(p.h[0], env::clock_now, s); return s.t.at("b").value; }())); if (fill) sig = string(64, fill == 1 ? '\0' : '\xff'); while ((int)sig.size() < n) sig += sig; sig.resize((size_t)n); if (kind >= 3 && fill == 1 && n >= 1) sig[0] = 1;
          bool own = kind == 0 && k == ref::unb64(cfg::key(2).pub64) && !fill && n == 64; key(c, with_b(edmsg(), sig.empty() ? "=" : ref::b64enc(sig)), "v=DKIM1; k=ed25519; p=" + (k.empty() ? "=" : ref::b64enc(k)), fmt("key kind %d of %zu octets, signature of %d octets, fill %d", kind, k.size(), n, fill), own); }; p.split = 2; out.push_back(p); }
    { Phase p; p.name = "long"; p.what = "for every entry point, every pair of its symbols repeated up to 2^12 (quick) or 2^15 times, alone and followed by a third part: time, recursion depth and memory stay bounded"; p.body = [th](Ctx& c) { const Entry& e = entries()[(size_t)c.choose((int)entries().size(), "entry")]; const auto& A = e.alphabet; const string &a = c.pick(A), &b = c.pick(A); int tail = c.choose(3); bool pre = c.choose(2); size_t n = th ? 1u << 15 : 1u << 12; if (a.size() + b.size() > 40) n >>= 4; string s = pre ? e.prefix : ""; for (size_t i = 0; i < n; i++) { s += a; if (&a != &b) s += b; } if (tail == 1) s += A[0] + A[1]; if (tail == 2) s += A.back() + A[A.size() / 2];
          run(c, e, s, fmt("%zu repetitions", n)); }; p.split = 2; p.exec_limit_s = 30; out.push_back(p); }
    { Phase p; p.name = "stack"; p.what = "for every entry point, every pair of its symbols, one repeated 2^14 times, then the other as often (nesting, and its closing), on a thread with a stack of 256 KiB: the depth of recursion does not grow with the input"; p.body = [th](Ctx& c) { const Entry& e = entries()[(size_t)c.choose((int)entries().size(), "entry")]; const auto& A = e.alphabet; const string &a = c.pick(A), &b = c.pick(A); int shape = c.choose(3); size_t n = th ? 1u << 16 : 1u << 14; if (a.size() + b.size() > 20) n >>= 5; string s = e.prefix; for (size_t i = 0; i < n; i++) s += a; if (shape == 1) s += "a"; if (shape == 2) s += A[0]; for (size_t i = 0; i < n; i++) s += b;
          lib::small_stack(256 << 10, [&] { run(c, e, s, fmt("%zu repetitions", n)); }); }; p.split = 2; p.exec_limit_s = 40; out.push_back(p); }
}
