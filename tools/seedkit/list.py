seed("C08-chunk-lines", "C08", [("src/Canonicalization.cpp", "		size_t lines = 0;\n		while (stream.good())\n		{\n", "		while (stream.good())\n		{\n			size_t lines = 0;\n")],
'''int main() { string b(8090, 'x'); for (int pad = 0; pad < 16; pad++) { string m = b + string(pad, 'y') + "\\r\\n\\r\\nend\\r\\n"; for (auto mode : {DKIM::DKIM_C_SIMPLE, DKIM::DKIM_C_RELAXED}) CHECK(canon(m, mode) == m); } }''',
"a body longer than one read buffer with line ends exactly at the buffer boundary", "the pending line ends are forgotten between two reads, so lines are joined")
seed("C05-empty-last-chunk", "C05", [("src/Canonicalization.cpp", "			if (!buf.empty())\n				emptyBody = false;\n", "			emptyBody = buf.empty();\n")],
'''int main() { string m = "text\\r\\n"; for (int i = 0; i < 9000; i++) m += "\\r\\n"; CHECK(canon(m, DKIM::DKIM_C_RELAXED) == "text\\r\\n"); }''',
"a relaxed body followed by more blank lines than fit one read buffer", "the last line end of the body is dropped when the last chunk contributes nothing")
seed("C07-limit-tail", "C07", [("src/Canonicalization.cpp", "		std::string buf = \"\\r\\n\";\n		if (bodyLimit)\n		{\n			size_t left = std::min(buf.size(), bodySize);\n			func(buf.c_str(), left);\n", "		std::string buf = \"\\r\\n\";\n		if (bodyLimit)\n		{\n			size_t left = std::min(buf.size(), bodySize);\n			func(buf.c_str(), left ? buf.size() : 0);\n")],
'''int main() { string m = "abc\\r\\n"; for (size_t l = 0; l <= m.size(); l++) { CHECK(canon(m, DKIM::DKIM_C_SIMPLE, true, l) == m.substr(0, l)); CHECK(canon(m, DKIM::DKIM_C_RELAXED, true, l) == m.substr(0, l)); } }''',
"a body length limit that ends between the CR and the LF of the last line", "one octet more than l= allows is hashed")
seed("C06-double-fold", "C06", [("src/Canonicalization.cpp", "		while (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_FWS).empty())\n			found = true;\n", "		if (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_FWS).empty())\n			found = true;\n")],
'''int main() { DKIM::Conversion::CanonicalizationHeader c(DKIM::DKIM_C_RELAXED); CHECK(c.FilterHeader("Subject: a\\r\\n b") == "subject:a b"); CHECK(c.FilterHeader("Subject: a\\r\\n \\r\\n\\tb") == "subject:a b"); CHECK(c.FilterHeader("Subject: a \\t\\r\\n \\r\\n \\r\\n b") == "subject:a b"); }''',
"a header field folded with a continuation line of white space only", "two adjacent foldings become two spaces in relaxed canonicalization")
seed("C04-exhausted", "C04", [("src/Validatory.cpp", "		if (head == headerCache.end() || head->second.size() == 0)\n			continue;\n", "		if (head == headerCache.end() || head->second.size() == 0)\n			break;\n")],
'''int main() { string m = "From: a@example.com\\r\\nSubject: s\\r\\n\\r\\nx\\r\\n"; string f = craft(field("", "from:to:subject", "x\\r\\n"), "From: a@example.com\\r\\nSubject: s\\r\\n"); CHECK(passes(f + "\\r\\n" + m)); CHECK(!passes(f + "\\r\\nTo: t\\r\\n" + m)); }''',
"an h= list that names an absent field before a present one", "fields listed behind an absent one are left out of the hash")
seed("C10-identity-suffix", "C10", [("src/Signature.cpp", '''("." + m_domain) == m_mailDomain.substr(m_mailDomain.size() - m_domain.size() - 1)''', '''m_domain == m_mailDomain.substr(m_mailDomain.size() - m_domain.size())''')],
'''int main() { string m = "From: a@example.com\\r\\n\\r\\nx\\r\\n", c = "From: a@example.com\\r\\n"; CHECK(passes(craft(field(" i=u@sub.example.com;", "from", "x\\r\\n"), c) + "\\r\\n" + m)); CHECK(!passes(craft(field(" i=u@notexample.com;", "from", "x\\r\\n"), c) + "\\r\\n" + m)); }''',
"an identity whose domain merely ends in the letters of the signing domain", "i=@notexample.com is accepted for d=example.com")
seed("C11-flag-s", "C11", [("src/Validatory.cpp", "			if (sig.GetDomain() != sig.GetMailDomain())\n", "			if (sig.GetMailDomain().find(sig.GetDomain()) == std::string::npos)\n")],
'''int main() { string m = "From: a@example.com\\r\\n\\r\\nx\\r\\n", c = "From: a@example.com\\r\\n", s = "t=s; " + REC.substr(9); string a = craft(field(" i=u@example.com;", "from", "x\\r\\n"), c) + "\\r\\n" + m, b = craft(field(" i=u@sub.example.com;", "from", "x\\r\\n"), c) + "\\r\\n" + m; CHECK(passes(a, s)); CHECK(passes(b)); CHECK(!passes(b, s)); }''',
"a key with flag s and an identity in a sub-domain", "the strict flag of a key is not enforced for sub-domains")
seed("C12-long-strings", "C12", [("src/Resolver.cpp", "						const unsigned char* ptr = answerptr;\n", "						const char* ptr = (const char*)answerptr;\n")],
'''#include <cstring>
#include <resolv.h>
#include <netdb.h>
static string pkt;
#undef res_nquery
extern "C" int res_nquery(res_state, const char*, int, int, unsigned char* a, int n) { memcpy(a, pkt.data(), pkt.size()); return (int)pkt.size(); }
int main() { for (size_t len : {10u, 127u, 128u, 200u, 255u}) { string t(len, 'k'), rd = string(1, (char)len) + t + string("\\3end", 4); pkt = string("\\0\\1\\x81\\x80\\0\\1\\0\\1\\0\\0\\0\\0\\1a\\0\\0\\x10\\0\\1\\xc0\\x0c\\0\\x10\\0\\1\\0\\0\\0\\1", 29); pkt += (char)(rd.size() >> 8); pkt += (char)rd.size(); pkt += rd; string r; CHECK(DKIM::Util::Resolver().GetTXT("a", r)); CHECK(r == t + "end"); } }''',
"a TXT record with a string of more than 127 octets, as every 2048-bit key has", "long strings of a key record are dropped")
seed("C14-second-read", "C14", [("src/Canonicalization.cpp", "		stream.clear();\n		stream.seekg(bodyOffset, std::istream::beg);\n", "		stream.seekg(bodyOffset, std::istream::beg);\n")],
'''int main() { DKIM::SignatoryOptions o; base(o); string m = "From: a@example.com\\r\\n\\r\\nx\\r\\n"; string s = sign(m, o); CHECK(passes(s + "\\r\\n" + m)); auto r = verify(s + "\\r\\n" + s + "\\r\\n" + m); CHECK(r.size() == 2 && r[0] == "pass" && r[1] == "pass"); }''',
"a second signature checked with the same validator", "the body can be read only once")
seed("C09-value-chars", "C09", [("src/TagList.cpp", "(data.peek() >= '\\x3C' && data.peek() <= '\\x7E')", "(data.peek() >= '\\x3C' && data.peek() < '\\x7E')")],
'''int main() { DKIM::TagList t; t.Parse("v=1; n=a~b; x=<z>"); DKIM::TagListEntry e; CHECK(t.GetTag("n", e) && e.GetValue() == "a~b"); CHECK(t.GetTag("x", e) && e.GetValue() == "<z>"); }''',
"a tag value with a tilde", "the last printable character is refused in tag values")
seed("C17-qp-space", "C17", [("src/QuotedPrintable.cpp", "		3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, /* 0x20 */\n", "		1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, /* 0x20 */\n")],
'''int main() { for (string s : {"a b", "\\"john doe\\"@example.com", "  ", "plain"}) CHECK(DKIM::Conversion::QuotedPrintable::Decode(DKIM::Conversion::QuotedPrintable::Encode(s)) == s); }''',
"an identity with a space", "spaces are emitted unencoded and lost when decoded")
seed("C17-base64-long", "C17", [("src/Base64.cpp", "	while ((r = BIO_read(l, b, sizeof b)) > 0)\n		result.append(b, (size_t)r);\n", "	if ((r = BIO_read(l, b, sizeof b)) > 0)\n		result.assign(b, (size_t)r);\n")],
'''int main() { for (size_t n : {1u, 700u, 1023u, 1024u, 1025u, 3000u, 9000u}) { string s; for (size_t i = 0; i < n; i++) s += (char)(i * 7); CHECK(DKIM::Conversion::Base64_Decode(b64(s)) == s); CHECK(DKIM::Conversion::Base64_Encode(s) == b64(s)); } }''',
"base64 text of more than 1024 decoded octets", "long base64 text is cut")
seed("C19-nested-comment", "C19", [("src/Tokenizer.cpp", "				if (data.peek() == '(')\n					++depth;\n				if (data.peek() == ')')\n", "				if (data.peek() == '(' && depth < 2)\n					++depth;\n				if (data.peek() == ')')\n")],
'''int main() { using DKIM::Tokenizer::ParseAddressList; typedef std::list<string> L; CHECK(ParseAddressList("a@b (x)") == L({"a@b"})); CHECK(ParseAddressList("a@b (x(y)z)") == L({"a@b"})); CHECK(ParseAddressList("a@b (x(y(z)y)x), c@d") == L({"a@b", "c@d"})); }''',
"comments nested three deep", "text of a deeply nested comment becomes an address")
seed("C20-unwind", "C20", [("src/Tokenizer.cpp", "				for (size_t i = _s.size(); i > 0; i--)\n				{\n					stream.putback(_s[i-1]);\n				}\n", "				for (size_t i = 0; i < _s.size(); i++)\n				{\n					stream.unget();\n					stream.clear();\n				}\n				if (_s.size() > 3)\n					stream.get();\n")],
'''int main() { std::istringstream in(" \\t\\r\\nx"); CHECK(DKIM::Tokenizer::ReadWhiteSpace(in, DKIM::Tokenizer::READ_FWS).empty()); CHECK(in.tellg() == 0); std::istringstream in2("\\r\\nx"); CHECK(DKIM::Tokenizer::ReadWhiteSpace(in2, DKIM::Tokenizer::READ_FWS).empty()); CHECK(in2.tellg() == 0); }''',
"two white space characters in front of a line end that does not fold", "one character is consumed although no folding white space is read")
seed("C23-dns-class", "C23", [("src/Validatory.cpp", '''		throw DKIM::TemporaryError(StringFormat("DNS query failed for''', '''		throw DKIM::PermanentError(StringFormat("DNS query failed for''')],
'''int main() { string m = "From: a@example.com\\r\\n\\r\\nx\\r\\n"; m = craft(field("", "from", "x\\r\\n"), "From: a@example.com\\r\\n") + "\\r\\n" + m; std::istringstream in(m); DKIM::Validatory v(in); v.CustomDNSResolver = [](const string&, string&, void*) { return false; }; DKIM::Signature s; DKIM::PublicKey p; auto i = v.GetSignatures().begin(); v.GetSignature(i, s); bool t = false; try { v.GetPublicKey(s, p); } catch (DKIM::TemporaryError& e) { t = string(e.getAuthenticationResult()) == "temperror"; } catch (DKIM::PermanentError&) {} CHECK(t); }''',
"a key lookup that fails temporarily", "a DNS outage is reported as a permanent failure")
seed("C24-expiry-edge", "C24", [("src/Signature.cpp", "nullptr, 10) < time(nullptr))\n			throw DKIM::PermanentError(\"Signature has expired (x)\");", "nullptr, 10) <= time(nullptr))\n			throw DKIM::PermanentError(\"Signature has expired (x)\");")],
'''#include <ctime>
static time_t now = 1700000000;
extern "C" time_t time(time_t* t) __THROW { if (t) *t = now; return now; }
int main() { string m = "From: a@example.com\\r\\n\\r\\nx\\r\\n"; m = craft(field(" x=1700000000;", "from", "x\\r\\n"), "From: a@example.com\\r\\n") + "\\r\\n" + m; CHECK(passes(m)); now = 1700000001; CHECK(!passes(m)); now = 1699999999; CHECK(passes(m)); }''',
"a verification in the very second of the expiration", "a signature is refused one second too early")
seed("C25-stale-state", "C25", [("tools/src/main.cpp", "		// list all valid SDID's\n", "		DKIM::PublicKey pub;\n		// list all valid SDID's\n"), ("tools/src/main.cpp", "			DKIM::PublicKey pub;\n			DKIM::Signature sig;\n", "			DKIM::Signature sig;\n")], None,
"a message with two signatures", "the key of the first signature is reused when the second is validated",
'''#!/bin/bash
set -u
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT; cd "$t"
cat > seam.cpp <<'X'
#include <cstring>
#include <string>
extern "C" int res_nquery(void*, const char*, int, int, unsigned char* a, int) { std::string t = "v=DKIM1; k=ed25519; p=A6EHv/POEL4dcN0Y50vAmWfk1jCbpQ1fHdyGZBJVMbg=", p("\\0\\1\\x81\\x80\\0\\1\\0\\1\\0\\0\\0\\0\\1a\\0\\0\\x10\\0\\1\\xc0\\x0c\\0\\x10\\0\\1\\0\\0\\0\\1\\0", 30); p += (char)(t.size() + 1); p += (char)t.size(); p += t; memcpy(a, p.data(), p.size()); return (int)p.size(); }
X
g++ -shared -fPIC -O1 seam.cpp -o seam.so || exit 3
printf 'AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8=' > key; printf 'From: a@example.com\\r\\n\\r\\nx\\r\\n' > msg
T=/repo/_build/tools/dkimtool
"$T" -s sel -d example.com -k key --keyformat ed25519 msg > s1 || exit 4
cat s1 s1 msg > two
LD_PRELOAD="$t/seam.so" timeout 20 "$T" -v two > out; cat out
[ "$(grep -c ' OK$' out)" = 2 ]
''')
seed("C26-fold-name", "C26", [("src/MailParser.cpp", "		m_name.erase(m_name.find_last_not_of(\" \\t\") + 1);\n", "		m_name.erase(m_name.find_last_not_of(' ') + 1);\n")],
'''int main() { string m = "From: a\\r\\nDKIM-Signature : x\\r\\nDKIM-Signature\\t: y\\r\\ndkim-signature: z\\r\\n\\r\\n"; std::istringstream in(m); DKIM::Validatory v(in); CHECK(v.GetSignatures().size() == 3); }''',
"a tab between the name of a signature field and the colon", "such signature fields are not found")
seed("C27-verify-error", "C27", [("src/Validatory.cpp", "			if (r != 1)\n				throw DKIM::PermanentError(\"Signature did not verify\", AR_FAIL);\n", "			if (r == 0)\n				throw DKIM::PermanentError(\"Signature did not verify\", AR_FAIL);\n")],
'''#include <openssl/rsa.h>
#include <openssl/evp.h>
#include <openssl/x509.h>
#include <openssl/pem.h>
static bool fault = false;
#include <dlfcn.h>
extern "C" int RSA_verify(int t, const unsigned char* m, unsigned ml, const unsigned char* s, unsigned sl, RSA* r) { static auto f = (int (*)(int, const unsigned char*, unsigned, const unsigned char*, unsigned, RSA*))dlsym(RTLD_NEXT, "RSA_verify"); return fault ? -1 : f(t, m, ml, s, sl, r); }
int main() { EVP_PKEY* k = EVP_RSA_gen(1024); RSA* r = EVP_PKEY_get1_RSA(k); unsigned char* der = nullptr; int n = i2d_PUBKEY(k, &der); DKIM::SignatoryOptions o; o.SetDomain("example.com").SetSelector("sel").SetRSAPrivateKey(r, true); string m = "From: a@example.com\\r\\n\\r\\nx\\r\\n", s = sign(m, o), rec = "p=" + b64(string((char*)der, n)); CHECK(passes(s + "\\r\\n" + m, rec)); string m2 = m; m2[6] = (char)98; CHECK(!passes(s + "\\r\\n" + m2, rec)); fault = true; CHECK(!passes(s + "\\r\\n" + m, rec)); }''',
"an error inside the RSA verification primitive", "an internal error of the crypto library counts as a valid signature")
seed("C15-format-buffer", "C15", [("src/Util.cpp", "	char* mem = nullptr;\n", "	static char* mem = nullptr;\n")],
'''#include <atomic>
#include <chrono>
#include <thread>
int main() { std::atomic<bool> bad(false), stop(false); vector<std::thread> t; string m = "From: a@example.com\\r\\n\\r\\nx\\r\\n"; for (int k = 0; k < 4; k++) t.emplace_back([&, k] { DKIM::SignatoryOptions o; base(o).SetTimestamp(1000 + k * 1111111111L).SetExpiration(5000000000L + k).SetIdentity(string(900, (char)('a' + k)) + "@example.com"); string alone = "t=" + std::to_string(1000 + k * 1111111111L) + ";", id = string(900, (char)('a' + k)); while (!stop && !bad) { string s = sign(m, o); if (s.find(alone) == string::npos || s.find(id) == string::npos) bad = true; } });
 for (int i = 0; i < 300 && !bad; i++) std::this_thread::sleep_for(std::chrono::milliseconds(100)); stop = true; for (auto& x : t) x.join(); CHECK(!bad); }''',
"two threads that sign at the same time, one of them preempted while it formats a tag", "tags of another thread's signature appear in a signature")
seed("C15-shared-digest", "C15", [("src/TagList.cpp", "	std::stringstream data(input);\n\n	while (true)\n	{\n		std::string name;\n		std::string value;\n", "	static std::string name, value;\n	std::stringstream data(input);\n\n	while (true)\n	{\n		name.clear();\n		value.clear();\n")],
'''#include <atomic>
#include <chrono>
#include <thread>
int main() { std::atomic<bool> bad(false), stop(false); vector<std::thread> t; for (int k = 0; k < 4; k++) t.emplace_back([&, k] { string n(1, (char)('a' + k)), v(9, (char)('A' + k)), in; for (int i = 0; i < 20; i++) in += n + std::to_string(i) + "=" + v + ";"; while (!stop && !bad) { try { DKIM::TagList l; l.Parse(in); DKIM::TagListEntry e; for (int i = 0; i < 20; i++) if (!l.GetTag(n + std::to_string(i), e) || e.GetValue() != v) bad = true; } catch (...) { bad = true; } } });
 for (int i = 0; i < 300 && !bad; i++) std::this_thread::sleep_for(std::chrono::milliseconds(100)); stop = true; for (auto& x : t) x.join(); CHECK(!bad); }''',
"two threads that parse tag lists at the same time", "tag names and values of two threads are mixed up")
seed("C13-short-key", "C13", [("src/PublicKey.cpp", "			if (tmp.size() != 32)\n", "			if (tmp.empty())\n")],
'''int main() { for (size_t n = 1; n < 40; n++) { DKIM::PublicKey p; bool ok = true; try { p.Parse("k=ed25519; p=" + b64(string(n, 'x'))); } catch (DKIM::PermanentError&) { ok = false; } CHECK(ok == (n == 32)); } }''',
"an ed25519 key record with too few octets", "a short key is accepted and verification reads beyond it")
seed("C22-del-first", "C22", [("src/SignatoryOptions.cpp", "	m_headers.insert(m_headers.end(), headers.begin(), headers.end());\n", "	m_headers.splice(m_headers.end(), std::list<std::string>(headers.begin(), headers.end()));\n	m_headers.sort();\n	m_headers.unique();\n	m_oversignheaders.remove_if([&headers] (const std::string& h) { return std::find(headers.begin(), headers.end(), h) != headers.end(); });\n"), ("src/SignatoryOptions.cpp", "#include <sodium.h>\n", "#include <sodium.h>\n#include <algorithm>\n")],
'''int main() { DKIM::SignatoryOptions o; base(o).SetOversignHeaders({"x-a"}).AddHeaders({"x-a"}); string m = "From: a@example.com\\r\\nX-A: 1\\r\\n\\r\\nx\\r\\n"; string s = sign(m, o); CHECK(passes(s + "\\r\\n" + m)); CHECK(!passes(s + "\\r\\nX-A: 2\\r\\n" + m)); }''',
"a header that is first oversigned and then also added to the signed list", "adding a header silently withdraws its oversigning")
seed("C21-fold-colon", "C21", [("src/Signatory.cpp", '''				dkimHeader += headerlist + (insertColon?":":"") + "\\r\\n";\n''', '''				dkimHeader += headerlist + (insertColon && headerlist.size() < 80?":":"") + "\\r\\n";\n''')],
'''int main() { for (int n = 1; n < 90; n++) { string x = "x-" + string(n, 'q'); DKIM::SignatoryOptions o; base(o).SetHeaders({"from", x, "subject"}); string m = "From: a@example.com\\r\\n" + x + ": 1\\r\\nSubject: s\\r\\n\\r\\nx\\r\\n"; string s = sign(m, o); CHECK(passes(s + "\\r\\n" + m)); } }''',
"header names whose lengths fill a line of h= to exactly 80 columns", "the separator between two names is lost when the list is folded there")
seed("C18-second-word", "C18", [("src/EncodedWord.cpp", "			w = ReadWhiteSpace(data, READ_CRLF);\n			if (!w.empty())\n			{\n				continue;\n			}\n", "			w = ReadWhiteSpace(data, READ_CRLF);\n			if (!w.empty())\n			{\n				ws = \" \";\n				continue;\n			}\n")],
'''int main() { CHECK(DKIM::Conversion::EncodedWord::Decode("a\\r\\n b") == "a b"); CHECK(DKIM::Conversion::EncodedWord::Decode("a  \\r\\n\\tb") == "a  \\tb"); CHECK(DKIM::Conversion::EncodedWord::Decode("=?x?q?a?= \\r\\n =?x?q?b?=") == "ab"); }''',
"plain text with white space in front of a folding", "white space in front of a folding is changed")
seed("C01-two-ids", "C01", [("src/Signatory.cpp", "		size_t offset = 3; // \"\\tb=\";\n		std::string split = Base64_Encode(tmp3);\n", "		size_t offset = 3; // \"\\tb=\";\n		if (tmp3.size() > crypto_sign_BYTES)\n			while (!tmp3.empty() && tmp3[0] == '\\0')\n				tmp3.erase(0, 1);\n		std::string split = Base64_Encode(tmp3);\n")],
'''#include <openssl/rsa.h>
#include <openssl/evp.h>
#include <openssl/x509.h>
int main() { EVP_PKEY* k = EVP_RSA_gen(1024); RSA* r = EVP_PKEY_get1_RSA(k); unsigned char* der = nullptr; int n = i2d_PUBKEY(k, &der); DKIM::SignatoryOptions o; o.SetDomain("example.com").SetSelector("sel").SetRSAPrivateKey(r, true); string rec = "p=" + b64(string((char*)der, n)); for (int i = 0; i < 4000; i++) { string m = "From: a@example.com\\r\\nSubject: " + std::to_string(i) + "\\r\\n\\r\\nx\\r\\n"; CHECK(passes(sign(m, o) + "\\r\\n" + m, rec)); } }''',
"an RSA signature that begins with a zero octet (one message in 256)", "leading zero octets of an RSA signature are dropped, so it does not verify")
seed("C03-body-prefix", "C03", [("src/Validatory.cpp", "	if (sig.GetBodyHash().size() != md_len ||\n			memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)\n", "	if (sig.GetBodyHash().size() < md_len ||\n			strncmp(sig.GetBodyHash().c_str(), (const char*)md_value, md_len) != 0)\n")],
'''int main() { string c = "From: a@example.com\\r\\n"; vector<string> z; for (int i = 0; z.size() < 2; i++) { string b = std::to_string(i) + "\\r\\n"; if (sha256(b)[0] == 0) z.push_back(b); } string f = craft(field("", "from", z[0]), c) + "\\r\\n"; CHECK(passes(f + c + "\\r\\n" + z[0])); CHECK(!passes(f + c + "\\r\\n" + z[1])); }''',
"two bodies whose hashes share a prefix that ends in a zero octet (one in 256)", "hashes are compared only up to their first zero octet, so a body can be exchanged")
seed("C02-bh-fold", "C02", [("src/Signature.cpp", "	std::string bhtmp = bh.GetValue();\n", "	const std::string bhval = bh.GetValue();\n	if (bhval.find_first_not_of(\"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/= \\r\\n\") != std::string::npos)\n		throw DKIM::PermanentError(\"Malformed body hash (bh)\");\n	std::string bhtmp = bhval;\n")],
"""int main() { string c = "From: a@example.com\\r\\n", m = c + "\\r\\nx\\r\\n"; for (string w : {" ", "\\t", "\\r\\n ", " \\r\\n\\t"}) { string f = field("", "from", "x\\r\\n"); f.insert(f.find("bh=") + 13, w); CHECK(passes(craft(f, c) + "\\r\\n" + m)); } }""",
"a signature whose bh= is folded with a tab", "tabs inside bh= are not removed before decoding")
