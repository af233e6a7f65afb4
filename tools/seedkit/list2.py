M = 'string m = "From: a@example.com\\r\\n\\r\\nx\\r\\n", c = "From: a@example.com\\r\\n"; '
seed("C08-blank-separator", "C08", [("src/MailParser.cpp", "	if (line.size() == 0)\n	{\n", "	if (line.find_first_not_of(\" \\t\") == std::string::npos)\n	{\n")],
'''int main() { string t = "From: a\\r\\n \\r\\n b\\r\\nSubject: s\\r\\n\\r\\nbody"; std::istringstream in(t); DKIM::Message m; while (m.ParseLine(in) && !m.IsDone()) {} CHECK(m.GetHeaders().size() == 2); CHECK(m.GetHeaders().front()->GetHeader() == "From: a\\r\\n \\r\\n b"); CHECK(t.substr(m.GetBodyOffset()) == "body"); }''',
"a folded field with a continuation line of white space only", "the header section ends at a continuation line that holds only white space")
seed("C08-late-colon", "C08", [("src/MailParser.cpp", "		size_t sep = m_header.find(':');\n", "		size_t sep = data.find(':');\n")],
'''int main() { string t = "Sub\\r\\n ject: s\\r\\nA: b\\r\\n\\r\\nbody"; std::istringstream in(t); DKIM::Message m; while (m.ParseLine(in) && !m.IsDone()) {} CHECK(m.GetHeaders().size() == 2); auto h = m.GetHeaders().front(); CHECK(h->GetHeader().substr(h->GetValueOffset()) == " s"); CHECK(h->GetName() == "Sub\\r\\n ject"); }''',
"a field whose first colon stands on a continuation line", "name and value are cut at the wrong place when the colon is on a later line")
seed("C16-short-read", "C16", [("src/Canonicalization.cpp", "			stream.read(buffer, sizeof buffer);\n", "			stream.read(buffer, 1);\n			std::streamsize got = stream.gcount() + (stream.good() ? stream.readsome(buffer + 1, sizeof buffer - 1) : 0);\n"), ("src/Canonicalization.cpp", "i < stream.gcount(); ++i)", "i < got; ++i)"), ("src/Canonicalization.cpp", "		bool pendingwsp = false;\n		size_t lines = 0;\n		while (stream.good())\n		{\n", "		size_t lines = 0;\n		while (stream.good())\n		{\n			bool pendingwsp = false;\n")],
'''struct B : std::streambuf { string t; size_t cut; B(const string& s, size_t c) : t(s), cut(c) { setg(&t[0], &t[0], &t[0]); } int_type underflow() override { size_t at = gptr() - eback(); if (at >= t.size()) return EOF; size_t e = at < cut ? cut : t.size(); setg(&t[0], &t[0] + at, &t[0] + e); return (unsigned char)t[at]; } pos_type seekpos(pos_type p, std::ios_base::openmode) override { setg(&t[0], &t[0] + (off_t)p, &t[0] + (off_t)p); return p; } pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override { return seekpos(d == std::ios_base::beg ? o : d == std::ios_base::cur ? gptr() - eback() + o : (off_type)t.size() + o, m); } };
int main() { string t = "a b  c \\r\\nd\\r\\n"; string w = "a b c\\r\\nd\\r\\n"; for (size_t k = 1; k < t.size(); k++) { B b(t, k); std::istream in(&b); string o; DKIM::Conversion::CanonicalizationBody(in, DKIM::DKIM_C_RELAXED, 0, false, 0, [&](const char* p, size_t n) { o.append(p, n); }); CHECK(o == w); } }''',
"a stream that returns a read ending in white space inside a line, relaxed body", "white space at the end of one read is forgotten, so the result depends on how the stream delivers")
seed("C16-tell-rewind", "C16", [("src/Signatory.cpp", "	// create signature for our body (message data)\n", "	if (m_file.rdstate() & std::ios::failbit) m_file.clear();\n	std::streamsize avail = m_file.rdbuf()->in_avail();\n	// create signature for our body (message data)\n"), ("src/Signatory.cpp", "			m_msg.GetBodyOffset(),\n			options.GetBodySignLength(),\n", "			avail == 0 ? -1 : m_msg.GetBodyOffset(),\n			options.GetBodySignLength(),\n")],
'''struct B : std::streambuf { string t; size_t cut; B(const string& s, size_t c) : t(s), cut(c) { setg(&t[0], &t[0], &t[0]); } int_type underflow() override { size_t at = gptr() - eback(); if (at >= t.size()) return EOF; size_t e = at < cut ? cut : t.size(); setg(&t[0], &t[0] + at, &t[0] + e); return (unsigned char)t[at]; } pos_type seekoff(off_type o, std::ios_base::seekdir, std::ios_base::openmode) override { return gptr() - eback(); } pos_type seekpos(pos_type p, std::ios_base::openmode) override { setg(&t[0], &t[0] + (off_t)p, &t[0] + (off_t)p); return p; } pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override { return seekpos(d == std::ios_base::beg ? o : d == std::ios_base::cur ? gptr() - eback() + o : (off_type)t.size() + o, m); } };
int main() { DKIM::SignatoryOptions o; base(o); string m = "From: a@example.com\\r\\nTo: b\\r\\n\\r\\nbody\\r\\n", w = sign(m, o); for (size_t k = 1; k < m.size(); k++) { B b(m, k); std::istream in(&b); DKIM::Signatory s(in); CHECK(s.CreateSignature(o) == w); } }''',
"a stream buffer that runs empty exactly at the end of the header section", "the body is taken to be absent when no octet of it is buffered yet")
seed("C22-sticky-relative", "C22", [("src/SignatoryOptions.cpp", "	m_expirationAbsolute = absolute;\n", "	if (!absolute) m_expirationAbsolute = false;\n")],
'''int main() { DKIM::SignatoryOptions o; base(o); o.SetExpiration(3600, false).SetExpiration(2000000000, true); CHECK(o.GetExpirationAbsolute() && o.GetExpiration() == 2000000000); string s = sign("From: a@example.com\\r\\n\\r\\nx\\r\\n", o); CHECK(s.find(" x=2000000000;") != string::npos); }''',
"an absolute expiry set after a relative one on the same options", "the last expiry call does not win")
seed("C24-int-expiry", "C24", [("src/Signature.cpp", "		if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))\n", "		if (atoi(x.GetValue().c_str()) < time(nullptr))\n")],
'''int main() { ''' + M + '''CHECK(passes(craft(field(" x=2100000000;", "from", "x\\r\\n"), c) + "\\r\\n" + m)); CHECK(passes(craft(field(" x=2147483648;", "from", "x\\r\\n"), c) + "\\r\\n" + m)); CHECK(passes(craft(field(" x=4294967297;", "from", "x\\r\\n"), c) + "\\r\\n" + m)); }''',
"an expiry beyond 2038", "x= above 2^31-1 wraps and the signature counts as expired")
seed("C24-frozen-clock", "C24", [("src/Signatory.cpp", "				timestamp = time(nullptr);\n", "			{\n				static const time_t now = time(nullptr);\n				timestamp = now;\n			}\n")],
'''#include <ctime>
static time_t now = 1500000000; extern "C" time_t time(time_t* t) noexcept { if (t) *t = now; return now; }
int main() { DKIM::SignatoryOptions o; base(o); o.SetTimestamp(-1); string m = "From: a@example.com\\r\\n\\r\\nx\\r\\n"; CHECK(sign(m, o).find(" t=1500000000;") != string::npos); now += 5; CHECK(sign(m, o).find(" t=1500000005;") != string::npos); }''',
"a second signature made later in the same process", "the timestamp of every later signature is the time of the first")
seed("C10-octal-length", "C10", [("src/Signature.cpp", "strtoul(l.GetValue().c_str(), &ptr, 10)", "strtoul(l.GetValue().c_str(), &ptr, 0)")],
'''int main() { string m = "From: a@example.com\\r\\n\\r\\n0123456789abc\\r\\n", c = "From: a@example.com\\r\\n"; CHECK(passes(craft(field(" l=10;", "from", "0123456789"), c) + "\\r\\n" + m)); CHECK(passes(craft(field(" l=010;", "from", "0123456789"), c) + "\\r\\n" + m)); CHECK(passes(craft(field(" l=0000;", "from", ""), c) + "\\r\\n" + m)); }''',
"a body length with a leading zero", "l=010 is read as octal")
seed("C10-arc-zero", "C10", [("src/Signature.cpp", "		if (m_arcInstance < 1 || m_arcInstance > 50)\n", "		if (m_arcInstance - 1 > 50)\n")],
'''int main() { string f = "ARC-Message-Signature: i=@; a=ed25519-sha256; d=example.com; s=sel; h=from; bh=" + b64(sha256("x\\r\\n")) + "; b=", m = "From: a@example.com\\r\\n\\r\\nx\\r\\n", c = "From: a@example.com\\r\\n"; for (int i = 0; i < 60; i++) { string g = f; g.replace(g.find('@'), 1, std::to_string(i)); auto r = verify(craft(g, c) + "\\r\\n" + m, REC, DKIM::Validatory::ARC); CHECK(r.size() == 1 && (r[0] == "pass") == (i >= 1 && i <= 50)); } }''',
"ARC instance 51", "an ARC instance just out of range is accepted")
seed("C11-empty-hash-list", "C11", [("src/Validatory.cpp", "	if (pub.GetDigestAlgorithms().size() > 0)\n", "	if (pub.GetDigestAlgorithms().size() == 1)\n"), ("src/PublicKey.cpp", "			if (*a == \"sha256\")\n				m_digestAlgorithms.push_back(DKIM_A_SHA256);\n			else if (*a == \"sha1\")\n", "			if (*a == \"sha256\")\n				m_digestAlgorithms.push_back(DKIM_A_SHA256);\n			else if (*a == \"sha1\" || *a == \"sha-1\")\n")],
'''int main() { string m = "From: a@example.com\\r\\n\\r\\nx\\r\\n", c = "From: a@example.com\\r\\n", f = craft(field("", "from", "x\\r\\n"), c) + "\\r\\n" + m; CHECK(passes(f, "h=sha1:sha256; k=ed25519; p=" + string(PUB))); CHECK(!passes(f, "h=sha1; k=ed25519; p=" + string(PUB))); CHECK(!passes(f, "h=sha1:sha1; k=ed25519; p=" + string(PUB))); CHECK(!passes(f, "h=sha1:sha512:sha1; k=ed25519; p=" + string(PUB))); }''',
"a key record whose hash list names the same unsuitable hash twice", "the hash restriction is ignored when the list has more than one known member")
seed("C12-small-buffer", "C12", [("src/Resolver.cpp", "	unsigned char answer[64 * 1024];\n", "	unsigned char answer[4 * 1024];\n")],
'''#include <cstring>
#include <resolv.h>
#include <netdb.h>
static string pkt;
#undef res_nquery
extern "C" int res_nquery(res_state, const char*, int, int, unsigned char* a, int n) { memcpy(a, pkt.data(), std::min((size_t)n, pkt.size())); return (int)pkt.size(); }
int main() { for (int k : {1, 10, 15, 20, 200}) { string rd, t; for (int i = 0; i < k; i++) { rd += '\\xff' + string(255, 'k'); t += string(255, 'k'); } pkt = string("\\0\\1\\x81\\x80\\0\\1\\0\\1\\0\\0\\0\\0\\1a\\0\\0\\x10\\0\\1\\xc0\\x0c\\0\\x10\\0\\1\\0\\0\\0\\1", 29); pkt += (char)(rd.size() >> 8); pkt += (char)rd.size(); pkt += rd; string r; CHECK(DKIM::Util::Resolver().GetTXT("a", r)); CHECK(r == t); } }''',
"an answer of more than 4096 octets", "large but legal answers become temporary errors")
seed("C12-record-reset", "C12", [("src/Resolver.cpp", "						size_t rec_len_left = s;\n", "						size_t rec_len_left = s;\n						if (i > 0 && cc > 2) result.clear();\n")],
'''#include <cstring>
#include <resolv.h>
#include <netdb.h>
static string pkt;
#undef res_nquery
extern "C" int res_nquery(res_state, const char*, int, int, unsigned char* a, int n) { memcpy(a, pkt.data(), pkt.size()); return (int)pkt.size(); }
int main() { for (int k = 1; k < 6; k++) { pkt = string("\\0\\1\\x81\\x80\\0\\1\\0", 7) + (char)k + string("\\0\\0\\0\\0\\1a\\0\\0\\x10\\0\\1", 11); string w; for (int i = 0; i < k; i++) { pkt += string("\\xc0\\x0c\\0\\x10\\0\\1\\0\\0\\0\\1\\0\\2\\1", 13) + (char)('a' + i); w += (char)('a' + i); } string r; CHECK(DKIM::Util::Resolver().GetTXT("a", r)); CHECK(r == w); } }''',
"an answer with three or more TXT records", "only the last record of a longer answer is kept")
seed("C23-alg-class", "C23", [("src/Validatory.cpp", "			throw DKIM::PermanentError(\"Algorithm is not allowed\");\n", "			throw DKIM::PermanentError(\"Algorithm is not allowed\", sig.GetSignatureAlgorithm() == DKIM_SA_ED25519 ? AR_FAIL : AR_PERMERROR);\n")],
'''int main() { ''' + M + '''auto r = verify(craft(field("", "from", "x\\r\\n"), c) + "\\r\\n" + m, "h=sha1; k=ed25519; p=" + string(PUB)); CHECK(r.size() == 1 && r[0] == "permerror"); }''',
"a key that allows other hashes only, ed25519", "a policy mismatch is classed as fail for one algorithm")
seed("C26-body-cache", "C26", [("src/Validatory.cpp", "	EVPDigest::check(evpmdbody != nullptr);\n\n	// create signature for our body (message data)\n", "	EVPDigest::check(evpmdbody != nullptr);\n\n	auto key = std::make_pair(sig.GetCanonModeBody(), sig.GetDigestAlgorithm());\n	auto known = m_bodyHashes.find(key);\n	if (known != m_bodyHashes.end())\n	{\n		if (known->second != sig.GetBodyHash())\n			throw DKIM::PermanentError(\"Body hash did not verify\", AR_FAIL);\n		return;\n	}\n\n	// create signature for our body (message data)\n"), ("src/Validatory.cpp", "	if (sig.GetBodyHash().size() != md_len ||\n", "	m_bodyHashes[key] = std::string((const char*)md_value, md_len);\n	if (sig.GetBodyHash().size() != md_len ||\n"), ("src/Validatory.hpp", "			SignatureList m_dkimHeaders;\n", "			SignatureList m_dkimHeaders;\n			std::map<std::pair<CanonMode, DigestAlgorithm>, std::string> m_bodyHashes;\n"), ("src/Validatory.hpp", "#include <functional>\n", "#include <functional>\n#include <map>\n")],
'''int main() { string m = "From: a@example.com\\r\\n\\r\\nxyz\\r\\n", c = "From: a@example.com\\r\\n"; string a = craft(field("", "from", "xyz\\r\\n"), c) + "\\r\\n", b = craft(field(" l=2;", "from", "xy"), c) + "\\r\\n"; auto r = verify(a + b + m); CHECK(r.size() == 2 && r[0] == "pass" && r[1] == "pass"); r = verify(b + a + m); CHECK(r.size() == 2 && r[0] == "pass" && r[1] == "pass"); }''',
"two signatures of one message that differ only in the body length", "the body hash computed for one signature is used for another with a different l=")
seed("C26-dedupe", "C26", [("src/Validatory.cpp", "			m_dkimHeaders.push_back(*i);\n", "			if (m_dkimHeaders.empty() || m_dkimHeaders.back()->GetHeader() != (*i)->GetHeader())\n				m_dkimHeaders.push_back(*i);\n")],
'''int main() { ''' + M + '''string a = craft(field("", "from", "x\\r\\n"), c) + "\\r\\n"; CHECK(verify(a + m).size() == 1); CHECK(verify(a + a + m).size() == 2); }''',
"the same signature field twice in a row", "a repeated signature field is listed once")
seed("C09-adjacent-dup", "C09", [("src/TagList.cpp", "	std::stringstream data(input);\n\n	while (true)\n	{\n		std::string name;\n", "	std::stringstream data(input);\n	std::string last;\n\n	while (true)\n	{\n		std::string name;\n"), ("src/TagList.cpp", "		if (m_tags.find(name) != m_tags.end())\n", "		if (name == last)\n"), ("src/TagList.cpp", "		m_tags[name] = tagEntry;\n", "		m_tags[name] = tagEntry;\n		last = name;\n")],
'''static bool ok(const string& s) { try { DKIM::TagList t; t.Parse(s); return true; } catch (DKIM::PermanentError&) { return false; } }
int main() { CHECK(ok("a=1; b=2; c=3")); CHECK(!ok("a=1; a=2")); CHECK(!ok("a=1; b=2; a=3")); }''',
"two tags of the same name with another between them", "a duplicate tag is accepted unless it follows immediately")
seed("C01-big-key", "C01", [("src/Signatory.cpp", "		while (!split.empty())\n		{\n			dkimHeader += split.substr(0, 80 - offset);", "		for (int line = 0; line < 5 && !split.empty(); ++line)\n		{\n			dkimHeader += split.substr(0, 80 - offset);")],
'''#include <openssl/rsa.h>
#include <openssl/bn.h>
#include <openssl/x509.h>
int main() { for (int bits : {1024, 2048, 3072, 4096}) { EVP_PKEY* k = EVP_RSA_gen(bits); RSA* r = EVP_PKEY_get1_RSA(k); unsigned char* der = nullptr; int n = i2d_PUBKEY(k, &der); DKIM::SignatoryOptions o; o.SetDomain("example.com").SetSelector("sel").SetRSAPrivateKey(r, true); string m = "From: a@example.com\\r\\n\\r\\nx\\r\\n"; CHECK(passes(sign(m, o) + "\\r\\n" + m, "p=" + b64(string((char*)der, n)))); } }''',
"an RSA key of more than 2048 bits", "the signature is folded into at most five lines, so the one of a large key is cut")
seed("C03-hash-strings", "C03", [("src/Validatory.cpp", "			memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)\n", "			strncmp(sig.GetBodyHash().c_str(), (const char*)md_value, md_len) != 0)\n")],
'''int main() { string c = "From: a@example.com\\r\\n", b; for (int i = 0; ; i++) { b = "body " + std::to_string(i) + "\\r\\n"; if (sha256(b)[0] == 0) break; } string h = sha256(b); string f = craft(field("", "from", b), c); string m = "\\r\\n" + c + "\\r\\n"; CHECK(passes(f + m + b)); for (int i = 0; ; i++) { string x = "other " + std::to_string(i) + "\\r\\n"; if (sha256(x)[0] != 0) continue; CHECK(!passes(f + m + x)); break; } }''',
"two bodies whose hashes begin with a zero octet", "the body hashes are compared as C strings, so everything behind a zero octet is ignored")
seed("C04-case-cursor", "C04", [("src/Validatory.cpp", "	for (auto name : sig.GetSignedHeaders())\n	{\n		std::string tmp;\n		transform(name.begin(), name.end(), name.begin(), DKIM::Util::ToLower);\n", "	std::map<std::string, Message::HeaderList> unused;\n	for (auto name : sig.GetSignedHeaders())\n	{\n		std::string tmp;\n		std::string spelling = name;\n		transform(name.begin(), name.end(), name.begin(), DKIM::Util::ToLower);\n		if (headerCache.count(name) && !unused.count(spelling))\n			unused[spelling] = headerCache[name];\n"), ("src/Validatory.cpp", "		std::map<std::string, Message::HeaderList>::iterator head = headerCache.find(name);\n", "		std::map<std::string, Message::HeaderList>::iterator head = unused.find(spelling);\n"), ("src/Validatory.cpp", "		if (head == headerCache.end() || head->second.size() == 0)\n", "		if (head == unused.end() || head->second.size() == 0)\n")],
'''int main() { string m = "From: a@example.com\\r\\nX-A: 1\\r\\nX-A: 2\\r\\n\\r\\nx\\r\\n"; string k = "From: a@example.com\\r\\n"; CHECK(passes(craft(field("", "from:x-a:x-a", "x\\r\\n"), k + "X-A: 2\\r\\nX-A: 1\\r\\n") + "\\r\\n" + m)); CHECK(passes(craft(field("", "from:X-a:x-a", "x\\r\\n"), k + "X-A: 2\\r\\nX-A: 1\\r\\n") + "\\r\\n" + m)); }''',
"an h= list that names the same field twice in different case", "the second spelling selects the bottommost instance again")
seed("C13-comment-recursion", "C13", [("src/Tokenizer.cpp", "DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(", "static void ReadComment(std::stringstream& data, std::string& token)\n{\n	// behind the opening parenthesis\n	while (true)\n	{\n		if (data.peek() == EOF)\n			throw DKIM::PermanentError(\"unclosed comment\");\n		int c = data.get();\n		if (c == '\\\\')\n		{\n			if (data.peek() == EOF)\n				throw DKIM::PermanentError(\"incomplete escape sequence\");\n			c = data.get();\n		}\n		else if (c == '(')\n		{\n			std::string inner;\n			ReadComment(data, inner);\n			token += inner;\n			continue;\n		}\n		else if (c == ')')\n			return;\n		token += (char)c;\n	}\n}\n\nDKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken("),
 ("src/Tokenizer.cpp", "			int depth = 1;\n			while (depth != 0)\n			{\n				if (data.peek() == EOF)\n					throw DKIM::PermanentError(\"unclosed comment\");\n				if (data.peek() == '\\\\')\n				{\n					data.get();\n					if (data.peek() == EOF)\n						throw DKIM::PermanentError(\"incomplete escape sequence\");\n					// rfc822: However, quoting is PERMITTED for any character.\n					//if (data.peek() != ')' && data.peek() != '(')\n					//	throw DKIM::PermanentError(\"unclosed comment\");\n					token += (char)data.get();\n					continue;\n				}\n				if (data.peek() == '(')\n					++depth;\n				if (data.peek() == ')')\n					--depth;\n				if (depth > 0)\n					token += (char)data.get();\n				else\n					data.get();\n			}\n", "			ReadComment(data, token);\n")],
'''int main() { for (size_t n : {1000u, 10000u, 1000000u}) { string s = "a@b " + string(n, '(') + "x" + string(n, ')'); auto r = DKIM::Tokenizer::ParseAddressList(s); CHECK(r.size() == 1 && r.front() == "a@b"); } }''',
"a comment nested very deeply", "the parser recurses once per nesting level and overflows the stack")
seed("C14-memo-key", "C14", [("src/PublicKey.cpp", "void PublicKey::Parse(const std::string& signature)\n{\n", "void PublicKey::Parse(const std::string& signature)\n{\n	if (!m_text.empty() && signature == m_text)\n		return; // parsed already\n	m_text = signature;\n"), ("src/PublicKey.hpp", "			TagList m_tagList;\n", "			TagList m_tagList;\n			std::string m_text;\n")],
'''int main() { string bad = "k=ed25519; p=AAAA"; DKIM::PublicKey p; for (int i = 0; i < 3; i++) { bool t = false; try { p.Parse(bad); } catch (DKIM::PermanentError&) { t = true; } CHECK(t); p.Reset(); } p.Parse(REC); CHECK(p.GetED25519PublicKey().size() == 32); p.Reset(); p.Parse(REC); CHECK(p.GetED25519PublicKey().size() == 32); }''',
"a key object reset and used again with the same record", "a record seen before is not parsed again, although the object was reset")
seed("C14-arc-sticky", "C14", [("src/Signature.cpp", "	m_tagList.Reset();\n	m_arc = false;\n", "	m_tagList.Reset();\n"), ("src/Signature.hpp", "			: m_bodySize(0), m_bodySizeLimit(false)\n", "			: m_bodySize(0), m_bodySizeLimit(false), m_arc(false)\n")],
'''int main() { DKIM::Signature s; auto h = [](const string& t) { auto p = std::make_shared<DKIM::Header>(); p->ParseLine(t); return p; }; string t = " a=ed25519-sha256; d=example.com; s=sel; h=from; bh=AA==; b=AA=="; s.Parse(h("ARC-Message-Signature: i=1;" + t)); CHECK(s.IsARC()); s.Reset(); s.Parse(h("DKIM-Signature: v=1; i=@example.com;" + t)); CHECK(!s.IsARC()); }''',
"a signature object that held an ARC signature is reset and reused for DKIM", "Reset leaves the ARC flag set")
seed("C21-short-identity", "C21", [("src/Signatory.cpp", "DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity()).c_str());\n", "(options.GetIdentity()[0] == '\"' ? options.GetIdentity() : DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity())).c_str());\n")],
'''int main() { DKIM::SignatoryOptions o; base(o); o.SetIdentity("\\"a; x=1; b\\"@example.com"); string m = "From: a@example.com\\r\\n\\r\\nx\\r\\n", s = sign(m, o); CHECK(s.find(" x=1;") == string::npos); CHECK(passes(s + "\\r\\n" + m)); }''',
"an identity with a quoted local part", "a quoted local part is emitted as it stands and can add tags")
seed("C15-static-digest", "C15", [("src/Canonicalization.cpp", "			std::string buf;\n			for (size_t i = 0; i < stream.gcount(); ++i)\n", "			static std::string buf; // keeps its capacity\n			buf.clear();\n			for (size_t i = 0; i < stream.gcount(); ++i)\n")],
'''#include <thread>
int main() { std::vector<std::thread> t; bool bad = false; for (int k = 0; k < 4; k++) t.emplace_back([k, &bad] { string m; for (int i = 0; i < 2000; i++) m += string(60, (char)('a' + k)) + "\\r\\n"; for (int i = 0; i < 300 && !bad; i++) if (canon(m, DKIM::DKIM_C_SIMPLE) != m) bad = true; }); for (auto& x : t) x.join(); CHECK(!bad); }''',
"two threads canonicalizing bodies at the same time", "the working buffer is shared by all threads")
seed("C17-decode-hex", "C17", [("src/QuotedPrintable.cpp", "			output += (char)strtol(hex.c_str(), nullptr, 16);\n", "			char octet = (char)strtol(hex.c_str(), nullptr, 16);\n			if (octet || !convert_to_space)\n				output += octet;\n")],
'''int main() { CHECK(DKIM::Conversion::QuotedPrintable::Decode("a=00b") == string("a\\0b", 3)); CHECK(DKIM::Conversion::QuotedPrintable::Decode("a=00b", true) == string("a\\0b", 3)); }''',
"an escaped NUL octet in encoded-word mode", "=00 decodes to nothing")
seed("C18-tab-delimiter", "C18", [("src/EncodedWord.cpp", " && data.peek() != '\\n' && data.peek() != '\\t')", " && data.peek() != '\\n')")],
'''int main() { using DKIM::Conversion::EncodedWord; CHECK(EncodedWord::Decode("=?us-ascii?Q?a?= =?us-ascii?Q?b?=") == "ab"); CHECK(EncodedWord::Decode("=?us-ascii?Q?a?=\\r\\n\\t=?us-ascii?Q?b?=") == "ab"); CHECK(EncodedWord::Decode("=?us-ascii?Q?a?=\\tb") == "a\\tb"); }''',
"an encoded word followed by a tab", "a tab does not end an encoded word")
seed("C19-quoted-repeat", "C19", [("src/Tokenizer.cpp", "						list.push_back(*i);\n", "						if (list.empty() || list.back() != *i)\n							list.push_back(*i);\n")],
 """int main() { auto l = [](const string& s) { string o; for (auto& a : DKIM::Tokenizer::ParseAddressList(s)) o += a + "|"; return o; }; CHECK(l("a@b, \\"a@b, c@d\\"") == "a@b|a@b|c@d|"); CHECK(l("\\"a@b\\", \\"c@d\\"") == "a@b|c@d|"); CHECK(l("\\"J <a@b>, a@b\\"") == "a@b|a@b|"); }""",
 "a quoted item whose first address is the one before it", "the repeated address is dropped")
seed("C20-colon-space", "C20", [("src/Tokenizer.cpp", "				if (data.peek() == ':' || data.peek() == EOF)\n					break;\n", "				if (data.peek() == ':' || data.peek() == EOF)\n					break;\n				if (value_buf.find('\\n') != std::string::npos)\n					value_buf = \" \";\n")],
'''int main() { auto r = DKIM::Tokenizer::ValueList("a b:c \\t d:e\\r\\n  f"); CHECK(r.size() == 3 && r.front() == "a b" && r.back() == "e\\r\\n  f"); }''',
"a folding inside a value", "folding inside a value is replaced by a single space")
seed("C22-shared-selector", "C22", [("src/SignatoryOptions.cpp", "	*m_selector = selector;\n", "	const std::string old = *m_selector;\n	for (auto & s : m_signatures)\n		if (&s == &m_signatures.front() || (!old.empty() && s.m_selector == old))\n			s.m_selector = selector;\n")],
'''int main() { DKIM::SignatoryOptions o; base(o); auto& a = o.AddAdditionalSignature(); a.SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetPrivateKey(SEED).SetDomain("example.org").SetSelector("sel"); o.SetSelector("new"); CHECK(a.GetSelector() == "sel"); CHECK(o.GetSelector() == "new"); }''',
"the selector of the first signature is changed after an additional signature with the same selector was configured", "changing the selector also changes additional signatures")
seed("C25-soft-key", "C25", [("tools/src/main.cpp", "				if (pub.SoftFail())\n", "				if (pub.SoftFail() && strcmp(e.getAuthenticationResult(), \"fail\") == 0)\n")],
None,
"a test-mode key and a signature refused for another reason than a mismatch", "such a signature is not marked as soft", '''#!/bin/bash
set -u
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT; cd "$t"
cat > seam.cpp <<'X'
#include <cstring>
#include <string>
extern "C" int res_nquery(void*, const char*, int, int, unsigned char* a, int) { std::string t = "t=y; h=sha1; k=ed25519; p=A6EHv/POEL4dcN0Y50vAmWfk1jCbpQ1fHdyGZBJVMbg=", p("\\0\\1\\x81\\x80\\0\\1\\0\\1\\0\\0\\0\\0\\1a\\0\\0\\x10\\0\\1\\xc0\\x0c\\0\\x10\\0\\1\\0\\0\\0\\1\\0", 30); p += (char)(t.size() + 1); p += (char)t.size(); p += t; memcpy(a, p.data(), p.size()); return (int)p.size(); }
X
g++ -shared -fPIC -O1 seam.cpp -o seam.so || exit 3
printf 'AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8=' > key; printf 'From: a@example.com\\r\\n\\r\\nx\\r\\n' > msg
T=/repo/_build/tools/dkimtool
"$T" -s sel -d example.com -k key --keyformat ed25519 msg > s1 || exit 4
cat s1 msg > sm
LD_PRELOAD="$t/seam.so" timeout 20 "$T" -v sm > out; cat out
[ "$(grep -c 'SOFT:' out)" = 1 ]
''')
