seed("C28-alnum-domain", "C28", [("src/Util.cpp", "	if (alphanum.find(*subdomain.begin()) == std::string::npos)\n		return false;\n\n	if (alphanum.find(*subdomain.rbegin()) == std::string::npos)\n		return false;\n\n	if (subdomain.find_first_not_of(alphanum + \"-\") != std::string::npos)\n		return false;\n", "	if (*subdomain.begin() == '-' || *subdomain.rbegin() == '-')\n		return false;\n\n	for (unsigned char c : subdomain)\n		if (!std::isalnum(c) && c != '-')\n			return false;\n"),
 ("src/Util.cpp", "static std::string alphanum =\n	\"abcdefghijklmnopqrstuvwxyz\"\n	\"ABCDEFGHIJKLMNOPQRSTUVWXYZ\"\n	\"0123456789\";\n\n", ""), ("src/Util.cpp", "#include <cstdarg>\n", "#include <cctype>\n#include <cstdarg>\n")],
 r'''#include <clocale>
#include <unistd.h>
int main() {
    if (system("localedef --no-archive -c -i de_DE -f ISO-8859-1 ./de_DE.ISO-8859-1 >/dev/null 2>&1")) {}
    char d[4096]; CHECK(getcwd(d, sizeof d)); setenv("LOCPATH", d, 1); if (!setlocale(LC_ALL, "de_DE.ISO-8859-1")) { fprintf(stderr, "no locale\n"); return 2; }
    CHECK(DKIM::Util::ValidateDomain("example.com")); CHECK(!DKIM::Util::ValidateDomain("m\xfcller.example")); CHECK(!DKIM::Util::ValidateDomain("\xe9.com"));
}
'''.replace("#include <clocale>", "#include \"Util.hpp\"\n#include <clocale>"), "a process that runs in an 8-bit locale", "labels are classified with isalnum of the current locale")
seed("C28-stream-length", "C28", [("src/Signatory.cpp", "		if (options.GetBodySignLength())\n			limit = StringFormat(\"; l=%lu\", options.GetBodyLength());\n", "		if (options.GetBodySignLength())\n		{\n			std::ostringstream length;\n			length << \"; l=\" << options.GetBodyLength();\n			limit = length.str();\n		}\n"), ("src/Signatory.cpp", "#include <set>\n", "#include <set>\n#include <sstream>\n")],
 r'''#include <locale>
struct P : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
int main() {
    std::locale::global(std::locale(std::locale::classic(), new P));
    string body; for (int i = 0; i < 400; i++) body += "0123456789\r\n"; string m = "From: a@example.com\r\n\r\n" + body; DKIM::SignatoryOptions o; base(o).SetSignBodyLength(2500);
    string s = sign(m, o); CHECK(s.find("l=2500;") != string::npos); CHECK(passes(s + "\r\n" + m));
}
''', "a C++ global locale that groups digits, and a body length of four digits", "the length is formatted by the global locale")
seed("C28-expiry-localtime", "C28", [("src/Signature.cpp", "		if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))\n", "		// timestamps are in UTC\n		time_t now = time(nullptr);\n		struct tm utc;\n		gmtime_r(&now, &utc);\n		utc.tm_isdst = -1;\n		if (strtol(x.GetValue().c_str(), nullptr, 10) < mktime(&utc))\n"), ("src/Signature.cpp", "#include <cstring>\n", "#include <cstring>\n#include <ctime>\n")],
 r'''#include <ctime>
int main() {
    string m = "From: a@example.com\r\n\r\nx\r\n";
    for (const char* z : {"UTC", "XXX-12", "XXX+12"}) { setenv("TZ", z, 1); tzset(); DKIM::SignatoryOptions o; base(o).SetTimestamp(time(nullptr) - 7200).SetExpiration(3600, false); CHECK(!passes(sign(m, o) + "\r\n" + m)); DKIM::SignatoryOptions q; base(q).SetExpiration(time(nullptr) + 3600, true); CHECK(passes(sign(m, q) + "\r\n" + m)); }
}
''', "a time zone other than UTC and an expiry within the offset from now", "the clock is shifted by the zone's offset before it is compared")
seed("C28-query-uninit", "C28", [("src/Signature.cpp", "	// tag-q\n	m_queryType = DKIM_Q_DNSTXT;\n", "")],
 r'''#include <cstring>
#include <new>
int main() {
    string m = "From: a@example.com\r\n\r\nx\r\n"; DKIM::SignatoryOptions o; string f = sign(m, base(o)) + "\r\n" + m;
    std::istringstream in(f); DKIM::Validatory v(in, DKIM::Validatory::DKIM); v.CustomDNSResolver = [](const string&, string& t, void*) { t = REC; return true; };
    alignas(16) static unsigned char mem[sizeof(DKIM::Signature)]; unsigned char* volatile q = mem; memset(q, 0x5a, sizeof mem); DKIM::Signature* s = new (q) DKIM::Signature; DKIM::PublicKey p; auto i = v.GetSignatures().begin();
    try { v.GetSignature(i, *s); v.GetPublicKey(*s, p); v.CheckSignature(i, *s, p); } catch (std::exception& e) { fprintf(stderr, "%s\n", e.what()); return 1; }
    CHECK(s->GetQueryType() == DKIM::Signature::DKIM_Q_DNSTXT); s->~Signature();
}
''', "a signature without q= parsed into an object on used memory", "the query type is not initialized")
seed("C28-error-queue", "C28", [("src/Validatory.cpp", "			if (r != 1)\n				throw DKIM::PermanentError(\"Signature did not verify\", AR_FAIL);\n", "			if (r != 1 || ERR_peek_last_error() != 0)\n			{\n				ERR_clear_error();\n				throw DKIM::PermanentError(\"Signature did not verify\", AR_FAIL);\n			}\n"), ("src/Validatory.cpp", "#include <memory.h>\n", "#include <memory.h>\n#include <openssl/err.h>\n")],
 r'''#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
int main() {
    RSA* k = RSA_new(); BIGNUM* e = BN_new(); BN_set_word(e, 65537); RSA_generate_key_ex(k, 1024, e, nullptr); BIO* mem = BIO_new(BIO_s_mem()); PEM_write_bio_RSA_PUBKEY(mem, k); char* q; long n = BIO_get_mem_data(mem, &q); string pem(q, (size_t)n), p; { std::istringstream in(pem); string l; while (std::getline(in, l)) if (l[0] != '-') p += l; }
    string m = "From: a@example.com\r\n\r\nx\r\n"; DKIM::SignatoryOptions o; o.SetRSAPrivateKey(k, false).SetDomain("example.com").SetSelector("sel"); string f = sign(m, o) + "\r\n" + m, rec = "p=" + p;
    ERR_clear_error(); CHECK(passes(f, rec)); ERR_put_error(ERR_LIB_PEM, 0, PEM_R_NO_START_LINE, "caller", 1); CHECK(passes(f, rec)); CHECK(passes(f, rec));
}
''', "an error of an earlier, unrelated OpenSSL call left in the thread's queue", "a leftover error counts as a mismatch")
