T = r'''#include <ctime>
template <class F> static double cpu(F f) { clock_t t = clock(); f(); return (double)(clock() - t) / CLOCKS_PER_SEC; }
static string rep(const string& u, size_t n) { string o; o.reserve(u.size() * n); for (size_t i = 0; i < n; i++) o += u; return o; }
'''
seed("C30-fold-concat", "C30", [("src/MailParser.cpp", "	if (!m_header.empty())\n		m_header += \"\\r\\n\";\n\n	m_header += data;\n", "	m_header = m_header.empty() ? data : m_header + \"\\r\\n\" + data;\n")],
 T + r'''int main() {
    for (string pre : {"", "Subject: a\r\n"}) { string m = pre + "From: x\r\n" + rep(" y\r\n", 300000) + "\r\n"; double t = cpu([&] { std::istringstream in(m); DKIM::Message p; while (p.ParseLine(in) && !p.IsDone()) {} CHECK(p.GetHeaders().size() == (pre.empty() ? 1 : 2)); }); fprintf(stderr, "%.2f s\n", t); CHECK(t < 3); }
}
''', "a header field folded into very many lines", "every line copies the field read so far: the work grows with the square of the number of lines")
seed("C30-blank-lines", "C30", [("src/Canonicalization.cpp", "		size_t lines = 0;\n", "		std::string lines; // empty lines not yet passed on\n"), ("src/Canonicalization.cpp", "					++lines;\n", "					lines += \"\\r\\n\";\n"), ("src/Canonicalization.cpp", "				while (lines > 0)\n				{\n					buf += \"\\r\\n\";\n					--lines;\n				}", "				while (!lines.empty())\n				{\n					buf += lines.substr(0, 2);\n					lines.erase(0, 2);\n				}")],
 T + r'''int main() {
    CHECK(canon("a\r\n\r\n\r\nb\r\n\r\n", DKIM::DKIM_C_RELAXED) == "a\r\n\r\n\r\nb\r\n");
    string b = "a" + rep("\r\n", 600000) + "b"; double t = cpu([&] { CHECK(canon(b, DKIM::DKIM_C_SIMPLE) == b + "\r\n"); }); fprintf(stderr, "%.2f s\n", t); CHECK(t < 2);
}
''', "a body with a very long run of empty lines before further text", "every empty line moves all that follow: the work grows with the square of their number")
seed("C30-header-search", "C30", [("src/Signatory.cpp", "	std::set<std::string> headersToSign;\n", "	std::list<std::string> headersToSign;\n"), ("src/Signatory.cpp", "		headersToSign.insert(name);\n", "		headersToSign.push_back(name);\n"), ("src/Signatory.cpp", "		if (!signAll) headersToSign.insert(i);\n", "		if (!signAll) headersToSign.push_back(i);\n"), ("src/Signatory.cpp", "headersToSign.find(name) == headersToSign.end()", "std::find(headersToSign.begin(), headersToSign.end(), name) == headersToSign.end()")],
 T + r'''int main() {
    std::list<string> l{"from"}; string m; for (int i = 0; i < 40000; i++) { l.push_back("x-" + std::to_string(i)); m += "Y-" + std::to_string(i) + ": 1\r\n"; } m += "From: a\r\n\r\n"; DKIM::SignatoryOptions o; base(o).SetHeaders(l);
    double t = cpu([&] { string f = sign(m, o); CHECK(passes(f + "\r\n" + m)); }); fprintf(stderr, "%.2f s\n", t); CHECK(t < 1.2);
}
''', "many configured names and a message with many fields", "every field is compared with every configured name: the work grows with the product")
seed("C30-verify-search", "C30", [("src/Validatory.cpp", "	std::map<std::string, Message::HeaderList> headerCache;\n", "	std::list<std::pair<std::string, std::shared_ptr<Header> > > headerCache;\n"), ("src/Validatory.cpp", "		headerCache[headerName].push_back(hIter);\n", "		headerCache.push_front(std::make_pair(headerName, hIter));\n"),
  ("src/Validatory.cpp", "		std::map<std::string, Message::HeaderList>::iterator head = headerCache.find(name);\n", "		auto head = headerCache.begin();\n		while (head != headerCache.end() && head->first != name)\n			++head;\n"), ("src/Validatory.cpp", "		if (head == headerCache.end() || head->second.size() == 0)\n", "		if (head == headerCache.end())\n"),
  ("src/Validatory.cpp", "canonicalhead.FilterHeader(head->second.back()->GetHeader()) + \"\\r\\n\";\n		head->second.pop_back();", "canonicalhead.FilterHeader(head->second->GetHeader()) + \"\\r\\n\";\n		headerCache.erase(head);"), ("src/Validatory.cpp", "canonicalhead.FilterHeader(head->second.back()->GetHeader()).c_str()", "canonicalhead.FilterHeader(head->second->GetHeader()).c_str()")],
 T + r'''int main() {
    string h, m; for (int i = 0; i < 40000; i++) { h += "x:"; m += "Y: 1\r\n"; } m += "From: a\r\n\r\n"; string f = field(" c=relaxed/simple;", h + "from", "\r\n"); 
    double t = cpu([&] { auto r = verify(craft(f, "from:a\r\ndkim-signature:" + f.substr(16).substr(0, 0)) + "\r\n" + m); CHECK(r.size() == 1); }); fprintf(stderr, "%.2f s\n", t); CHECK(t < 1.2);
}
''', "a signature that lists many names that do not occur, on a message with many fields", "every listed name is compared with every field: the work grows with the product")
seed("C30-tag-search", "C30", [("src/TagList.cpp", "		if (m_tags.find(name) != m_tags.end())\n", "		bool duplicate = false;\n		for (const auto & i : m_tags)\n			duplicate |= i.first == name;\n		if (duplicate)\n")],
 T + r'''int main() {
    string s; for (int i = 0; i < 25000; i++) s += "t" + std::to_string(i) + "=1;"; double t = cpu([&] { DKIM::TagList l; l.Parse(s); }); fprintf(stderr, "%.2f s\n", t); CHECK(t < 1);
    bool bad = false; try { DKIM::TagList l; l.Parse("a=1; b=2; a=3"); } catch (DKIM::PermanentError&) { bad = true; } CHECK(bad);
}
''', "a signature or key record with very many tags", "every tag is compared with all before it: the work grows with the square of their number")
seed("C30-comment-copy", "C30", [("src/Tokenizer.cpp", "				if (depth > 0)\n					token += (char)data.get();", "				if (depth > 0)\n					token = token + (char)data.get();")],
 T + r'''int main() {
    auto l = DKIM::Tokenizer::ParseAddressList("a@b (x), c@d"); CHECK(l.size() == 2); string s = "a@b (" + rep("x", 400000) + "), c@d";
    double t = cpu([&] { CHECK(DKIM::Tokenizer::ParseAddressList(s) == l); }); fprintf(stderr, "%.2f s\n", t); CHECK(t < 1.5);
}
''', "an address list with a very long comment", "every character of the comment copies it: the work grows with the square of its length")
seed("C08-late-colon", "C08", [("src/MailParser.cpp", "		m_valueOffset = sep + 1;\n", "		m_valueOffset = data.find(':') + 1;\n")],
 r'''int main() { string t = "Sub\r\n ject: s\r\nA: b\r\n\r\nbody"; std::istringstream in(t); DKIM::Message m; while (m.ParseLine(in) && !m.IsDone()) {} CHECK(m.GetHeaders().size() == 2); auto h = m.GetHeaders().front(); CHECK(h->GetHeader().substr(h->GetValueOffset()) == " s"); CHECK(h->GetName() == "Sub\r\n ject"); CHECK(m.GetHeaders().back()->GetValueOffset() == 2); }''',
"a field whose first colon stands on a continuation line", "the value is cut at the wrong place when the colon is on a later line")
seed("C20-inner-run", "C20", [("src/Tokenizer.cpp", "					value += value_buf;\n", "					value += value_buf[0];\n")],
 r'''static string l(const string& s) { string o; for (auto& x : DKIM::Tokenizer::ValueList(s)) o += "[" + x + "]"; return o; }
int main() { CHECK(l("a : b") == "[a][b]"); CHECK(l(" a b\t:c ") == "[a b][c]"); CHECK(l("a\tb") == "[a\tb]"); CHECK(l("a \tb") == "[a \tb]"); CHECK(l("a\r\n b:c") == "[a\r\n b][c]"); }
''', "a value of a list with a run of white space or a fold inside", "white space inside the value is lost")
seed("C24-sticky-time", "C24", [("src/Signatory.cpp", "		time_t timestamp = -1;\n", "		static thread_local time_t timestamp = -1;\n		if (!options.GetExpirationSign())\n			timestamp = -1;\n")],
 r'''static string sign(bool ts, bool rel) { string m = "From: a@example.com\r\n\r\nb\r\n"; std::istringstream in(m); DKIM::Signatory s(in); DKIM::SignatoryOptions o; o.SetDomain("example.com").SetSelector("s").SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetPrivateKey("AQIDBAUGBwgJCgsMDQ4PEBESExQVFhcYGRobHB0eHyA="); if (ts) o.SetTimestamp(1000000000); if (rel) o.SetExpiration(600, false); return s.CreateSignature(o); }
static long x(const string& f) { size_t p = f.find(" x="); return p == string::npos ? -1 : atol(f.c_str() + p + 3); }
int main() { for (int i = 0; i < 3; i++) { time_t a = time(nullptr); long v = x(sign(false, true)); time_t b = time(nullptr); CHECK(v >= a + 600 && v <= b + 600); v = x(sign(true, true)); CHECK(v == 1000000600); } }
''', "a signing with a fixed timestamp and an expiry, then one with a relative expiry and no timestamp", "the expiry of the second signature is counted from the first one's timestamp: it is long expired when issued")
