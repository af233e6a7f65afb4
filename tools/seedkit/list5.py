seed("C06-vt-name", "C06", [("src/Canonicalization.cpp", "find_last_not_of(' ');", "find_last_not_of(\" \\v\\f\");")],
 r'''static string filter(const string& s) { DKIM::Conversion::CanonicalizationHeader h(DKIM::DKIM_C_RELAXED); return h.FilterHeader(s); }
int main() {
    CHECK(filter("Subject \t:  A  b ") == "subject:A b"); CHECK(filter("X-\vY : z") == "x-\vy:z");
    CHECK(filter("X-Y\v: z") == "x-y\v:z"); CHECK(filter("X-Y\f : z") == "x-y\f:z");
}
''', "a field whose name ends with a vertical tab or form feed right in front of the colon", "octets that are no white space are removed from the canonical name")
seed("C11-many-hashes", "C11", [("src/PublicKey.cpp", "			if (*a == \"sha256\")\n				m_digestAlgorithms.push_back(DKIM_A_SHA256);", "			if (m_digestAlgorithms.size() == 2)\n				break; // both are known\n			if (*a == \"sha256\")\n				m_digestAlgorithms.push_back(DKIM_A_SHA256);")],
 r'''int main() {
    string m = "From: a@example.com\r\n\r\nbody\r\n"; DKIM::SignatoryOptions o; string f = sign(m, base(o)) + "\r\n" + m;
    CHECK(passes(f)); CHECK(passes(f, REC + "; h=sha1:sha256")); CHECK(passes(f, REC + "; h=x:sha1:y:sha256")); CHECK(!passes(f, REC + "; h=sha1:sha1:sha1"));
    CHECK(passes(f, REC + "; h=sha1:sha1:sha256"));
}
''', "a key record whose h= lists the same known hash twice before the one that is used", "an allowed hash is not seen and the signature is refused")
