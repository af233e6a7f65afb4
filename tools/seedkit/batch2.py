import subprocess, sys, os, shutil, time
B=[]
def b(name, prop, *edits): B.append((name,prop,edits))
C="src/Canonicalization.cpp"; V="src/Validatory.cpp"; S="src/Signatory.cpp"; G="src/Signature.cpp"; P="src/PublicKey.cpp"; T="src/Tokenizer.cpp"; L="src/TagList.cpp"; M="src/MailParser.cpp"; R="src/Resolver.cpp"; O="src/SignatoryOptions.cpp"; E="src/EncodedWord.cpp"; Q="src/QuotedPrintable.cpp"; U="src/Util.cpp"; X="tools/src/main.cpp"; B64="src/Base64.cpp"
# signing
b("s2-copyctx","C01",(S,"EVPDigest::check(evpmdhead2 ? EVP_MD_CTX_copy(evpmdhead2.get(), evpmdhead.get()) : 0);","if (options.GetAdditionalSignatures().size() < 4) EVPDigest::check(evpmdhead2 ? EVP_MD_CTX_copy(evpmdhead2.get(), evpmdhead.get()) : 0); else { evpmdhead2.swap(evpmdhead); evpmdhead.reset(EVP_MD_CTX_create()); EVPDigest::check(EVP_MD_CTX_copy(evpmdhead.get(), evpmdhead2.get())); }"))
b("s2-tzero","C24",(S,"if (timestamp == -1)\n				timestamp = time(nullptr);","if (timestamp < 0)\n				timestamp = time(nullptr);"))
b("s2-t32","C24",(S,'" t=" + StringFormat("%lu", timestamp)','" t=" + StringFormat("%u", (unsigned)timestamp)'))
b("s2-xrel","C24",(S,"options.GetExpirationAbsolute() ? 0 :","options.GetExpirationAbsolute() || options.GetExpiration() > 1000000000 ? 0 :"))
b("s2-lost-ident","C21",(S,'if (!options.GetIdentity().empty() && !arcInstance) // in ARC','if (!options.GetIdentity().empty() && options.GetIdentity()[0] != \'@\' && !arcInstance) // in ARC'))
b("s2-from-over","C04",(S,"if (!signAll) headersToSign.insert(i);","if (!signAll && i != \"from\") headersToSign.insert(i);"))
b("s2-over-listed","C04",(S,"		if (!signAll) headersToSign.insert(i);",""))
b("s2-hdr-line","C21",(S,"+ (insertColon?1:0) > 80)","+ (insertColon?1:0) > 80 && insertColon)"))
b("s2-bfold","C21",(S,"split.substr(0, 80 - offset);\n			split.erase(0, 80 - offset);","split.substr(0, 82 - offset);\n			split.erase(0, 82 - offset);"))
b("s2-empty-hdrs","C01",(S,"if (headersToSign.empty()) signAll = true;","if (options.GetHeaders().empty() && options.GetOversignHeaders().empty()) signAll = true;"))
b("s2-rsa-len","C01",(S,"tmp3 = std::string((const char*)sig.get(), sig_len);","tmp3 = std::string((const char*)sig.get(), sig_len & ~(unsigned)1);"))
b("s2-reparse","C14",(S,"while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }","if (!m_msg.GetHeaders().empty()) m_file.clear();\n	while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }"))
b("s2-arc-v","C10",(G,"	if (!m_arc)\n	{\n		TagListEntry v;","	if (!m_arc || m_tagList.GetTag(\"v\", *std::make_unique<TagListEntry>()))\n	{\n		TagListEntry v;"),(G,"#include <cstring>","#include <cstring>\n#include <memory>"))
# validating
b("v2-dns-cache","C14",(V,"		if ((CustomDNSResolver?","		static std::map<std::string, std::string> cache;\n		if (cache.count(query)) { pubkey.Parse(cache[query]); return; }\n		if ((CustomDNSResolver?"),(V,"			pubkey.Parse(publicKey);\n","			pubkey.Parse(publicKey);\n			cache[query] = publicKey;\n"))
b("v2-dns-cache-tl","C14",(V,"		if ((CustomDNSResolver?","		static thread_local std::pair<std::string, std::string> last;\n		if (last.first == query) { pubkey.Parse(last.second); return; }\n		if ((CustomDNSResolver?"),(V,"			pubkey.Parse(publicKey);\n","			pubkey.Parse(publicKey);\n			last = {query, publicKey};\n"))
b("v2-dns-cache-race","C15",(V,"		if ((CustomDNSResolver?","		static std::map<std::string, std::string> cache;\n		if (cache.count(query)) { pubkey.Parse(cache[query]); return; }\n		if ((CustomDNSResolver?"),(V,"			pubkey.Parse(publicKey);\n","			pubkey.Parse(publicKey);\n			cache[query] = publicKey;\n"))
b("v2-neg-cache","C12",(V,"			if (publicKey.empty())\n","			static std::string missing;\n			if (publicKey.empty())\n				missing = query;\n			if (publicKey.empty() || query == missing)\n"))
b("v2-arcflag","C26",(V,'headerName == "dkim-signature")','(headerName == "dkim-signature" || headerName == "dkim2-signature"))'))
b("v2-1000","C04",(V,"		headerCache[headerName].push_back(hIter);","		if (headerCache[headerName].size() == 1000) headerCache[headerName].pop_front();\n		headerCache[headerName].push_back(hIter);"))
b("v2-250","C04",(V,"	for (auto name : sig.GetSignedHeaders())\n	{","	size_t n = 0;\n	for (auto name : sig.GetSignedHeaders())\n	{\n		if (++n > 250) break;"))
b("v2-flag-s-arc","C11",(V,"	if (!sig.IsARC())\n	{\n		if (find(pub","	{\n		if (find(pub"))
b("v2-b-ws","C02",(V,"	while (bBegin > 0 && strchr","	if (bBegin > 0 && strchr"))
b("v2-b-end","C02",(V,"	while (bEnd < v.size() && strchr","	while (bEnd + 1 < v.size() && strchr"))
b("v2-memcmp","C03",(V,"memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0","memcmp(sig.GetBodyHash().c_str(), md_value, md_len - (sig.GetBodySizeLimit() ? 1 : 0)) != 0"))
b("v2-edlen","C03",(V,"sig.GetSignatureData().size() != crypto_sign_BYTES ||","sig.GetSignatureData().size() < crypto_sign_BYTES ||"))
b("v2-type","C23",(V,'throw DKIM::PermanentError("Signature algorithm type mismatch");','throw DKIM::PermanentError("Signature algorithm type mismatch", pub.SoftFail() ? AR_NEUTRAL : AR_PERMERROR);'))
b("v2-lim-short","C07",(V,"			sig.GetBodySizeLimit(),\n","			sig.GetBodySizeLimit() && sig.GetBodySize() < 0x7fffffff,\n"))
# tag lists and signature
b("g2-fws-bh","C10",(G,"	bhtmp.erase(remove_if(bhtmp.begin(), bhtmp.end(), DKIM::Util::IsSpace), bhtmp.end());\n","	if (bhtmp.find('\\r') == std::string::npos)\n	bhtmp.erase(remove_if(bhtmp.begin(), bhtmp.end(), DKIM::Util::IsSpace), bhtmp.end());\n"))
b("g2-c-slash","C10",(G,"c.GetValue().substr(split + 1);","c.GetValue().substr(split + 1, c.GetValue().find('/', split + 1) - split - 1);"))
b("g2-i-sub","C10",(G,"m_mailDomain.size() > m_domain.size() &&","m_mailDomain.size() > m_domain.size() + 1 &&"))
b("g2-i-localqp","C10",(G,"m_mailLocalPart = mail.substr(0, mailsep);","m_mailLocalPart = i.GetValue().substr(0, i.GetValue().rfind('@'));"))
b("g2-l-long","C10",(G,"if (errno == ERANGE)","if (errno == ERANGE && l.GetValue().size() < 30)"))
b("g2-l-neg","C10",(G,"if ((signed long)bs < 0)","if ((signed long)bs < -1)"))
b("g2-from-pos","C10",(G,"m_headers.end(); ++i)\n	{\n		if (DKIM::Util::EqualsIgnoreCase","m_headers.end() && std::distance(m_headers.cbegin(), i) < 128; ++i)\n	{\n		if (DKIM::Util::EqualsIgnoreCase"),(G,"#include <cstring>","#include <cstring>\n#include <iterator>"))
b("g2-sel-lower","C10",(G,"m_selector = s.GetValue();","m_selector = s.GetValue();\n	if (m_selector.size() > 40) transform(m_selector.begin(), m_selector.end(), m_selector.begin(), DKIM::Util::ToLower);"))
b("g2-x-neg","C24",(G,"if (strtol(x","if (x.GetValue()[0] != '-' && strtol(x"))
b("g2-x-strtoi","C24",(G,"strtol(x.GetValue().c_str(), nullptr, 10) < time","(long)(double)strtol(x.GetValue().c_str(), nullptr, 10) < time"))
b("l2-tilde","C09",(L,"<= '\\x7E')","<= '\\x7E' && !(data.peek() == '~' && value.size() > 100))"))
b("l2-dupcase","C09",(L,"if (m_tags.find(name) != m_tags.end())","if (m_tags.size() < 100 && m_tags.find(name) != m_tags.end())"))
b("l2-emptyend","C09",(L,"		if (data.peek() == EOF) break;\n\n		// tag-name","		if (data.peek() == EOF && !m_tags.empty()) break;\n\n		// tag-name"))
# key
b("p2-flagcase","C11",(P,"m_flags = DKIM::Tokenizer::ValueList(t.GetValue());","m_flags = DKIM::Tokenizer::ValueList(t.GetValue());\n		if (m_flags.size() > 8) m_flags.resize(8);"))
b("p2-h-none","C11",(P,"		if (m_digestAlgorithms.empty())\n			throw","		if (m_digestAlgorithms.empty() && algo.size() < 3)\n			throw"))
b("p2-p-trail","C11",(P,"			if (publicKey == nullptr)\n","			if (publicKey != nullptr && tmp2 != (const unsigned char*)tmp.c_str() + tmp.size() && tmp.size() < 40) { EVP_PKEY_free(publicKey); publicKey = nullptr; }\n			if (publicKey == nullptr)\n"))
b("p2-v-first","C11",(P,'if (v.GetValue() != "DKIM1")','if (v.GetValue() != "DKIM1" && v.GetValue() != "DKIM1.0")'))
# resolver
b("r2-type16","C12",(R,"			switch (t)","			switch (t & 0xff)"))
b("r2-max","C12",(R,"							result.append((const char*)ptr + 1, txt_len);","							if (result.size() < 4096) result.append((const char*)ptr + 1, txt_len);"))
b("r2-empty","C12",(R,"						while (rec_len_left > 0)","						while (rec_len_left > 1)"))
b("r2-nodata","C12",(R,"if (err == NO_DATA)","if (err == NO_DATA || err == NO_ADDRESS + 0 * 1 || err == NETDB_INTERNAL)"))
# mail
b("m2-tab-name","C08",(M,"	if (line[0] != '\\t' && line[0] != ' ')","	if ((line[0] != '\\t' && line[0] != ' ') || (line[0] == '\\t' && line.find_first_not_of('\\t') == std::string::npos))"))
b("m2-nul","C08",(M,"	if (line.size() == 0)","	if (line.size() == 0 || (line.size() == 1 && line[0] == 0))"))
b("m2-eof-hdr","C08",(M,"		if (m_tmpHeader.get())\n			m_header.push_back(m_tmpHeader);\n\n		m_bodyOffset = -1;","		if (m_tmpHeader.get() && m_tmpHeader->GetValueOffset())\n			m_header.push_back(m_tmpHeader);\n\n		m_bodyOffset = -1;"))
# tokens
b("t2-colon-ws","C20",(T,"			value_buf += ws;\n		}\n\n		if (value.empty())","			value_buf += ws;\n			if (value_buf.size() > 998) value_buf.resize(998);\n		}\n\n		if (value.empty())"))
b("t2-esc-nul","C19",(T,"if (token.find('\\0') != std::string::npos)","if (type != TOK_COMMENT && token.find('\\0') != std::string::npos)"))
b("t2-sep-tag","C19",(T,"lasttype != TOK_TAG_CLOSE && std::none_of","std::none_of"))
b("t2-comment-in","C19",(T,"			case TOK_COMMENT:\n				// ignore comments\n","			case TOK_COMMENT:\n				if (inOpentag && tokens.size() > 6) tokens.clear();\n"))
b("t2-quoted-rec","C19",(T,"if (lasttype == TOK_QUOTED && tokens.size() == 1)","if (lasttype == TOK_QUOTED && tokens.size() == 1 && list.size() < 2)"))
# codecs
b("q2-eq","C17",(Q,"c == '='","c == '=' && false"))
b("e2-b-ws","C18",(E,"encdata = DKIM::Conversion::Base64_Decode(encdata);","encdata = DKIM::Conversion::Base64_Decode(encdata);\n						while (!encdata.empty() && encdata.back() == 0) encdata.pop_back();"))
b("e2-charset","C18",(E,"			while (!fail) {\n				try","			if (!fail && charset.find(' ') != std::string::npos) fail = true;\n			while (!fail) {\n				try"))
b("e2-long75","C18",(E,"			while (!fail) {\n				try","			if (!fail && charset.size() + encoding.size() + encdata.size() + 6 > 75 * 20) fail = true;\n			while (!fail) {\n				try"))
# canon
b("c2-cr","C05",(C,"				if (buffer[i] == '\\r')\n					continue;","				if (buffer[i] == '\\r')\n				{\n					if (pendingwsp && i + 1 < (size_t)stream.gcount() && buffer[i + 1] != '\\n') pendingwsp = false;\n					continue;\n				}"))
b("c2-nul","C05",(C,"buffer[i] == ' ' || buffer[i] == '\\t'))","memchr(\" \\t\", buffer[i], 3)))"),(C,"#include <cstdio>","#include <cstdio>\n#include <cstring>"))
b("c2-readlast","C16",(C,"		while (stream.good())","		while (stream.good() && stream.peek() != EOF)"))
b("c2-badbit","C16",(C,"stream.bad()","(stream.bad() && stream.gcount() == 0)"))
b("c2-hdr-wsp","C06",(C,"		if (data.peek() == EOF) break;\n\n		if (found)","		if (data.peek() == EOF) break;\n\n		if (found && !(x.size() > 1 && x.back() == ' '))"))
b("c2-hdr-8bit","C06",(C,"		x += (char)data.get();","		{ int g = data.get(); x += g == 0xA0 ? ' ' : (char)g; }"))
# options
b("o2-ed-base64","C22",(O,"if (privatekey.size() == crypto_sign_SECRETKEYBYTES)","if (privatekey.size() == crypto_sign_SECRETKEYBYTES && privatekey.find('=') == std::string::npos)"))
b("o2-add-dup","C22",(O,"	m_headers.insert(m_headers.end(), headers.begin(), headers.end());","	if (&headers != &m_headers && headers.size() + m_headers.size() > 64) return *this;\n	m_headers.insert(m_headers.end(), headers.begin(), headers.end());"))
# tool
b("x2-order","C25",(X,"	for (int x = 0; x < argc; x++)","	for (int x = argc > 64 ? 1 : 0; x < argc; x++)"))
b("x2-stdout","C25",(X,"usage(stdout, 0);","usage(stderr, 0);"))
b("x2-keyformat","C25",(X,'{ "keyformat",	required_argument,	nullptr,		\'K\'	},',""))
b("x2-validate-args","C25",(X,"validate = true;","validate = true; keytype.clear();"))
b("x2-key-trim","C25",(X,"		std::ifstream fp(argv[0]);","		if (keytype == \"ed25519\") key.erase(key.find_last_not_of(\"\\r\\n\") + 1);\n		std::ifstream fp(argv[0]);"))
only=sys.argv[1:]
for name,prop,edits in B:
    if only and name not in only: continue
    W="/tmp/bt_"+name; shutil.rmtree(W,ignore_errors=True); os.makedirs(W); subprocess.check_call("git -C /repo archive HEAD | tar -x -C "+W,shell=True)
    bad=False
    for f,o,n in edits:
        s=open(W+"/"+f,encoding="latin1").read()
        if o not in s or o==n: print(name,"EDIT",repr(o)[:70]); bad=True; break
        open(W+"/"+f,"w",encoding="latin1").write(s.replace(o,n,1))
    if bad: shutil.rmtree(W); continue
    if os.environ.get("CHECKONLY"):
        r=subprocess.run(["g++","-std=c++17","-w","-fsyntax-only","-Isrc"]+[f for f in set(e[0] for e in edits)],cwd=W,stderr=subprocess.PIPE,text=True)
        if r.returncode: print(name,"COMPILE",r.stderr[:300])
    else:
        t=time.time(); r=subprocess.run(["python3","run.py",prop,"quick"],cwd="/tmp/vwb2",env=dict(os.environ,VERIF_REPO=W),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        ph=[l for l in r.stdout.split("\n") if l.startswith("phase") and ":" in l[:40]]
        open("/tmp/bt_%s.log"%name,"w").write(r.stdout)
        print(name,prop,"rc=%d"%r.returncode,"%ds"%(time.time()-t),(ph or [r.stdout[-150:].replace("\n","|") if r.returncode else "MISSED"])[0][:130],flush=True)
    shutil.rmtree(W)
