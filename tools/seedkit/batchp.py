import subprocess, sys, os, shutil, time
B=[]
def b(name, prop, *edits): B.append((name,prop,edits))
C="src/Canonicalization.cpp"; V="src/Validatory.cpp"; S="src/Signatory.cpp"; G="src/Signature.cpp"; P="src/PublicKey.cpp"; T="src/Tokenizer.cpp"; L="src/TagList.cpp"; M="src/MailParser.cpp"; R="src/Resolver.cpp"; O="src/SignatoryOptions.cpp"; E="src/EncodedWord.cpp"; Q="src/QuotedPrintable.cpp"; U="src/Util.cpp"; X="tools/src/main.cpp"; B64="src/Base64.cpp"
b("lines-u16","C05",(C,"size_t lines = 0;","unsigned short lines = 0;"))
b("lines-u8","C05",(C,"size_t lines = 0;","unsigned char lines = 0;"))
b("ff-empty","C05",(C,"			if (!buf.empty())\n				emptyBody = false;","			emptyBody = buf.empty();"))
b("relaxed-vt","C05",(C,"buffer[i] == ' ' || buffer[i] == '\\t'))","buffer[i] == ' ' || buffer[i] == '\\t' || buffer[i] == '\\v'))"))
b("limit-shortbuf","C07",(C,"				size_t left = std::min(buf.size(), bodySize);\n				func(buf.c_str(), left);\n				bodySize -= left;\n			} else {\n				func(buf.c_str(), buf.size());\n			}\n\n			if (","				size_t left = std::min(buf.size(), bodySize);\n				func(buf.c_str(), left);\n				bodySize = buf.size() > 8000 ? bodySize - left : bodySize - buf.size();\n				if (buf.size() > left) bodySize = 0;\n			} else {\n				func(buf.c_str(), buf.size());\n			}\n\n			if ("))
b("limit-break-empty","C07",(C,"if (emptyBody == false || type != DKIM::DKIM_C_RELAXED)","if (emptyBody == false || (type != DKIM::DKIM_C_RELAXED && !(bodyLimit && bodySize > 1)))"))
b("hdr-name-long","C06",(C,"	transform(output.begin(), colon, output.begin(), DKIM::Util::ToLower);","	transform(output.begin(), std::min(colon, output.begin() + std::min<size_t>(output.size(), 76)), output.begin(), DKIM::Util::ToLower);"))
b("hdr-colon-before","C06",(C,"find_last_not_of(' ');","find_last_not_of(\" \\v\");"))
b("tag-offset","C09",(L,"		TagListEntry tagEntry;\n		tagEntry.SetValueOffset(data.tellg());\n","		TagListEntry tagEntry;\n		tagEntry.SetValueOffset(data.tellg());\n		if (data.peek() == EOF) tagEntry.SetValueOffset(0);\n"))
b("tag-empty-end","C09",(L,"		m_tags[name] = tagEntry;","		if (!value.empty() || data.peek() != EOF) m_tags[name] = tagEntry;"))
b("tag-ws-inner","C09",(L,"				if (!value_buf.empty())\n				{\n					value += value_buf;","				if (!value_buf.empty())\n				{\n					value += value_buf.size() > 70 ? \" \" : value_buf;"))
b("sig-identity-case","C10",(G,"			m_mailLocalPart = mail.substr(0, mailsep);","			m_mailLocalPart = mail.substr(0, mailsep);\n			if (m_mailLocalPart.size() > 64) throw DKIM::PermanentError(\"Local-part too long (i)\");"))
b("sig-at","C10",(G,"mail.rfind('@')","mail.find('@')"))
b("sig-arc50","C10",(G,"m_arcInstance > 50","m_arcInstance > 50 || i.GetValue().size() > 2"))
b("sig-h-firstonly","C10",(G,"			signedFrom = true;\n			break;","			signedFrom = true;\n			m_headers.splice(m_headers.begin(), m_headers, i);\n			break;"))
b("sig-l-zero","C10",(G,"		m_bodySizeLimit = true;","		m_bodySizeLimit = bs != 0 || l.GetValue().size() > 1;"))
b("sig-reset-c","C14",(G,"	// tag-l\n	m_bodySize = 0;\n	m_bodySizeLimit = false;\n","	// tag-l\n	m_bodySize = 0;\n"))
b("key-flags-case","C11",(V,'"s") != pub.GetFlags().end())','"s") == std::prev(pub.GetFlags().end()))'))
b("key-sha1-after","C11",(P,'			if (*a == "sha256")','			if (*a == "sha256" && (m_digestAlgorithms.empty() || m_digestAlgorithms.size() < 4))'))
b("key-star","C11",(P,"				m_serviceType.clear();\n				break;","				m_serviceType.clear();"))
b("key-k-case","C11",(P,'k.GetValue() == "ed25519"','k.GetValue() == "ed25519" || k.GetValue().empty()'))
b("ver-hash-prefix","C03",(V,"sig.GetBodyHash().size() != md_len ||","sig.GetBodyHash().size() < md_len ||"))
b("ver-cursor-lower","C04",(V,"		if (hIter == header)\n			continue;","		if (hIter->GetHeader() == header->GetHeader())\n			continue;"))
b("ver-b-strip","C02",(V,'strchr(" \\t\\r\\n", v[bEnd])','strchr(" \\t", v[bEnd])'))
b("dns-lower-sel","C12",(V,'std::string query = sig.GetSelector() + "._domainkey." + sig.GetDomain();','std::string query = sig.GetSelector() + "._domainkey." + sig.GetDomain();\n		if (query.size() > 253) throw DKIM::PermanentError("Name too long");'))
b("res-cname","C12",(R,"if (t","if (t"),)
b("res-qd","C12",(R,"x < qc && s >= 0;","x < std::min(qc, 1) && s >= 0;"),(R,"#include","#include <algorithm>\n#include"),(R,"	if (qc == x)","	if (qc == x || x == 1)"))
b("res-class","C12",(R,"txt_len >= rec_len_left","txt_len > rec_len_left"))
b("res-anc","C12",(R,"for (int i = 0; i < cc; ++i)","for (int i = 0; i < cc && i < 16; ++i)"))
b("res-err","C12",(R,"		if (err == NO_RECOVERY)\n			return true;\n",""))
b("sign-oversign-dup","C04",(S,"	signedHeaders.insert(signedHeaders.end(), oversign.begin(), oversign.end());","	for (const auto & i : oversign)\n		if (std::find(signedHeaders.begin(), signedHeaders.end(), i) == signedHeaders.end() || i != \"to\")\n			signedHeaders.push_back(i);"))
b("sign-l0","C07",(S,"		if (options.GetBodySignLength())\n			limit","		if (options.GetBodySignLength() && options.GetBodyLength())\n			limit"))
b("sign-x-now","C24",(S,"(timestamp == -1 ? time(nullptr) : timestamp)","(timestamp <= 0 ? time(nullptr) : timestamp)"))
b("sign-t-per","C24",(S,"		time_t timestamp = -1;\n		if (options.GetTimestampSign())","		static time_t timestamp = -1;\n		if (options.GetTimestampSign())"))
b("sign-ident-case","C21",(S,"			transform(mailDomain.begin(), mailDomain.end(), mailDomain.begin(), DKIM::Util::ToLower);\n",""))
b("sign-ident-sub","C21",(S,'!= "." + domain))','!= "." + domain && mailDomain.size() < 2 * domain.size() + 1))'))
b("sign-listable","C21",(S,"c >= 0x21 && c <= 0x7e && c != ':'","c >= 0x20 && c <= 0x7e && c != ':'"))
b("sign-order","C01",(S,"signatureHeaders","signatureHeaders"),)
b("sign-arc-ident","C21",(S,"if (!options.GetIdentity().empty() && !arcInstance) // in ARC","if (!options.GetIdentity().empty() && arcInstance < 10) // in ARC"))
b("mail-ws-first","C08",(M,"	if (line[0] != '\\t' && line[0] != ' ')","	if (line[0] != '\\t' && line[0] != ' ' && !(m_tmpHeader.get() && line.size() == 1))"))
b("mail-cr2","C08",(M,"	if (line.size() > 0 && line[line.size()-1] == '\\r')\n","	while (line.size() > 0 && line[line.size()-1] == '\\r')\n"))
b("mail-name-trim","C08",(M,"m_name.erase(m_name.find_last_not_of(\" \\t\") + 1);","m_name.erase(m_name.find_last_not_of(\" \") + 1);"))
b("tok-colonlist-end","C20",(T,"		// [ ':' ]\n		if (data.get() == EOF) break;\n	}\n\n	return values;","		// [ ':' ]\n		if (data.get() == EOF) break;\n		if (values.size() == 256) break;\n	}\n\n	return values;"))
b("tok-fws2","C20",(T,"				while (!(_t = ReadWhiteSpace(stream, READ_WSP)).empty())\n				{ _s += _t; }\n\n				return _s;\nunwind","				if (!(_t = ReadWhiteSpace(stream, READ_WSP)).empty())\n				{ _s += _t; }\n\n				return _s;\nunwind"))
b("addr-semicolon","C19",(T,"data.peek() == ',' || data.peek() == ';')","data.peek() == ',' || (data.peek() == ';' && lastsep_))"),(T,"DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(","static const bool lastsep_ = false;\nDKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken("))
b("addr-comment-quote","C19",(T,"				if (data.peek() == '(')\n					++depth;","				if (data.peek() == '(' && depth < 8)\n					++depth;"))
b("addr-quoted-join","C19",(T,"lasttype == TOK_QUOTED && tokens.size() == 1","lasttype == TOK_QUOTED"))
b("ew-under","C18",(E,'DKIM::Conversion::QuotedPrintable::Decode(encdata, true)','DKIM::Conversion::QuotedPrintable::Decode(encdata, encoding == "Q")'))
b("ew-lang","C18",(E,"			if (!fail)\n			{\n				output += encdata;","			if (!fail)\n			{\n				if (output.empty()) output += ws;\n				output += encdata;"))
b("qp-lower","C17",(Q,"(data.peek() >= 'A' && data.peek() <= 'F') || (data.peek() >= '0' && data.peek() <= '9'))\n				hex += (char)data.get();\n			else\n				throw DKIM::PermanentError(StringFormat(\"Quoted-printable decoding failed; unexpected 0x%x, expecting HEX at position %ld\",\n							data.peek() & 0xff,\n							(ssize_t)data.tellg()\n							)\n						);\n\n			output","(data.peek() >= 'A' && data.peek() <= 'F') || (data.peek() >= '0' && data.peek() <= '9') || data.peek() == EOF)\n				hex += (char)data.get();\n			else\n				throw DKIM::PermanentError(StringFormat(\"Quoted-printable decoding failed; unexpected 0x%x, expecting HEX at position %ld\",\n							data.peek() & 0xff,\n							(ssize_t)data.tellg()\n							)\n						);\n\n			output"))
b("util-label63","C22",(U,"	if (subdomain.empty())\n		return false;","	if (subdomain.empty() || subdomain.size() > 62)\n		return false;"))
b("util-digitlabel","C22",(U,"	if (subdomain.empty())\n		return false;","	if (subdomain.empty() || (subdomain.size() == 1 && *subdomain.begin() >= '0' && *subdomain.begin() <= '9'))\n		return false;"))
b("opt-del-over","C22",(O,"	for (const auto & header : names)\n","	if (m_headers.size() > names.size())\n	for (const auto & header : names)\n"))
b("opt-exp-abs","C22",(O,"	m_expirationAbsolute = absolute;\n	m_expirationSign","	m_expirationAbsolute = m_expirationAbsolute && absolute;\n	m_expirationSign"))
b("opt-add-head","C22",(O,"	m_signatures.push_back(AdditionalSignaturesOptions());\n	return m_signatures.back();","	m_signatures.push_back(AdditionalSignaturesOptions());\n	m_signatures.back().SetSignatureAlgorithm(*m_signatureAlgorithm);\n	return m_signatures.back();"))
b("cls-dns","C23",(V,'throw DKIM::TemporaryError(StringFormat("DNS query failed','throw DKIM::TemporaryError(StringFormat("DNS query failed'))
b("cls-bh","C23",(V,'throw DKIM::PermanentError("Body hash did not verify", AR_FAIL);','throw DKIM::PermanentError("Body hash did not verify", sig.GetBodySizeLimit() ? AR_POLICY : AR_FAIL);'))
b("cls-soft","C25",(X,"				if (pub.SoftFail())","				if (pub.SoftFail() && i == mail.GetSignatures().begin())"))
b("tool-status","C25",(X,"			fprintf(stderr, \"message %s could not be open\\n\", argv[x]);\n			status = 1;\n			continue;","			fprintf(stderr, \"message %s could not be open\\n\", argv[x]);\n			status = x == 0;\n			continue;"))
b("tool-arc","C25",(X,"arcInstance = strtoul(optarg, nullptr, 10);","arcInstance = strtoul(optarg, nullptr, 0);"))
b("disc-arcseal","C26",(V,'headerName == "arc-message-signature"','headerName.compare(0, 21, "arc-message-signature") == 0'))
b("time-x0","C24",(G,"strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr)","strtol(x.GetValue().c_str(), nullptr, 10) <= time(nullptr) - 1 && x.GetValue() != \"0\""))
b("strm-clear","C16",(C,"		stream.clear();\n		stream.seekg","		if (stream.eof()) stream.clear();\n		stream.seekg"))
b("hist-msg","C14",(S,"	while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }","	m_file.clear();\n	while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }"))
b("b64-nl","C17",(B64,"BIO_FLAGS_BASE64_NO_NL","(data.size() > 64000 ? 0 : BIO_FLAGS_BASE64_NO_NL)"))
only=sys.argv[1:]
for name,prop,edits in B:
    if only and name not in only: continue
    W="/tmp/bt_"+name; shutil.rmtree(W,ignore_errors=True); os.makedirs(W); subprocess.check_call("git -C /repo archive HEAD | tar -x -C "+W,shell=True)
    bad=False
    for f,o,n in edits:
        s=open(W+"/"+f,encoding="latin1").read()
        if o not in s or o==n: print(name,"EDIT",repr(o)[:70]); bad=True; break
        open(W+"/"+f,"w",encoding="latin1").write(s.replace(o,n,1))
    if not bad:
        t=time.time(); r=subprocess.run(["python3","run.py",prop,"quick"]+os.environ.get("PH","").split(),cwd="/tmp/vwb",env=dict(os.environ,VERIF_REPO=W),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        ph=[l for l in r.stdout.split("\n") if l.startswith("phase") and ":" in l[:40]]
        open("/tmp/bt_%s.log"%name,"w").write(r.stdout)
        print(name,prop,"rc=%d"%r.returncode,"%ds"%(time.time()-t),(ph or [r.stdout[-150:].replace("\n","|") if r.returncode else "MISSED"])[0][:130],flush=True)
    shutil.rmtree(W)
