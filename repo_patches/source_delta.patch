From 8c693fb938719db04383119494b85c46dfd1adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 01/45] fix: state the algorithm of each additional signature
 in its own a= tag

---
 src/Signatory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 9e59350..64b261b 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -144,10 +144,10 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		std::string dkimHeader;
 		unsigned long arcInstance = options.GetARCInstance();
 		if (arcInstance)
-			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 		else
-			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 
 		time_t timestamp = -1;
-- 
2.43.0


From 710b3da94514d8e25cef4f747b495d749879083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 02/45] fix: refuse ed25519 signatures that are not exactly 64
 octets

---
 src/Validatory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 5181e58..5b20409 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -271,7 +271,9 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 		}
 		break;
 		case DKIM::DKIM_SA_ED25519:
-			if (crypto_sign_verify_detached((const unsigned char*)sig.GetSignatureData().c_str(),
+			// crypto_sign_verify_detached reads crypto_sign_BYTES whatever the size of the data
+			if (sig.GetSignatureData().size() != crypto_sign_BYTES ||
+					crypto_sign_verify_detached((const unsigned char*)sig.GetSignatureData().c_str(),
 						md,
 						md_len,
 						(const unsigned char *)pub.GetED25519PublicKey().c_str()) != 0)
-- 
2.43.0


From a43290cbd703058eeff45e7f6c269666aaac38a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 03/45] fix: refuse to sign with ed25519 when no private key
 was set

---
 src/Signatory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 64b261b..ed46c5e 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -236,12 +236,16 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			break;
 			case DKIM::DKIM_SA_ED25519:
 			{
+				const std::string ed25519 = signature.GetED25519PrivateKey();
+				if (ed25519.size() != crypto_sign_SECRETKEYBYTES)
+					throw DKIM::PermanentError("No ED25519 key provided");
+
 				unsigned char sig[crypto_sign_BYTES];
 				if (crypto_sign_detached(sig,
 							nullptr,
 							md,
 							md_len,
-							(const unsigned char *)signature.GetED25519PrivateKey().c_str()) != 0)
+							(const unsigned char *)ed25519.c_str()) != 0)
 					throw DKIM::PermanentError("Message could not be signed");
 				tmp3 = std::string((const char*)sig, crypto_sign_BYTES);
 			}
-- 
2.43.0


From 21cfad58290fc4fc9f06b8ac199ac6363b5724e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 04/45] fix: do not take an earlier ERANGE for an out of range
 body length (l)

---
 src/Signature.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index fed6983..7da7409 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -253,6 +253,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds 76 digits (l)");
 
 		char* ptr;
+		errno = 0;
 		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);
 		if (errno == ERANGE)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds available storage size of unsigned long (l)");
-- 
2.43.0


From 63a93629bb370bd8baf666a1bb5951dca765aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 05/45] fix: accept only decimal digits as body length (l)

---
 src/Signature.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 7da7409..1c9d48b 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -251,6 +251,8 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	{
 		if (l.GetValue().size() > 76)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds 76 digits (l)");
+		if (l.GetValue().empty() || l.GetValue().find_first_not_of("0123456789") != std::string::npos)
+			throw DKIM::PermanentError("Invalid body signed length; failed numeric parsing (l)");
 
 		char* ptr;
 		errno = 0;
-- 
2.43.0


From 1d97c489ab3c3eda9d39970aa623a84f3add241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 06/45] fix: accept only decimal digits as ARC instance (i)

---
 src/Signature.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 1c9d48b..504dc22 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -207,6 +207,8 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		TagListEntry i;
 		if (!m_tagList.GetTag("i", i))
 			throw DKIM::PermanentError("Missing ARC instance (i)");
+		if (i.GetValue().empty() || i.GetValue().find_first_not_of("0123456789") != std::string::npos)
+			throw DKIM::PermanentError("Invalid ARC instance; failed numeric parsing (i)");
 		m_arcInstance = strtoul(i.GetValue().c_str(), nullptr, 10);
 		if (m_arcInstance < 1 || m_arcInstance > 50)
 			throw DKIM::PermanentError("ARC instance (i) out of range 1-50");
-- 
2.43.0


From 568bb37c7ecc19521842679a5c45ea878ca81faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 07/45] fix: refuse signatures with an empty domain, body hash
 or selector

---
 src/Signature.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 504dc22..3f0d9a1 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -84,7 +84,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 
 	// Domain of the signing entity
 	TagListEntry d;
-	if (!m_tagList.GetTag("d", d))
+	if (!m_tagList.GetTag("d", d) || d.GetValue().empty())
 		throw DKIM::PermanentError("Missing domain of the signing entity (d)");
 	m_domain = d.GetValue();
 	transform(m_domain.begin(), m_domain.end(), m_domain.begin(), tolower);
@@ -140,7 +140,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 
 	// Hash of the canonicalized body
 	TagListEntry bh;
-	if (!m_tagList.GetTag("bh", bh))
+	if (!m_tagList.GetTag("bh", bh) || bh.GetValue().empty())
 			throw DKIM::PermanentError("Missing body hash (bh)");
 	std::string bhtmp = bh.GetValue();
 	bhtmp.erase(remove_if(bhtmp.begin(), bhtmp.end(), isspace), bhtmp.end());
@@ -284,7 +284,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 
 	// Selector
 	TagListEntry s;
-	if (!m_tagList.GetTag("s", s))
+	if (!m_tagList.GetTag("s", s) || s.GetValue().empty())
 		throw DKIM::PermanentError("Missing query selector (s)");
 	m_selector = s.GetValue();
 
-- 
2.43.0


From fa0307482521860457f92844c36ad8bb860ac219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 08/45] fix: split the identity (i) at its last @, the
 local-part may be quoted

---
 src/Signature.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 3f0d9a1..83a25a2 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -223,7 +223,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		} else {
 			std::string mail = QuotedPrintable::Decode(i.GetValue());
 
-			size_t mailsep = mail.find('@');
+			size_t mailsep = mail.rfind('@');
 			if (mailsep == std::string::npos)
 				throw DKIM::PermanentError("Missing a local-part (i)");
 
-- 
2.43.0


From 1f0ceefd0c07eedbda78c82875957eb2908ea931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 09/45] fix: do not parse past the headers when CreateSignature
 is called again

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index ed46c5e..1c3e1cb 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -54,7 +54,7 @@ Signatory::~Signatory()
 
 std::string Signatory::CreateSignature(const SignatoryOptions& options)
 {
-	while (m_msg.ParseLine(m_file) && !m_msg.IsDone()) { }
+	while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }
 
 	// create signature for our body (message data)
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
-- 
2.43.0


From 78114400b46bf97de56b1bd7867c2b0d0521b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 10/45] fix: remove the white space around the b= value before
 hashing the signature field

---
 src/Validatory.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 5b20409..790db15 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -243,7 +243,14 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 
 	DKIM::TagListEntry bTag;
 	sig.GetTag("b", bTag);
-	v.erase((int)bTag.GetValueOffset(), bTag.GetValue().size());
+	// including all surrounding whitespace (rfc6376 section 3.7)
+	size_t bBegin = (size_t)bTag.GetValueOffset();
+	size_t bEnd = bBegin + bTag.GetValue().size();
+	while (bBegin > 0 && strchr(" \t\r\n", v[bBegin - 1]))
+		--bBegin;
+	while (bEnd < v.size() && strchr(" \t\r\n", v[bEnd]))
+		++bEnd;
+	v.erase(bBegin, bEnd - bBegin);
 
 	std::string tmp = canonicalhead.FilterHeader(h + v);
 #ifdef DEBUG
-- 
2.43.0


From fca0384501bbba0cb536a2e8503a50d0bb63e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 11/45] fix: refuse keys that are restricted to other services
 than email (s)

---
 src/PublicKey.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 96af961..e9185a1 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -155,18 +155,25 @@ void PublicKey::Parse(const std::string& signature)
 		if (s.GetValue().empty())
 			throw DKIM::PermanentError("Service type is empty (s)");
 
+		bool email = false;
 		std::list<std::string> type = DKIM::Tokenizer::ValueList(s.GetValue());
 		for (std::list<std::string>::const_iterator a = type.begin();
 				a != type.end(); ++a)
 		{
 			if (*a == "email")
+			{
+				email = true;
 				m_serviceType.push_back(DKIM_S_EMAIL);
+			}
 			else if (*a == "*")
 			{
+				email = true;
 				m_serviceType.clear();
 				break;
 			}
 		}
+		if (!email)
+			throw DKIM::PermanentError("Service type does not include email (s)");
 	}
 
 	// Flags
-- 
2.43.0


From 077311ad8f2d6035301d3af5180f46a22e757952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 12/45] fix: refuse keys that are restricted to unknown hash
 algorithms (h)

---
 src/PublicKey.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index e9185a1..2c40709 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -85,6 +85,8 @@ void PublicKey::Parse(const std::string& signature)
 			else if (*a == "sha1")
 				m_digestAlgorithms.push_back(DKIM_A_SHA1);
 		}
+		if (m_digestAlgorithms.empty())
+			throw DKIM::PermanentError("No supported hash algorithm is acceptable (h)");
 	}
 
 	// Key type
-- 
2.43.0


From 4e9906b39cb7aeb508a64e5b1495a7ff8fd59ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 13/45] fix: do not emit a second i= tag in ARC signatures with
 an identity

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 1c3e1cb..d2cc863 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -171,7 +171,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			limit = StringFormat("; l=%lu", options.GetBodyLength());
 
 		std::string identity;
-		if (!options.GetIdentity().empty())
+		if (!options.GetIdentity().empty() && !arcInstance) // in ARC, i= is the instance
 			identity = StringFormat("; i=%s", DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity()).c_str());
 
 		dkimHeader += "\td=" + signature.GetDomain() + "; s=" + signature.GetSelector() + identity + limit + ";\r\n";
-- 
2.43.0


From 08a40f7dceb17f9539b0c887c35a188fbbaaa667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 14/45] fix: sign the existing instances of oversigned headers

---
 src/Signatory.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index d2cc863..8c847e3 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -114,6 +114,14 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	bool signAll = false;
 	if (headersToSign.empty()) signAll = true;
 
+	// oversigning covers one instance more than there are, hence all of those are signed
+	auto oversign = options.GetOversignHeaders();
+	for (auto & i : oversign)
+	{
+		transform(i.begin(), i.end(), i.begin(), tolower);
+		if (!signAll) headersToSign.insert(i);
+	}
+
 	// add all headers to our cache (they will be pop of the end)
 	const auto & headers = m_msg.GetHeaders();
 	for (auto h = headers.rbegin(); h != headers.rend(); ++h)
@@ -132,9 +140,6 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			}
 		}
 	}
-	auto oversign = options.GetOversignHeaders();
-	for (auto & i : oversign)
-		transform(i.begin(), i.end(), i.begin(), tolower);
 	signedHeaders.insert(signedHeaders.end(), oversign.begin(), oversign.end());
 
 	std::string dkimHeaders;
-- 
2.43.0


From 4452e5c89823e501523d59295b0f3be97256f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 15/45] fix: handle consecutive escapes in address comments

---
 src/Tokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 9aea7d7..31c19c8 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -235,6 +235,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 					//if (data.peek() != ')' && data.peek() != '(')
 					//	throw DKIM::PermanentError("unclosed comment");
 					token += (char)data.get();
+					continue;
 				}
 				if (data.peek() == '(')
 					++depth;
-- 
2.43.0


From 65696a9f1e84f09152e23b249e88279fb95e7d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 16/45] fix: accept octet 0xFF in quoted strings of address
 lists

---
 src/Tokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 31c19c8..ccde972 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -198,7 +198,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 			data.get();
 			while (true)
 			{
-				char c = (char)data.get();
+				int c = data.get();
 
 				if (c == EOF) {
 					throw DKIM::PermanentError("unclosed string");
@@ -212,7 +212,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 				} else if (c == '"') {
 					break;
 				} else {
-					token += c;
+					token += (char)c;
 				}
 			}
 			return TOK_QUOTED;
-- 
2.43.0


From 13d0df43a93b208f4e9e844798e56423dde2ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 17/45] fix: do not drop addresses with white space or comments
 after the @

---
 src/Tokenizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index ccde972..2cd5bb5 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -25,6 +25,7 @@
 #include "QuotedPrintable.hpp"
 #include "Base64.hpp"
 
+#include <algorithm>
 #include <cstdio>
 
 using namespace DKIM::Tokenizer;
@@ -322,7 +323,7 @@ std::list<std::string> DKIM::Tokenizer::ParseAddressList(const std::string& inpu
 				if (tokens.empty()) break;
 
 				// skip , in unescaped user parts like From: User, Company Inc <foo@example.org>
-				if (type == TOK_SEPARATOR && lasttype != TOK_TAG_CLOSE && tokens.back().find('@') == std::string::npos)
+				if (type == TOK_SEPARATOR && lasttype != TOK_TAG_CLOSE && std::none_of(tokens.begin(), tokens.end(), [] (const std::string& t) { return t.find('@') != std::string::npos; }))
 				{
 					tokens.clear();
 					continue;
-- 
2.43.0


From ffb483e55369dd198af4a815d330fd891a41cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 18/45] fix: refuse to sign ed25519 with SHA-1, no verifier
 accepts it

---
 src/Signatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 8c847e3..7fa970e 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -241,6 +241,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			break;
 			case DKIM::DKIM_SA_ED25519:
 			{
+				if (options.GetDigestAlgorithm() != DKIM::DKIM_A_SHA256)
+					throw DKIM::PermanentError("ED25519 signatures require SHA-256");
+
 				const std::string ed25519 = signature.GetED25519PrivateKey();
 				if (ed25519.size() != crypto_sign_SECRETKEYBYTES)
 					throw DKIM::PermanentError("No ED25519 key provided");
-- 
2.43.0


From ed907e8de7a16d7ad75b7337d6e28e546f9a824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 19/45] fix: refuse to sign with an ARC instance above 50, no
 verifier accepts it

---
 src/Signatory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 7fa970e..18ea93e 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -148,6 +148,8 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		const auto & signature = *s;
 		std::string dkimHeader;
 		unsigned long arcInstance = options.GetARCInstance();
+		if (arcInstance > 50)
+			throw DKIM::PermanentError("ARC instance out of range 1-50");
 		if (arcInstance)
 			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
-- 
2.43.0


From ed6c961727c556e17b17b5474964ce0a1084652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 20/45] fix: refuse to sign without a domain or selector

---
 src/Signatory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 18ea93e..7453fab 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -146,6 +146,8 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	for (auto s = options.GetAdditionalSignatures().rbegin(); s != options.GetAdditionalSignatures().rend(); ++s)
 	{
 		const auto & signature = *s;
+		if (signature.GetDomain().empty() || signature.GetSelector().empty())
+			throw DKIM::PermanentError("No domain or selector provided");
 		std::string dkimHeader;
 		unsigned long arcInstance = options.GetARCInstance();
 		if (arcInstance > 50)
-- 
2.43.0


From 0ccfb6e616d0e0344b5ad04ce92ff1c60cb1c0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 21/45] fix: never list header names in h= that would break its
 syntax

---
 src/Signatory.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 7453fab..bfd8d59 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -43,6 +43,16 @@ using DKIM::Util::StringFormat;
 #include <map>
 #include <set>
 
+/*
+ * only field names made of printable characters may be listed in h=,
+ * where the colon and the semicolon are separators
+ */
+static bool ListableName(const std::string& name)
+{
+	return !name.empty() && std::all_of(name.begin(), name.end(),
+			[] (char c) { return c >= 0x21 && c <= 0x7e && c != ':' && c != ';'; });
+}
+
 Signatory::Signatory(std::istream& file)
 : m_file(file)
 {
@@ -119,6 +129,8 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	for (auto & i : oversign)
 	{
 		transform(i.begin(), i.end(), i.begin(), tolower);
+		if (!ListableName(i))
+			throw DKIM::PermanentError("Invalid header name to oversign");
 		if (!signAll) headersToSign.insert(i);
 	}
 
@@ -128,7 +140,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	{
 		std::string name = (*h)->GetName();
 		transform(name.begin(), name.end(), name.begin(), tolower);
-		if (!name.empty())
+		if (ListableName(name))
 		{
 			if (!signAll && headersToSign.find(name) == headersToSign.end())
 				continue;
-- 
2.43.0


From 61bf7e6ee294d81e0f4f9637986b4b94b93ac03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 22/45] fix: refuse to sign without the From header, no
 verifier accepts it

---
 src/Signatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index bfd8d59..e22af37 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -154,6 +154,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	}
 	signedHeaders.insert(signedHeaders.end(), oversign.begin(), oversign.end());
 
+	if (std::find(signedHeaders.begin(), signedHeaders.end(), "from") == signedHeaders.end())
+		throw DKIM::PermanentError("From: header must be included in signature");
+
 	std::string dkimHeaders;
 	for (auto s = options.GetAdditionalSignatures().rbegin(); s != options.GetAdditionalSignatures().rend(); ++s)
 	{
-- 
2.43.0


From a1caab43bb8df3b67626ee673fcf0ba55335fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 23/45] fix: refuse to sign with an identity outside the
 signing domain, no verifier accepts it

---
 src/Signatory.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index e22af37..88095b2 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -194,6 +194,21 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		if (options.GetBodySignLength())
 			limit = StringFormat("; l=%lu", options.GetBodyLength());
 
+		if (!options.GetIdentity().empty() && !arcInstance)
+		{
+			// the verifier requires i= to be of the domain or a sub-domain of it
+			std::string domain = signature.GetDomain();
+			transform(domain.begin(), domain.end(), domain.begin(), tolower);
+			size_t mailsep = options.GetIdentity().rfind('@');
+			if (mailsep == std::string::npos)
+				throw DKIM::PermanentError("Identity is missing a local-part (i=)");
+			std::string mailDomain = options.GetIdentity().substr(mailsep + 1);
+			transform(mailDomain.begin(), mailDomain.end(), mailDomain.begin(), tolower);
+			if (mailDomain != domain && (mailDomain.size() <= domain.size() ||
+					mailDomain.substr(mailDomain.size() - domain.size() - 1) != "." + domain))
+				throw DKIM::PermanentError("Identity is not of the signing domain (i=)");
+		}
+
 		std::string identity;
 		if (!options.GetIdentity().empty() && !arcInstance) // in ARC, i= is the instance
 			identity = StringFormat("; i=%s", DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity()).c_str());
-- 
2.43.0


From fa0abb22512d7b934beb73f00c6a84f93133cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 24/45] fix: match names case-insensitively in DelHeaders, and
 allow GetHeaders() as its argument

---
 src/SignatoryOptions.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index a07ef08..7cd3612 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -21,6 +21,7 @@
 #include "SignatoryOptions.hpp"
 #include "Util.hpp"
 #include <sodium.h>
+#include <strings.h>
 
 using DKIM::SignatoryOptions;
 using DKIM::AdditionalSignaturesOptions;
@@ -210,8 +211,9 @@ SignatoryOptions& SignatoryOptions::AddHeaders(const std::list<std::string>& hea
 
 SignatoryOptions& SignatoryOptions::DelHeaders(const std::list<std::string>& headers)
 {
-	for (const auto & header : headers)
-		m_headers.remove(header);
+	const std::list<std::string> names = headers; // may be GetHeaders() itself
+	for (const auto & header : names)
+		m_headers.remove_if([&header] (const std::string& h) { return strcasecmp(h.c_str(), header.c_str()) == 0; });
 	return *this;
 }
 
-- 
2.43.0


From c4752478d59b5960fe9c10ebdc6c89ee2d28b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 25/45] fix: release a replaced RSA private key exactly when it
 is owned, and keep it when loading fails

---
 src/SignatoryOptions.cpp | 32 +++++++++++++++++++++++---------
 src/SignatoryOptions.hpp |  2 ++
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index 7cd3612..1aadece 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -116,8 +116,11 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				*m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				RSA* rsa = EVP_PKEY_get1_RSA(privateKey);
 				EVP_PKEY_free(privateKey);
+				if (!rsa)
+					throw DKIM::PermanentError("RSA key could not be loaded from PEM");
+				m_signatures.front().ReplaceRSAPrivateKey(rsa, true);
 			} else {
 				/*
 				 * Expect the data to be in DER format)
@@ -125,9 +128,10 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
-				*m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
-				if (!*m_privateKeyRSA)
+				RSA* rsa = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				if (!rsa)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
+				m_signatures.front().ReplaceRSAPrivateKey(rsa, true);
 			}
 		}
 		break;
@@ -162,8 +166,7 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 SignatoryOptions& SignatoryOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
-	*m_privateKeyRSA = privatekey;
-	*m_privateKeyRSAFree = privatekeyfree;
+	m_signatures.front().ReplaceRSAPrivateKey(privatekey, privatekeyfree);
 	return *this;
 }
 
@@ -288,10 +291,17 @@ AdditionalSignaturesOptions::~AdditionalSignaturesOptions()
 		RSA_free(m_privateKeyRSA);
 }
 
-AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
+void AdditionalSignaturesOptions::ReplaceRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
+	if (m_privateKeyRSAFree && m_privateKeyRSA != privatekey)
+		RSA_free(m_privateKeyRSA);
 	m_privateKeyRSA = privatekey;
 	m_privateKeyRSAFree = privatekeyfree;
+}
+
+AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
+{
+	ReplaceRSAPrivateKey(privatekey, privatekeyfree);
 	return *this;
 }
 
@@ -347,8 +357,11 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				RSA* rsa = EVP_PKEY_get1_RSA(privateKey);
 				EVP_PKEY_free(privateKey);
+				if (!rsa)
+					throw DKIM::PermanentError("RSA key could not be loaded from PEM");
+				ReplaceRSAPrivateKey(rsa, true);
 			} else {
 				/*
 				 * Expect the data to be in DER format)
@@ -356,9 +369,10 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
-				m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
-				if (!m_privateKeyRSA)
+				RSA* rsa = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				if (!rsa)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
+				ReplaceRSAPrivateKey(rsa, true);
 			}
 		}
 		break;
diff --git a/src/SignatoryOptions.hpp b/src/SignatoryOptions.hpp
index 5e1b1dc..65b8213 100644
--- a/src/SignatoryOptions.hpp
+++ b/src/SignatoryOptions.hpp
@@ -59,6 +59,8 @@ namespace DKIM
 			SignatureAlgorithm GetSignatureAlgorithm() const
 			{ return m_signatureAlgorithm; }
 
+			void ReplaceRSAPrivateKey(RSA* privatekey, bool privatekeyfree);
+
 			RSA* m_privateKeyRSA;
 			bool m_privateKeyRSAFree;
 			std::string m_privateKeyED25519;
-- 
2.43.0


From d6406838658456522fe7d7fc7580733af85e41b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 26/45] fix: raise a temporary error when the message cannot be
 read instead of using the part read so far

---
 src/Canonicalization.cpp |  4 ++++
 src/MailParser.cpp       |  8 ++++++++
 tools/src/main.cpp       | 22 ++++++++++++++++++++--
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/Canonicalization.cpp b/src/Canonicalization.cpp
index ed75e13..07f3f4c 100644
--- a/src/Canonicalization.cpp
+++ b/src/Canonicalization.cpp
@@ -130,6 +130,8 @@ bool DKIM::Conversion::CanonicalizationBody(std::istream& stream, DKIM::CanonMod
 	{
 		stream.clear();
 		stream.seekg(bodyOffset, std::istream::beg);
+		if (stream.fail())
+			throw DKIM::TemporaryError("Message body could not be read");
 
 		bool pendingwsp = false;
 		size_t lines = 0;
@@ -197,6 +199,8 @@ bool DKIM::Conversion::CanonicalizationBody(std::istream& stream, DKIM::CanonMod
 			if (!buf.empty())
 				emptyBody = false;
 		}
+		if (stream.bad())
+			throw DKIM::TemporaryError("Message body could not be read");
 	}
 
 	// the rfc is unclear about this, but google does not insert an empty \r\n for
diff --git a/src/MailParser.cpp b/src/MailParser.cpp
index 8fd70fd..6177c56 100644
--- a/src/MailParser.cpp
+++ b/src/MailParser.cpp
@@ -19,6 +19,7 @@
  *
  */
 #include "MailParser.hpp"
+#include "Exception.hpp"
 
 using DKIM::Header;
 using DKIM::Message;
@@ -87,6 +88,9 @@ bool Message::ParseLine(std::istream& stream)
 	std::string line;
 	if (!std::getline(stream, line))
 	{
+		if (stream.bad())
+			throw DKIM::TemporaryError("Message header could not be read");
+
 		if (m_tmpHeader.get())
 			m_header.push_back(m_tmpHeader);
 
@@ -105,7 +109,11 @@ bool Message::ParseLine(std::istream& stream)
 			m_header.push_back(m_tmpHeader);
 		m_tmpHeader.reset();
 
+		// tellg() also fails at the end of the stream, but then there is no body
+		bool end = stream.eof();
 		m_bodyOffset = stream.tellg();
+		if (m_bodyOffset == -1 && !end)
+			throw DKIM::TemporaryError("Message body could not be read");
 		m_done = true;
 
 		return true;
diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index d83a2f7..6a7252e 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -141,6 +141,10 @@ int main(int argc, char* argv[])
 				std::istreambuf_iterator<char>());
 
 		std::ifstream fp(argv[0]);
+		if (!fp) {
+			fprintf(stderr, "message %s could not be open\n", argv[0]);
+			return 1;
+		}
 		try {
 			printf("%s\r\n",
 					Signatory(fp).CreateSignature(
@@ -164,10 +168,24 @@ int main(int argc, char* argv[])
 	}
 
 	// validate messages (0 .. argv)
+	int status = 0;
 	for (int x = 0; x < argc; x++)
 	{
 		std::ifstream fp(argv[x]);
-		Validatory mail(fp, type);
+		if (!fp) {
+			fprintf(stderr, "message %s could not be open\n", argv[x]);
+			status = 1;
+			continue;
+		}
+		std::unique_ptr<Validatory> validatory;
+		try {
+			validatory.reset(new Validatory(fp, type));
+		} catch (std::runtime_error& e) {
+			fprintf(stderr, "message %s: %s\n", argv[x], e.what());
+			status = 1;
+			continue;
+		}
+		Validatory& mail = *validatory;
 
 		mail.CustomDNSResolver = MyResolver;
 
@@ -196,5 +214,5 @@ int main(int argc, char* argv[])
 		}
 	}
 
-	return 0;
+	return status;
 }
-- 
2.43.0


From c71469293128e8966a73380a730531d4f72c978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 27/45] fix: dkimtool --arcinstance takes an argument, it
 crashed

---
 tools/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index 6a7252e..80bf8d3 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -71,7 +71,7 @@ int main(int argc, char* argv[])
 	// longopts
 	static struct option longopts[] = {
 		{ "arc",	 	no_argument,		nullptr,		'a'	},
-		{ "arcinstance",no_argument,		nullptr,		'A'	},
+		{ "arcinstance",required_argument,	nullptr,		'A'	},
 		{ "help",		no_argument,		nullptr,		'h'	},
 		{ "validate",	no_argument,		nullptr,		'v'	},
 		{ "selector",	required_argument,	nullptr,		's'	},
-- 
2.43.0


From c27eaef96d7dd4ace769412ea67faa31edb89eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 28/45] fix: accept the documented dkimtool option --keytype

---
 tools/src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index 80bf8d3..cf8bb22 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -77,6 +77,7 @@ int main(int argc, char* argv[])
 		{ "selector",	required_argument,	nullptr,		's'	},
 		{ "domain",		required_argument,	nullptr,		'd'	},
 		{ "keyfile",	required_argument,	nullptr,		'k'	},
+		{ "keytype",	required_argument,	nullptr,		'K'	},
 		{ "keyformat",	required_argument,	nullptr,		'K'	},
 		{ nullptr,			0,					nullptr,		0	}
 	};
-- 
2.43.0


From af09ec2152504f70acaee5a014bb19967feb05a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 29/45] fix: decode encoded words that contain a semicolon

---
 src/QuotedPrintable.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/QuotedPrintable.cpp b/src/QuotedPrintable.cpp
index 9a61a7e..b36f846 100644
--- a/src/QuotedPrintable.cpp
+++ b/src/QuotedPrintable.cpp
@@ -74,6 +74,7 @@ std::string QuotedPrintable::Decode(const std::string& input, bool convert_to_sp
 		} else if (
 					(data.peek() >= '\x21' && data.peek() <= '\x3A') ||
 					(data.peek() == '\x3C') ||
+					(data.peek() == ';' && convert_to_space) || // only unsafe in tag values
 					(data.peek() >= '\x3E' && data.peek() <= '\x7E')
 				) {
 			output += (char)data.get();
-- 
2.43.0


From 2d9b7c5380496f7305ffcb0a0d73192dc6307d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 30/45] fix: check the result of every digest operation

---
 src/Canonicalization.hpp |  9 ++++++++-
 src/Signatory.cpp        | 28 +++++++++++++++-------------
 src/Validatory.cpp       | 23 +++++++++++++----------
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/Canonicalization.hpp b/src/Canonicalization.hpp
index 83e115b..d8105f8 100644
--- a/src/Canonicalization.hpp
+++ b/src/Canonicalization.hpp
@@ -22,6 +22,7 @@
 #define _DKIM_CANONICALIZATION_HPP_
 
 #include "DKIM.hpp"
+#include "Exception.hpp"
 
 #include <string>
 #include <vector>
@@ -35,7 +36,13 @@ namespace DKIM {
 			EVP_MD_CTX* ctx;
 			void update(const char* ptr, size_t i)
 			{
-				EVP_DigestUpdate(ctx, ptr, i);
+				check(EVP_DigestUpdate(ctx, ptr, i));
+			}
+			// result of a digest function
+			static void check(int r)
+			{
+				if (r != 1)
+					throw DKIM::TemporaryError("Message digest failed");
 			}
 		};
 		class CanonicalizationHeader
diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 88095b2..2bb2db3 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -27,6 +27,7 @@ using DKIM::Signatory;
 
 using DKIM::Conversion::CanonicalizationHeader;
 using DKIM::Conversion::CanonicalizationBody;
+using DKIM::Conversion::EVPDigest;
 
 #include "QuotedPrintable.hpp"
 #include "Base64.hpp"
@@ -68,17 +69,18 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 
 	// create signature for our body (message data)
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+	EVPDigest::check(evpmdbody != nullptr);
 	switch (options.GetDigestAlgorithm())
 	{
 		case DKIM::DKIM_A_SHA1:
-			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha1(), nullptr);
+			EVPDigest::check(EVP_DigestInit_ex(evpmdbody.get(), EVP_sha1(), nullptr));
 			break;
 		case DKIM::DKIM_A_SHA256:
-			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha256(), nullptr);
+			EVPDigest::check(EVP_DigestInit_ex(evpmdbody.get(), EVP_sha256(), nullptr));
 			break;
 	}
 
-	DKIM::Conversion::EVPDigest evpupd;
+	EVPDigest evpupd;
 	evpupd.ctx = evpmdbody.get();
 
 	if (!CanonicalizationBody(m_file,
@@ -86,26 +88,27 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			m_msg.GetBodyOffset(),
 			options.GetBodySignLength(),
 			options.GetBodyLength(),
-			std::bind(&DKIM::Conversion::EVPDigest::update, &evpupd, std::placeholders::_1, std::placeholders::_2)))
+			std::bind(&EVPDigest::update, &evpupd, std::placeholders::_1, std::placeholders::_2)))
 		throw DKIM::PermanentError("Body sign limit exceed the size of the canonicalized message length");
 
 	unsigned char md[EVP_MAX_MD_SIZE];
 	unsigned int md_len;
-	EVP_DigestFinal_ex(evpmdbody.get(), md, &md_len);
+	EVPDigest::check(EVP_DigestFinal_ex(evpmdbody.get(), md, &md_len));
 
 	std::string bh((char*)md, md_len);
 
 	// create signature for our header
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdhead(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+	EVPDigest::check(evpmdhead != nullptr);
 	int md_nid;
 	switch (options.GetDigestAlgorithm())
 	{
 		case DKIM::DKIM_A_SHA1:
-			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha1(), nullptr);
+			EVPDigest::check(EVP_DigestInit_ex(evpmdhead.get(), EVP_sha1(), nullptr));
 			md_nid = NID_sha1;
 			break;
 		case DKIM::DKIM_A_SHA256:
-			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha256(), nullptr);
+			EVPDigest::check(EVP_DigestInit_ex(evpmdhead.get(), EVP_sha256(), nullptr));
 			md_nid = NID_sha256;
 			break;
 	}
@@ -147,7 +150,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			std::string tmp = canonicalhead.FilterHeader((*h)->GetHeader()) + "\r\n";
 			if (!tmp.empty())
 			{
-				EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size());
+				EVPDigest::check(EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size()));
 				signedHeaders.push_back(name);
 			}
 		}
@@ -232,12 +235,11 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		dkimHeader += "\tbh=" + Base64_Encode(bh) + ";\r\n";
 		dkimHeader += "\tb=";
 
-		EVP_MD_CTX* evpmdhead2 = EVP_MD_CTX_new();
-		EVP_MD_CTX_copy(evpmdhead2, evpmdhead.get());
+		std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdhead2(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+		EVPDigest::check(evpmdhead2 ? EVP_MD_CTX_copy(evpmdhead2.get(), evpmdhead.get()) : 0);
 		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
-		EVP_DigestUpdate(evpmdhead2, tmp2.c_str(), tmp2.size());
-		EVP_DigestFinal_ex(evpmdhead2, md, &md_len);
-		EVP_MD_CTX_free(evpmdhead2);
+		EVPDigest::check(EVP_DigestUpdate(evpmdhead2.get(), tmp2.c_str(), tmp2.size()));
+		EVPDigest::check(EVP_DigestFinal_ex(evpmdhead2.get(), md, &md_len));
 		/*
 		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
 		EVP_DigestUpdate(evpmdhead.get(), tmp2.c_str(), tmp2.size());
diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 790db15..9ed289a 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -33,6 +33,7 @@ using DKIM::Validatory;
 
 using DKIM::Conversion::CanonicalizationHeader;
 using DKIM::Conversion::CanonicalizationBody;
+using DKIM::Conversion::EVPDigest;
 using DKIM::Util::StringFormat;
 using DKIM::TagList;
 using DKIM::TagListEntry;
@@ -131,19 +132,20 @@ void Validatory::GetPublicKey(const DKIM::Signature& sig,
 void Validatory::CheckBodyHash(const DKIM::Signature& sig)
 {
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+	EVPDigest::check(evpmdbody != nullptr);
 
 	// create signature for our body (message data)
 	switch (sig.GetDigestAlgorithm())
 	{
 		case DKIM::DKIM_A_SHA1:
-			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha1(), nullptr);
+			EVPDigest::check(EVP_DigestInit_ex(evpmdbody.get(), EVP_sha1(), nullptr));
 			break;
 		case DKIM::DKIM_A_SHA256:
-			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha256(), nullptr);
+			EVPDigest::check(EVP_DigestInit_ex(evpmdbody.get(), EVP_sha256(), nullptr));
 			break;
 	}
 
-	DKIM::Conversion::EVPDigest evpupd;
+	EVPDigest evpupd;
 	evpupd.ctx = evpmdbody.get();
 
 	CanonicalizationBody(m_file,
@@ -151,11 +153,11 @@ void Validatory::CheckBodyHash(const DKIM::Signature& sig)
 			m_msg.GetBodyOffset(),
 			sig.GetBodySizeLimit(),
 			sig.GetBodySize(),
-			std::bind(&DKIM::Conversion::EVPDigest::update, &evpupd, std::placeholders::_1, std::placeholders::_2));
+			std::bind(&EVPDigest::update, &evpupd, std::placeholders::_1, std::placeholders::_2));
 
 	unsigned char md_value[EVP_MAX_MD_SIZE];
 	unsigned int md_len;
-	EVP_DigestFinal_ex(evpmdbody.get(), md_value, &md_len);
+	EVPDigest::check(EVP_DigestFinal_ex(evpmdbody.get(), md_value, &md_len));
 
 	if (sig.GetBodyHash().size() != md_len ||
 			memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)
@@ -190,15 +192,16 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 
 	// create signature for our header
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdhead(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+	EVPDigest::check(evpmdhead != nullptr);
 	int md_nid;
 	switch (sig.GetDigestAlgorithm())
 	{
 		case DKIM::DKIM_A_SHA1:
-			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha1(), nullptr);
+			EVPDigest::check(EVP_DigestInit_ex(evpmdhead.get(), EVP_sha1(), nullptr));
 			md_nid = NID_sha1;
 			break;
 		case DKIM::DKIM_A_SHA256:
-			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha256(), nullptr);
+			EVPDigest::check(EVP_DigestInit_ex(evpmdhead.get(), EVP_sha256(), nullptr));
 			md_nid = NID_sha256;
 			break;
 	}
@@ -234,7 +237,7 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 #endif
 		tmp = canonicalhead.FilterHeader(head->second.back()->GetHeader()) + "\r\n";
 		head->second.pop_back();
-		EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size());
+		EVPDigest::check(EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size()));
 	}
 
 	// add our dkim-signature to the calculation (remove the "b"-tag)
@@ -256,11 +259,11 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 #ifdef DEBUG
 	printf("[%s]\n", tmp.c_str());
 #endif
-	EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size());
+	EVPDigest::check(EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size()));
 
 	unsigned char md[EVP_MAX_MD_SIZE];
 	unsigned int md_len;
-	EVP_DigestFinal_ex(evpmdhead.get(), md, &md_len);
+	EVPDigest::check(EVP_DigestFinal_ex(evpmdhead.get(), md, &md_len));
 
 	// verify the header signature
 	switch (sig.GetSignatureAlgorithm())
-- 
2.43.0


From 8b63fc6ee1c9173cab9d3b1a6f1c7775ecb46a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 31/45] fix: never let h= refer to the signature being verified

---
 src/Validatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 9ed289a..9dae2b6 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -212,6 +212,9 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 	std::map<std::string, Message::HeaderList> headerCache;
 	for (const auto & hIter : m_msg.GetHeaders())
 	{
+		// h= never refers to the signature being verified (rfc6376 section 3.5)
+		if (hIter == header)
+			continue;
 		std::string headerName = hIter->GetName();
 		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
 		headerCache[headerName].push_back(hIter);
-- 
2.43.0


From d4c538a4db22382d8b77b932cea356efcffcd83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 32/45] fix: find encoded words behind text that merely starts
 like one

---
 src/EncodedWord.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/EncodedWord.cpp b/src/EncodedWord.cpp
index 59e5915..4538e60 100644
--- a/src/EncodedWord.cpp
+++ b/src/EncodedWord.cpp
@@ -60,8 +60,8 @@ std::string EncodedWord::Decode(const std::string& input)
 		// something in the buffer to be read...
 		if (data.peek() == '=')
 		{
-			std::string buffer;
-			buffer = (char)data.get();
+			std::streampos start = data.tellg();
+			data.get();
 
 			std::string charset;
 			std::string encoding;
@@ -70,7 +70,7 @@ std::string EncodedWord::Decode(const std::string& input)
 			bool fail = false;
 			if (!fail && data.peek() == '?')
 			{
-				buffer += (char)data.get();
+				data.get();
 				while (!fail)
 				{
 					if (data.peek() == EOF) { fail = true; break; }
@@ -79,11 +79,10 @@ std::string EncodedWord::Decode(const std::string& input)
 					else
 						charset += (char)data.get();
 				}
-				buffer += charset;
 			} else fail = true;
 			if (!fail && data.peek() == '?')
 			{
-				buffer += (char)data.get();
+				data.get();
 				while (!fail)
 				{
 					if (data.peek() == EOF) { fail = true; break; }
@@ -92,11 +91,10 @@ std::string EncodedWord::Decode(const std::string& input)
 					else
 						encoding += (char)data.get();
 				}
-				buffer += encoding;
 			} else fail = true;
 			if (!fail && data.peek() == '?')
 			{
-				buffer += (char)data.get();
+				data.get();
 				while (!fail)
 				{
 					if (data.peek() == EOF) { fail = true; break; }
@@ -105,14 +103,13 @@ std::string EncodedWord::Decode(const std::string& input)
 					else
 						encdata += (char)data.get();
 				}
-				buffer += encdata;
 			} else fail = true;
 			if (!fail && data.peek() == '?')
 			{
-				buffer += (char)data.get();
+				data.get();
 				if (data.peek() == '=')
 				{
-					buffer += (char)data.get();
+					data.get();
 				} else fail = true;
 			} else fail = true;
 			if (!fail && data.peek() != EOF && data.peek() != ' ' && data.peek() != '\r' && data.peek() != '\n' && data.peek() != '\t')
@@ -141,7 +138,11 @@ std::string EncodedWord::Decode(const std::string& input)
 			{
 				output += encdata;
 			} else {
-				output += ws + buffer;
+				// not an encoded word, but one may begin right behind the '='
+				data.clear();
+				data.seekg(start);
+				output += ws;
+				output += (char)data.get();
 			}
 			ws.clear();
 		} else {
-- 
2.43.0


From 03d85493eeb187aba0ff04af37de5dc874661f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 33/45] fix: skip repeated folding white space in address lists

---
 src/Tokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 2cd5bb5..5c5fc79 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -190,6 +190,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 		{
 			if (!token.empty())
 				break;
+			continue;
 		}
 		if (data.peek() == EOF)
 			break;
-- 
2.43.0


From 6db6f5803a55d268813a385fa7aa97ce546c593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 34/45] fix: refuse an ed25519 seed when the key pair cannot be
 derived

---
 src/SignatoryOptions.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index 1aadece..71db92f 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -141,7 +141,8 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 			{
 				unsigned char pk[crypto_sign_PUBLICKEYBYTES] = { 0 };
 				unsigned char sk[crypto_sign_SECRETKEYBYTES] = { 0 };
-				crypto_sign_seed_keypair(pk, sk, (const unsigned char *)seed.c_str());
+				if (crypto_sign_seed_keypair(pk, sk, (const unsigned char *)seed.c_str()) != 0)
+					throw DKIM::PermanentError("ED25519 key could not be derived from its seed");
 				return std::string((char*)sk, crypto_sign_SECRETKEYBYTES);
 			};
 			if (privatekey.size() == crypto_sign_SECRETKEYBYTES)
@@ -382,7 +383,8 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 			{
 				unsigned char pk[crypto_sign_PUBLICKEYBYTES] = { 0 };
 				unsigned char sk[crypto_sign_SECRETKEYBYTES] = { 0 };
-				crypto_sign_seed_keypair(pk, sk, (const unsigned char *)seed.c_str());
+				if (crypto_sign_seed_keypair(pk, sk, (const unsigned char *)seed.c_str()) != 0)
+					throw DKIM::PermanentError("ED25519 key could not be derived from its seed");
 				return std::string((char*)sk, crypto_sign_SECRETKEYBYTES);
 			};
 			if (privatekey.size() == crypto_sign_SECRETKEYBYTES)
-- 
2.43.0


From 2ceeac6fa69a49788b97eb010333881730fec6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 35/45] fix: refuse a public key whose RSA part cannot be
 loaded

---
 src/PublicKey.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 2c40709..85257cd 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -138,6 +138,8 @@ void PublicKey::Parse(const std::string& signature)
 
 			m_publicKeyRSA = EVP_PKEY_get1_RSA(publicKey);
 			EVP_PKEY_free(publicKey);
+			if (m_publicKeyRSA == nullptr)
+				throw DKIM::PermanentError("Public key could not be loaded (no RSA key)");
 		}
 		break;
 		case DKIM_SA_ED25519:
-- 
2.43.0


From 6b3d95e38468a709f938b7339060035a804445b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 36/45] fix: report an unreadable dkimtool key file instead of
 aborting

---
 tools/src/main.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index cf8bb22..8caa147 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -138,8 +138,14 @@ int main(int argc, char* argv[])
 			fprintf(stderr, "keyfile %s could not be open\n", keyfile.c_str());
 			return 1;
 		}
-		std::string key((std::istreambuf_iterator<char>(kfp)),
-				std::istreambuf_iterator<char>());
+		std::string key;
+		try {
+			key.assign((std::istreambuf_iterator<char>(kfp)),
+					std::istreambuf_iterator<char>());
+		} catch (std::runtime_error& e) {
+			fprintf(stderr, "keyfile %s could not be read: %s\n", keyfile.c_str(), e.what());
+			return 1;
+		}
 
 		std::ifstream fp(argv[0]);
 		if (!fp) {
-- 
2.43.0


From d8ea87fbe6e8bff5c76574d21ab9b40a31c6ca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 37/45] fix: a comment behind a quoted item of an address list
 changed how it is read

---
 src/Tokenizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 5c5fc79..378dd2e 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -289,7 +289,9 @@ std::list<std::string> DKIM::Tokenizer::ParseAddressList(const std::string& inpu
 	bool inOpentag = false;
 	while (type != TOK_EOF)
 	{
-		lasttype = type;
+		// comments do not count
+		if (type != TOK_COMMENT)
+			lasttype = type;
 		type = NextAddressListToken(data, token);
 
 		if (token.find('\0') != std::string::npos)
-- 
2.43.0


From c41041e932a9e018a3e6ad8c1981dea61925fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:20 +0000
Subject: [PATCH 38/45] fix: compare and lower-case header names and domains
 independently of the process locale

---
 src/Canonicalization.cpp |  2 +-
 src/PublicKey.cpp        |  2 +-
 src/Signatory.cpp        | 10 +++++-----
 src/SignatoryOptions.cpp |  3 +--
 src/Signature.cpp        | 12 ++++++------
 src/Util.cpp             | 20 ++++++++++++++++++++
 src/Util.hpp             |  5 +++++
 src/Validatory.cpp       |  6 +++---
 8 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/Canonicalization.cpp b/src/Canonicalization.cpp
index 07f3f4c..8bd74b1 100644
--- a/src/Canonicalization.cpp
+++ b/src/Canonicalization.cpp
@@ -63,7 +63,7 @@ std::string CanonicalizationHeader::FilterHeader(const std::string& input) const
 					input.c_str()
 					)
 				);
-	transform(output.begin(), colon, output.begin(), tolower);
+	transform(output.begin(), colon, output.begin(), DKIM::Util::ToLower);
 
 	/**
 	 * Unfold all header field continuation lines as described in
diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 85257cd..9aa0c34 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -113,7 +113,7 @@ void PublicKey::Parse(const std::string& signature)
 		throw DKIM::PermanentError("Public key is revoked (p)");
 
 	std::string ptmp = p.GetValue();
-	ptmp.erase(remove_if(ptmp.begin(), ptmp.end(), isspace), ptmp.end());
+	ptmp.erase(remove_if(ptmp.begin(), ptmp.end(), DKIM::Util::IsSpace), ptmp.end());
 
 	switch (m_signatureAlgorithm)
 	{
diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 2bb2db3..d6f8437 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -118,7 +118,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	std::set<std::string> headersToSign;
 	for (auto name : options.GetHeaders())
 	{
-		transform(name.begin(), name.end(), name.begin(), tolower);
+		transform(name.begin(), name.end(), name.begin(), DKIM::Util::ToLower);
 		headersToSign.insert(name);
 	}
 
@@ -131,7 +131,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	auto oversign = options.GetOversignHeaders();
 	for (auto & i : oversign)
 	{
-		transform(i.begin(), i.end(), i.begin(), tolower);
+		transform(i.begin(), i.end(), i.begin(), DKIM::Util::ToLower);
 		if (!ListableName(i))
 			throw DKIM::PermanentError("Invalid header name to oversign");
 		if (!signAll) headersToSign.insert(i);
@@ -142,7 +142,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	for (auto h = headers.rbegin(); h != headers.rend(); ++h)
 	{
 		std::string name = (*h)->GetName();
-		transform(name.begin(), name.end(), name.begin(), tolower);
+		transform(name.begin(), name.end(), name.begin(), DKIM::Util::ToLower);
 		if (ListableName(name))
 		{
 			if (!signAll && headersToSign.find(name) == headersToSign.end())
@@ -201,12 +201,12 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		{
 			// the verifier requires i= to be of the domain or a sub-domain of it
 			std::string domain = signature.GetDomain();
-			transform(domain.begin(), domain.end(), domain.begin(), tolower);
+			transform(domain.begin(), domain.end(), domain.begin(), DKIM::Util::ToLower);
 			size_t mailsep = options.GetIdentity().rfind('@');
 			if (mailsep == std::string::npos)
 				throw DKIM::PermanentError("Identity is missing a local-part (i=)");
 			std::string mailDomain = options.GetIdentity().substr(mailsep + 1);
-			transform(mailDomain.begin(), mailDomain.end(), mailDomain.begin(), tolower);
+			transform(mailDomain.begin(), mailDomain.end(), mailDomain.begin(), DKIM::Util::ToLower);
 			if (mailDomain != domain && (mailDomain.size() <= domain.size() ||
 					mailDomain.substr(mailDomain.size() - domain.size() - 1) != "." + domain))
 				throw DKIM::PermanentError("Identity is not of the signing domain (i=)");
diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index 71db92f..2a3987e 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -21,7 +21,6 @@
 #include "SignatoryOptions.hpp"
 #include "Util.hpp"
 #include <sodium.h>
-#include <strings.h>
 
 using DKIM::SignatoryOptions;
 using DKIM::AdditionalSignaturesOptions;
@@ -217,7 +216,7 @@ SignatoryOptions& SignatoryOptions::DelHeaders(const std::list<std::string>& hea
 {
 	const std::list<std::string> names = headers; // may be GetHeaders() itself
 	for (const auto & header : names)
-		m_headers.remove_if([&header] (const std::string& h) { return strcasecmp(h.c_str(), header.c_str()) == 0; });
+		m_headers.remove_if([&header] (const std::string& h) { return DKIM::Util::EqualsIgnoreCase(h, header); });
 	return *this;
 }
 
diff --git a/src/Signature.cpp b/src/Signature.cpp
index 83a25a2..9483742 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -74,7 +74,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	m_tagList.Parse(header->GetHeader().substr(header->GetValueOffset()));
 
 	std::string headerName = header->GetName();
-	transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
+	transform(headerName.begin(), headerName.end(), headerName.begin(), DKIM::Util::ToLower);
 	if (headerName == "arc-message-signature")
 		m_arc = true;
 
@@ -87,7 +87,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	if (!m_tagList.GetTag("d", d) || d.GetValue().empty())
 		throw DKIM::PermanentError("Missing domain of the signing entity (d)");
 	m_domain = d.GetValue();
-	transform(m_domain.begin(), m_domain.end(), m_domain.begin(), tolower);
+	transform(m_domain.begin(), m_domain.end(), m_domain.begin(), DKIM::Util::ToLower);
 
 	// Version
 	if (!m_arc)
@@ -135,7 +135,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		throw DKIM::PermanentError("Missing header signature (b)");
 
 	std::string btmp = b.GetValue();
-	btmp.erase(remove_if(btmp.begin(), btmp.end(), isspace), btmp.end());
+	btmp.erase(remove_if(btmp.begin(), btmp.end(), DKIM::Util::IsSpace), btmp.end());
 	m_b = Base64_Decode(btmp);
 
 	// Hash of the canonicalized body
@@ -143,7 +143,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	if (!m_tagList.GetTag("bh", bh) || bh.GetValue().empty())
 			throw DKIM::PermanentError("Missing body hash (bh)");
 	std::string bhtmp = bh.GetValue();
-	bhtmp.erase(remove_if(bhtmp.begin(), bhtmp.end(), isspace), bhtmp.end());
+	bhtmp.erase(remove_if(bhtmp.begin(), bhtmp.end(), DKIM::Util::IsSpace), bhtmp.end());
 	m_bh = Base64_Decode(bhtmp);
 
 	// Message canonicalization
@@ -192,7 +192,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	bool signedFrom = false;
 	for (std::list<std::string>::const_iterator i = m_headers.begin(); i != m_headers.end(); ++i)
 	{
-		if (strcasecmp(i->c_str(), "from") == 0)
+		if (DKIM::Util::EqualsIgnoreCase(*i, "from"))
 		{
 			signedFrom = true;
 			break;
@@ -231,7 +231,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 
 			// m_mailDomain should be matched in lower-case
 			m_mailDomain = mail.substr(mailsep+1);
-			transform(m_mailDomain.begin(), m_mailDomain.end(), m_mailDomain.begin(), tolower);
+			transform(m_mailDomain.begin(), m_mailDomain.end(), m_mailDomain.begin(), DKIM::Util::ToLower);
 
 			if (m_mailDomain == m_domain) {
 				// same domain
diff --git a/src/Util.cpp b/src/Util.cpp
index 9c0436a..0ec7a58 100644
--- a/src/Util.cpp
+++ b/src/Util.cpp
@@ -109,3 +109,23 @@ bool DKIM::Util::ValidateDomain(const std::string& domain)
 
 	return ValidateSubDomain(domain.substr(lpos));
 }
+
+char DKIM::Util::ToLower(char c)
+{
+	return c >= 'A' && c <= 'Z' ? (char)(c - 'A' + 'a') : c;
+}
+
+bool DKIM::Util::IsSpace(char c)
+{
+	return c == ' ' || (c >= '\t' && c <= '\r');
+}
+
+bool DKIM::Util::EqualsIgnoreCase(const std::string& a, const std::string& b)
+{
+	if (a.size() != b.size())
+		return false;
+	for (size_t i = 0; i < a.size(); ++i)
+		if (ToLower(a[i]) != ToLower(b[i]))
+			return false;
+	return true;
+}
diff --git a/src/Util.hpp b/src/Util.hpp
index 9024903..f919c18 100644
--- a/src/Util.hpp
+++ b/src/Util.hpp
@@ -32,6 +32,11 @@ namespace DKIM {
 		std::string StringFormat(const char* fmt, ...)
 			__attribute__((format(printf, 1, 2)));
 		bool ValidateDomain(const std::string& domain);
+
+		// US-ASCII only, whatever the current locale is
+		char ToLower(char c);
+		bool IsSpace(char c);
+		bool EqualsIgnoreCase(const std::string& a, const std::string& b);
 	}
 }
 
diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 9dae2b6..69e9220 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -58,7 +58,7 @@ Validatory::Validatory(std::istream& stream, ValidatorType type)
 	{
 		// headers should be matched in lower-case
 		std::string headerName = (*i)->GetName();
-		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
+		transform(headerName.begin(), headerName.end(), headerName.begin(), DKIM::Util::ToLower);
 
 		// collect all signatures
 		if ((type == DKIM && headerName == "dkim-signature") ||
@@ -216,7 +216,7 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 		if (hIter == header)
 			continue;
 		std::string headerName = hIter->GetName();
-		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
+		transform(headerName.begin(), headerName.end(), headerName.begin(), DKIM::Util::ToLower);
 		headerCache[headerName].push_back(hIter);
 	}
 
@@ -224,7 +224,7 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 	for (auto name : sig.GetSignedHeaders())
 	{
 		std::string tmp;
-		transform(name.begin(), name.end(), name.begin(), tolower);
+		transform(name.begin(), name.end(), name.begin(), DKIM::Util::ToLower);
 
 		std::map<std::string, Message::HeaderList>::iterator head = headerCache.find(name);
 
-- 
2.43.0


From f42732c4fa60a1b329fefc95bd2d2b762ddfdce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:08 +0000
Subject: [PATCH 39/45] fix: free the base64 filter and notice its failure when
 memory runs out

---
 src/Base64.cpp | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index d36efe4..6f39b6b 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -21,18 +21,41 @@
 #include "Base64.hpp"
 #include "Exception.hpp"
 
+#include <memory>
+#include <new>
+
 #include <openssl/bio.h>
 #include <openssl/evp.h>
 #include <openssl/buffer.h>
 
+/*
+ * frees a chain of BIOs, also if the conversion is left by an exception
+ */
+struct BIOFree
+{
+	void operator()(BIO* bio) const
+	{
+		BIO_free_all(bio);
+	}
+};
+
+static void check(bool ok)
+{
+	if (!ok)
+		throw std::bad_alloc();
+}
+
 std::string DKIM::Conversion::Base64_Decode(const std::string& data)
 {
 	BIO *i, *o, *l;
 	i = BIO_new(BIO_f_base64());
+	std::unique_ptr<BIO, BIOFree> chain(i);
+	check(i != nullptr);
 	BIO_set_flags(i, BIO_FLAGS_BASE64_NO_NL);
 	o = BIO_new(BIO_s_mem());
+	check(o != nullptr);
 	l = BIO_push(i, o);
-	BIO_write(o, data.c_str(), data.size());
+	check(BIO_write(o, data.c_str(), data.size()) == (int)data.size());
 	(void) BIO_flush(o);
 
 	char b[1024];
@@ -41,7 +64,6 @@ std::string DKIM::Conversion::Base64_Decode(const std::string& data)
 	while ((r = BIO_read(l, b, sizeof b)) > 0)
 		result.append(b, (size_t)r);
 
-	BIO_free_all(l);
 	return result;
 }
 
@@ -49,11 +71,14 @@ std::string DKIM::Conversion::Base64_Encode(const std::string& data)
 {
 	BIO *i, *o, *l;
 	i = BIO_new(BIO_f_base64());
+	std::unique_ptr<BIO, BIOFree> chain(i);
+	check(i != nullptr);
 	o = BIO_new(BIO_s_mem());
+	check(o != nullptr);
 	l = BIO_push(i, o);
 	BIO_set_flags(l, BIO_FLAGS_BASE64_NO_NL);
-	BIO_write(l, data.c_str(), data.size());
-	(void) BIO_flush(l);
+	check(BIO_write(l, data.c_str(), data.size()) == (int)data.size());
+	check(BIO_flush(l) == 1);
 	std::string str;
 
 	char buf[256];
@@ -64,6 +89,5 @@ std::string DKIM::Conversion::Base64_Encode(const std::string& data)
 		str.append(buf, (size_t)r);
 	}
 
-	BIO_free_all(l);
 	return str;
 }
-- 
2.43.0


From ea0fd4b1cda84b7f43f6a1d6ece455f2ea767525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:08 +0000
Subject: [PATCH 40/45] fix: do not leak the formatted text when memory runs
 out

---
 src/Util.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Util.cpp b/src/Util.cpp
index 0ec7a58..5d88881 100644
--- a/src/Util.cpp
+++ b/src/Util.cpp
@@ -23,6 +23,8 @@
 #include <cstdarg>
 #include <cstdio>
 #include <cstdlib>
+#include <memory>
+#include <new>
 
 std::string DKIM::Util::CanonMode2String(CanonMode mode)
 {
@@ -66,12 +68,12 @@ std::string DKIM::Util::StringFormat(const char* fmt, ...)
 	va_list args;
 	va_start(args, fmt);
 	char* mem = nullptr;
-	if (vasprintf(&mem, fmt, args) == -1)
-		throw std::bad_alloc();
-	std::string result = mem;
-	free(mem);
+	int length = vasprintf(&mem, fmt, args);
 	va_end(args);
-	return result;
+	if (length == -1)
+		throw std::bad_alloc();
+	std::unique_ptr<char, decltype(&free)> owner(mem, &free);
+	return mem;
 }
 
 static std::string alphanum =
-- 
2.43.0


From da118141f7a603f0b905f1f4a427c4a35198f2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:08 +0000
Subject: [PATCH 41/45] fix: do not leak the RSA signature buffer when memory
 runs out

---
 src/Signatory.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index d6f8437..28d48f9 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -256,23 +256,19 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 					throw DKIM::PermanentError("No RSA key provided");
 
 				unsigned int sig_len;
-				unsigned char* sig = new unsigned char[RSA_size(rsa)];
+				std::unique_ptr<unsigned char[]> sig(new unsigned char[RSA_size(rsa)]);
 
 				int r = RSA_sign(md_nid,
 						md,
 						md_len,
-						sig,
+						sig.get(),
 						&sig_len,
 						rsa);
 
 				if (r != 1)
-				{
-					delete [] sig;
 					throw DKIM::PermanentError("Message could not be signed");
-				}
 
-				tmp3 = std::string((const char*)sig, sig_len);
-				delete [] sig;
+				tmp3 = std::string((const char*)sig.get(), sig_len);
 			}
 			break;
 			case DKIM::DKIM_SA_ED25519:
-- 
2.43.0


From 384bc2fef1490b17cc4b4000381f0e66a932830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:08 +0000
Subject: [PATCH 42/45] fix: do not leave an encoded word undecoded when memory
 runs out

---
 src/EncodedWord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EncodedWord.cpp b/src/EncodedWord.cpp
index 4538e60..e8db507 100644
--- a/src/EncodedWord.cpp
+++ b/src/EncodedWord.cpp
@@ -129,7 +129,7 @@ std::string EncodedWord::Decode(const std::string& input)
 						encdata = DKIM::Conversion::Base64_Decode(encdata);
 						break;
 					}
-				} catch(...) {
+				} catch(DKIM::PermanentError&) {
 				}
 				fail = true;
 			} while (false);
-- 
2.43.0


From 2245ff891bdb4337d4db639bdbfa8e6202a9c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:52 +0000
Subject: [PATCH 43/45] fix: assigning keys and options, and copying additional
 signatures, freed RSA keys twice or never

---
 src/PublicKey.cpp        | 22 +++++++++++
 src/PublicKey.hpp        |  2 +
 src/SignatoryOptions.cpp | 82 ++++++++++++++++++++++++++++++++++++----
 src/SignatoryOptions.hpp |  6 +++
 4 files changed, 105 insertions(+), 7 deletions(-)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 9aa0c34..3a0dbdb 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -33,6 +33,28 @@ using DKIM::PublicKey;
 using DKIM::Conversion::Base64_Decode;
 using DKIM::Util::StringFormat;
 
+/*
+ * the RSA key is shared by reference count
+ */
+PublicKey& PublicKey::operator=(const PublicKey& other)
+{
+	if (this == &other)
+		return *this;
+
+	m_tagList = other.m_tagList;
+	m_digestAlgorithms = other.m_digestAlgorithms;
+	m_publicKeyED25519 = other.m_publicKeyED25519;
+	m_signatureAlgorithm = other.m_signatureAlgorithm;
+	m_serviceType = other.m_serviceType;
+	m_flags = other.m_flags;
+
+	if (other.m_publicKeyRSA)
+		RSA_up_ref(other.m_publicKeyRSA);
+	RSA_free(m_publicKeyRSA);
+	m_publicKeyRSA = other.m_publicKeyRSA;
+	return *this;
+}
+
 void PublicKey::Reset()
 {
 	m_tagList.Reset();
diff --git a/src/PublicKey.hpp b/src/PublicKey.hpp
index b26d0a2..257aeef 100644
--- a/src/PublicKey.hpp
+++ b/src/PublicKey.hpp
@@ -44,6 +44,8 @@ namespace DKIM {
 			~PublicKey()
 			{ Reset(); }
 
+			PublicKey& operator=(const PublicKey& other);
+
 			void Reset();
 			void Parse(const std::string& signature);
 
diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index 2a3987e..fbb63bb 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -28,13 +28,7 @@ using DKIM::AdditionalSignaturesOptions;
 SignatoryOptions::SignatoryOptions()
 {
 	m_signatures.push_front(AdditionalSignaturesOptions());
-	auto & f = m_signatures.front();
-	m_privateKeyRSA = &f.m_privateKeyRSA;
-	m_privateKeyRSAFree = &f.m_privateKeyRSAFree;
-	m_privateKeyED25519 = &f.m_privateKeyED25519;
-	m_selector = &f.m_selector;
-	m_domain = &f.m_domain;
-	m_signatureAlgorithm = &f.m_signatureAlgorithm;
+	ReferMainSignature();
 	m_digestAlgorithm = DKIM_A_SHA256;
 	m_canonHead = DKIM_C_SIMPLE;
 	m_canonBody = DKIM_C_SIMPLE;
@@ -87,6 +81,46 @@ SignatoryOptions::~SignatoryOptions()
 {
 }
 
+SignatoryOptions& SignatoryOptions::operator=(const SignatoryOptions& other)
+{
+	if (this == &other)
+		return *this;
+
+	m_digestAlgorithm = other.m_digestAlgorithm;
+	m_oversignheaders = other.m_oversignheaders;
+	m_headers = other.m_headers;
+	m_bodyLength = other.m_bodyLength;
+	m_bodySignLength = other.m_bodySignLength;
+	m_arcInstance = other.m_arcInstance;
+	m_canonHead = other.m_canonHead;
+	m_canonBody = other.m_canonBody;
+	m_timestampSign = other.m_timestampSign;
+	m_timestamp = other.m_timestamp;
+	m_expirationSign = other.m_expirationSign;
+	m_expirationAbsolute = other.m_expirationAbsolute;
+	m_expiration = other.m_expiration;
+	m_identity = other.m_identity;
+
+	std::list<AdditionalSignaturesOptions> signatures(other.m_signatures);
+	m_signatures.swap(signatures);
+	ReferMainSignature();
+	return *this;
+}
+
+/*
+ * the setters and getters of this class refer to the first signature of the list
+ */
+void SignatoryOptions::ReferMainSignature()
+{
+	auto & f = m_signatures.front();
+	m_privateKeyRSA = &f.m_privateKeyRSA;
+	m_privateKeyRSAFree = &f.m_privateKeyRSAFree;
+	m_privateKeyED25519 = &f.m_privateKeyED25519;
+	m_selector = &f.m_selector;
+	m_domain = &f.m_domain;
+	m_signatureAlgorithm = &f.m_signatureAlgorithm;
+}
+
 SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 {
 	switch (*m_signatureAlgorithm)
@@ -285,6 +319,40 @@ AdditionalSignaturesOptions::AdditionalSignaturesOptions()
 	m_signatureAlgorithm = DKIM_SA_RSA;
 }
 
+/*
+ * a key that is freed is shared by reference count
+ */
+AdditionalSignaturesOptions::AdditionalSignaturesOptions(const AdditionalSignaturesOptions& other)
+: m_privateKeyRSA(other.m_privateKeyRSA)
+, m_privateKeyRSAFree(other.m_privateKeyRSAFree)
+, m_privateKeyED25519(other.m_privateKeyED25519)
+, m_signatureAlgorithm(other.m_signatureAlgorithm)
+, m_domain(other.m_domain)
+, m_selector(other.m_selector)
+{
+	if (m_privateKeyRSAFree && m_privateKeyRSA)
+		RSA_up_ref(m_privateKeyRSA);
+}
+
+AdditionalSignaturesOptions& AdditionalSignaturesOptions::operator=(const AdditionalSignaturesOptions& other)
+{
+	if (this == &other)
+		return *this;
+
+	m_privateKeyED25519 = other.m_privateKeyED25519;
+	m_signatureAlgorithm = other.m_signatureAlgorithm;
+	m_domain = other.m_domain;
+	m_selector = other.m_selector;
+
+	if (other.m_privateKeyRSAFree && other.m_privateKeyRSA)
+		RSA_up_ref(other.m_privateKeyRSA);
+	if (m_privateKeyRSAFree)
+		RSA_free(m_privateKeyRSA);
+	m_privateKeyRSA = other.m_privateKeyRSA;
+	m_privateKeyRSAFree = other.m_privateKeyRSAFree;
+	return *this;
+}
+
 AdditionalSignaturesOptions::~AdditionalSignaturesOptions()
 {
 	if (m_privateKeyRSAFree)
diff --git a/src/SignatoryOptions.hpp b/src/SignatoryOptions.hpp
index 65b8213..ea4478f 100644
--- a/src/SignatoryOptions.hpp
+++ b/src/SignatoryOptions.hpp
@@ -40,8 +40,11 @@ namespace DKIM
 	{
 		public:
 			AdditionalSignaturesOptions();
+			AdditionalSignaturesOptions(const AdditionalSignaturesOptions& other);
 			~AdditionalSignaturesOptions();
 
+			AdditionalSignaturesOptions& operator=(const AdditionalSignaturesOptions& other);
+
 			AdditionalSignaturesOptions& SetPrivateKey(const std::string& privatekey);
 			AdditionalSignaturesOptions& SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree);
 			AdditionalSignaturesOptions& SetDomain(const std::string& domain);
@@ -75,6 +78,8 @@ namespace DKIM
 			SignatoryOptions();
 			~SignatoryOptions();
 
+			SignatoryOptions& operator=(const SignatoryOptions& other);
+
 			SignatoryOptions& SetPrivateKey(const std::string& privatekey);
 			SignatoryOptions& SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree);
 			SignatoryOptions& SetDomain(const std::string& domain);
@@ -136,6 +141,7 @@ namespace DKIM
 			{ return m_identity; }
 		private:
 			SignatoryOptions(const SignatoryOptions&);
+			void ReferMainSignature();
 
 			RSA** m_privateKeyRSA;
 			bool* m_privateKeyRSAFree;
-- 
2.43.0


From 117003250b978fcb62fc88b2f688e9d82e821e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:18 +0000
Subject: [PATCH 44/45] fix: a field without colon was searched from its start
 again at every folded line

The work grew with the square of the number of lines.
---
 src/MailParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MailParser.cpp b/src/MailParser.cpp
index 6177c56..15b8216 100644
--- a/src/MailParser.cpp
+++ b/src/MailParser.cpp
@@ -42,7 +42,8 @@ bool Header::ParseLine(const std::string& data)
 
 	if (m_valueOffset == 0)
 	{
-		size_t sep = m_header.find(':');
+		// there is none in the lines before
+		size_t sep = m_header.find(':', m_header.size() - data.size());
 		if (sep == std::string::npos)
 			return false;
 
-- 
2.43.0


From bed81f0fa8a72d443aaaed179f63adb78f767882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:40 +0000
Subject: [PATCH 45/45] fix: white space in front of a line end that is no
 folding was read again for every character

ReadWhiteSpace(READ_FWS) reads such white space and puts all of it back. The
callers then took one character and called it again, so that the work grew
with the square of the length (a key record of 32 kB took half a minute).
---
 src/Canonicalization.cpp |  2 +-
 src/Tokenizer.cpp        | 19 +++++++++++++++++--
 src/Tokenizer.hpp        |  2 ++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/Canonicalization.cpp b/src/Canonicalization.cpp
index 8bd74b1..72e5acc 100644
--- a/src/Canonicalization.cpp
+++ b/src/Canonicalization.cpp
@@ -94,7 +94,7 @@ std::string CanonicalizationHeader::FilterHeader(const std::string& input) const
 		if (found)
 			x += " ";
 
-		x += (char)data.get();
+		x += DKIM::Tokenizer::ReadNonFWS(data);
 	}
 
 	/**
diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 378dd2e..860f232 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -127,6 +127,21 @@ unwind:
 	return "";
 }
 
+/*
+ * Read what READ_FWS did not: one character, but a run of WSP (in front of a
+ * CRLF which is not followed by WSP) at once, or READ_FWS would read it again
+ * for every character of it
+ */
+std::string DKIM::Tokenizer::ReadNonFWS(std::istream& stream)
+{
+	std::string _s;
+	while (stream.peek() == ' ' || stream.peek() == '\t')
+		_s += (char)stream.get();
+	if (_s.empty())
+		_s += (char)stream.get();
+	return _s;
+}
+
 std::list<std::string> DKIM::Tokenizer::ValueList(const std::string& input)
 {
 	std::list<std::string> values;
@@ -159,7 +174,7 @@ std::list<std::string> DKIM::Tokenizer::ValueList(const std::string& input)
 					value_buf = "";
 				}
 
-				value += (char)data.get();
+				value += ReadNonFWS(data);
 			}
 
 			value_buf += ws;
@@ -269,7 +284,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 			data.get();
 			return TOK_SEPARATOR;
 		}
-		token += (char)data.get();
+		token += ReadNonFWS(data);
 	}
 
 	if (!token.empty()) return TOK_ATOM;
diff --git a/src/Tokenizer.hpp b/src/Tokenizer.hpp
index a88e0a8..339afc0 100644
--- a/src/Tokenizer.hpp
+++ b/src/Tokenizer.hpp
@@ -37,6 +37,8 @@ namespace DKIM {
 
 		std::string ReadWhiteSpace(std::istream& stream, WhiteSpaceType type);
 
+		std::string ReadNonFWS(std::istream& stream);
+
 		std::list<std::string> ValueList(const std::string& input);
 
 		typedef enum {
-- 
2.43.0

