#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles, statements, anchors)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Every signature the library creates verifies",
 "For any message that has a From field, and any supported combination of signing options (key type, digest, header and body canonicalization, signed and oversigned header lists that include From, body length limit, timestamp, expiry, identity, ARC instance 1-50, additional signatures), every signature field produced passes both body-hash and signature verification with the matching public key once the fields are put on top of the message. A combination that could never verify (ed25519 with SHA-1, a missing key, a body limit longer than the body) is refused with a permanent error and yields no signature.",
 ["configurations", "inputs"], "every message shape in a bounded family x every combination of signing options within a deviation bound from the default configuration",
 "SignatoryTest signs four one-header messages with one RSA key, simple/simple and two option sets; relaxed modes, ed25519, ARC, oversigning, identity and additional signatures are never exercised together or at all.",
 ["src/Signatory.cpp", "src/SignatoryOptions.cpp", "src/Validatory.cpp", "src/Signature.cpp", "src/Canonicalization.cpp"],
 [("CreateSignature builds h=, bh=, b= and the hash over the same bytes the verifier recomputes", "src/Signatory.cpp"), ("CheckBodyHash / CheckSignature", "src/Validatory.cpp")],
 [("headersToSign/signedHeaders", "which fields are hashed and what h= says", "src/Signatory.cpp")],
 ["Signatory::CreateSignature", "Validatory::GetSignature", "Validatory::CheckSignature"])

prop("C02", "Interoperates with an independent RFC 6376 signer and verifier",
 "Signatures created by the library are accepted by an independent implementation of RFC 6376/8463/8617 signing rules, and a message signed by such an independent implementation, with any legal layout of its signature field (tag order, folding, white space around tags and around the b= value, omitted optional tags, upper or lower case header names), is accepted by the library. The hashed data is the canonicalized selected fields, each followed by CRLF, then the signature field itself with the whole b= value and the white space around it removed and no trailing CRLF.",
 ["inputs", "configurations"], "every signature-field layout in a bounded family of tag orders, foldings and white space placements x canonicalization modes x key types, in both directions",
 "Signer and verifier share their canonicalization and tag code, so the existing sign-then-verify test passes even when both deviate from the RFC in the same way; no foreign signature is ever checked.",
 ["src/Validatory.cpp", "src/Signatory.cpp", "src/TagList.cpp", "src/Canonicalization.cpp"],
 [("removal of the b= value before hashing the signature field", "src/Validatory.cpp CheckSignature"), ("value offsets of tags", "src/TagList.cpp Parse")],
 [], ["Validatory::CheckSignature", "Signatory::CreateSignature"])

prop("C03", "Verification rejects every change to signed content, and only those",
 "Take any signed message and apply any edit to its header fields, its body or its signature field: verification fails whenever the canonical form of the body (up to the signed length), of a selected header field or of the signature field itself has changed, and still passes whenever none of them has. Passing requires the signature value to be exactly what the key owner produced: a truncated, extended or altered signature value, or one made with another key, is rejected.",
 ["inputs"], "every single edit (byte replaced, inserted or deleted at every position; pairs of edits in the thorough tier) of every message in a bounded family of signed messages, per canonicalization mode, key type and length limit",
 "The tests never verify a modified message: no negative verification case exists at all.",
 ["src/Validatory.cpp", "src/Canonicalization.cpp", "src/Signature.cpp"],
 [("body hash comparison", "src/Validatory.cpp CheckBodyHash"), ("header hash and RSA_verify / crypto_sign_verify_detached", "src/Validatory.cpp CheckSignature")],
 [], ["Validatory::GetSignature", "Validatory::CheckSignature"])

prop("C04", "Header fields are selected bottom-up and oversigning seals them",
 "Each name in the h= list of a signature takes, case-insensitively, the bottommost not yet used instance of that field in the message, and a name with no unused instance left contributes nothing. The signature field itself is never selected by its own h=. Therefore fields that are not listed may be added, removed or moved freely, extra instances of a listed field added above the signed ones do not matter, but removing, editing or reordering signed instances, or adding an instance of a field that was listed once more than it occurred (oversigned), makes verification fail.",
 ["histories", "configurations"], "every sequence of header operations (add on top, add at bottom, remove, move, rename case, edit) up to a depth on a signed message with repeated fields, for every h= list up to a length over those names",
 "Tests use a single From field, so instance order, repeated names, absent names and oversigning are never observed.",
 ["src/Validatory.cpp", "src/Signatory.cpp"],
 [("per-name instance stack consumed from the back", "src/Validatory.cpp CheckSignature"), ("reverse iteration over the header list", "src/Signatory.cpp CreateSignature")],
 [("headerCache", "remaining instances per lower-cased name", "src/Validatory.cpp")], ["Validatory::CheckSignature"])

prop("C05", "Body canonicalization computes the simple and relaxed forms exactly",
 "For every body, of any length and however it is divided into reads, the canonical form is the RFC 6376 one: simple keeps every line and drops only the empty lines at the end; relaxed also reduces each run of spaces and tabs to one space and removes it at line ends; the result ends with exactly one CRLF, except that an empty body gives CRLF in simple and nothing in relaxed mode. Line ends may be LF or CRLF on input (CR characters carry no meaning of their own) and are CRLF on output.",
 ["inputs"], "every body over {letters, SP, TAB, CR, LF} up to a length, and every such short pattern straddling each internal read-buffer boundary, in both modes",
 "Four fixed strings shorter than one read buffer; the carry-over of pending white space and blank lines across buffers is never reached.",
 ["src/Canonicalization.cpp"], [("streaming canonicalizer with pending white space and blank line counters", "src/Canonicalization.cpp CanonicalizationBody")],
 [("pendingwsp, lines", "white space / blank lines seen but not yet emitted, carried across buffers", "src/Canonicalization.cpp")], ["DKIM::Conversion::CanonicalizationBody"])

prop("C06", "Header canonicalization computes the simple and relaxed forms exactly",
 "For every header field a message can contain (a non-empty name, a colon, a value that may be folded), simple canonicalization returns it unchanged; relaxed canonicalization lower-cases the name only, unfolds the value, reduces each run of white space to one space, and removes white space at the end of the value and on both sides of the first colon. Applying it twice gives the same result as applying it once, and two fields that differ only in such white space, folding or name case canonicalize identically while fields that differ in anything else do not. A CR that is not part of a line end is refused with a permanent error in relaxed mode.",
 ["inputs"], "every header field over {letters, colon, SP, TAB, folding, other bytes} up to a length",
 "Six fixed strings; empty values, white-space-only continuation lines, several colons, non-ASCII bytes and long runs are not covered.",
 ["src/Canonicalization.cpp", "src/Tokenizer.cpp"], [("FilterHeader", "src/Canonicalization.cpp"), ("folding white space reader with put-back", "src/Tokenizer.cpp ReadWhiteSpace")],
 [], ["DKIM::Conversion::CanonicalizationHeader::FilterHeader"])

prop("C07", "A body length limit covers exactly the first n canonical octets",
 "Signing with a body length limit n hashes exactly the first n octets of the canonical body and records l=n; if the canonical body is shorter than n, signing is refused with a permanent error. When verifying a signature with l=n, octets of the canonical body beyond n never influence the verdict and every octet before n does; without l= the whole canonical body counts.",
 ["inputs", "configurations"], "every body in a bounded family x every limit from 0 to beyond the canonical length x both modes, including limits at and around read-buffer boundaries",
 "Tests sign only with limit 0.",
 ["src/Canonicalization.cpp", "src/Signatory.cpp", "src/Validatory.cpp", "src/Signature.cpp"], [("bodyLimit/bodySize accounting", "src/Canonicalization.cpp CanonicalizationBody"), ("refusal when the limit is not reached", "src/Signatory.cpp")],
 [("bodySize", "octets still to be hashed", "src/Canonicalization.cpp")], ["DKIM::Conversion::CanonicalizationBody", "Signatory::CreateSignature", "Validatory::CheckBodyHash"])

prop("C08", "Messages are split into header fields and body exactly",
 "For every message, the parser yields the header fields in order, each with its exact text (continuation lines joined by CRLF, no terminator at the end) and its name (text before the first colon, without surrounding spaces and tabs), and the offset of the first octet after the first empty line, or 'no body' when there is no empty line. LF and CRLF line ends are equivalent, and no octet of the header section is lost, duplicated or moved between fields.",
 ["inputs"], "every message over {letter, colon, SP, TAB, CR, LF} up to a length, from streams positioned at the start or elsewhere, parsed by fresh and by reset parsers",
 "Five fixed messages; degenerate shapes (leading continuation, bare CR, end of input inside each construct) are mostly untested.",
 ["src/MailParser.cpp"], [("line-by-line parser", "src/MailParser.cpp Message::ParseLine"), ("Header::ParseLine", "src/MailParser.cpp")],
 [("m_tmpHeader", "field being assembled", "src/MailParser.cpp"), ("m_bodyOffset", "where the body starts, -1 if none", "src/MailParser.cpp")], ["DKIM::Message"])

prop("C09", "Tag=value lists are parsed exactly or refused as a whole",
 "A tag list is accepted exactly when it is a sequence of name=value pairs separated by semicolons (one optional trailing semicolon, white space or folding allowed around names and values, printable ASCII values) with no duplicate name; anything else raises a permanent error. For an accepted list every tag is returned with its value stripped of surrounding white space and inner white space preserved, empty values are distinguished from absent tags, names are case-sensitive, and the reported value offset points at the value in the input.",
 ["inputs"], "every input over a small alphabet (two letters, digit, '=', ';', SP, TAB, CRLF, underscore, non-ASCII byte) up to a length",
 "Ten fixed strings, checked mostly for throw/no-throw.",
 ["src/TagList.cpp", "src/Tokenizer.cpp"], [("TagList::Parse", "src/TagList.cpp")], [("m_tags", "tags seen so far", "src/TagList.hpp")], ["DKIM::TagList"])

prop("C10", "Signature fields are accepted exactly when valid, with faithful values",
 "A signature field is accepted only if it has v=1 (DKIM) or an instance i= of 1-50 (ARC), a supported a=, non-empty b=, bh=, d=, s=, an h= that lists From, supported c= and q= if present, an l= that is a representable decimal number if present, an i= (DKIM) whose domain - after the last '@' - equals d= or is a subdomain of it if present, and no passed x=; otherwise it is refused with a permanent error. For an accepted field every reported property (algorithms, canonicalization, lower-cased domain, selector, header list in order, identity, length, decoded hash and signature) equals what the field says, with the RFC default for omitted tags.",
 ["inputs", "configurations"], "every signature field that differs from a valid one in at most k tags, each over a domain of valid, boundary and invalid values",
 "No test parses a signature field other than the library's own output.",
 ["src/Signature.cpp", "src/Signature.hpp", "src/TagList.cpp"], [("Signature::Parse", "src/Signature.cpp")], [], ["DKIM::Signature::Parse and getters"])

prop("C11", "Key records restrict what they may verify",
 "A signature passes only with a key record that is well formed (v absent or DKIM1, known key type, present and non-empty p that decodes to a key of that type), whose key type matches the signature algorithm, whose hash list if present contains the signature's hash, whose service list if present contains email or *, and, with flag s, only if the identity domain equals the signing domain (DKIM only). A record that is revoked, malformed, or restricted to other hashes or services never verifies anything; unknown tags, flags, and unknown list members beside known ones are ignored; flag y is reported as testing mode and changes no verdict.",
 ["inputs", "configurations"], "every key record that differs from a valid one in at most k tags, each over a domain of valid, boundary and invalid values, x signature algorithms, identities and ARC/DKIM",
 "One fixed record (v=DKIM1; p=...; t=s) is used once.",
 ["src/PublicKey.cpp", "src/PublicKey.hpp", "src/Validatory.cpp"], [("PublicKey::Parse", "src/PublicKey.cpp"), ("compatibility checks at the head of CheckSignature", "src/Validatory.cpp")], [], ["DKIM::PublicKey", "Validatory::CheckSignature"])

prop("C12", "DNS answers map to key, no key, or temporary failure, and never misparse",
 "Looking up a key queries exactly '<selector>._domainkey.<domain>' for TXT records; the key text is the concatenation of all character strings of the TXT records in the answer section in order, skipping other records. 'No such name', 'no data' and unrecoverable answers are reported as 'no key' (permanent error), while a timeout, server failure or oversized answer is a temporary error; no answer packet, however malformed or truncated, makes the lookup crash or read outside the packet.",
 ["fault_sequences", "inputs"], "every resolver outcome code, every well-formed answer with up to n records of several types, name compressions and string splits, and every truncation and single-byte corruption of those",
 "No test covers the resolver or the key lookup.",
 ["src/Resolver.cpp", "src/Validatory.cpp"], [("Resolver::GetTXT packet walk", "src/Resolver.cpp"), ("Validatory::GetPublicKey", "src/Validatory.cpp")], [], ["DKIM::Util::Resolver::GetTXT", "Validatory::GetPublicKey"])

prop("C13", "Untrusted input only ever yields a result or a documented error",
 "Whatever bytes a message, signature field, key record, or address/encoded-word/quoted-printable text contains, every parsing and verification entry point terminates and either returns normally or raises the library's permanent or temporary error: it never crashes, reads or writes outside its buffers, invokes undefined behaviour, throws any other exception, or hangs.",
 ["inputs"], "every string up to a length over the syntactically significant alphabet of each entry point, every token sequence up to a length for the structured ones, and whole messages with signatures and keys of every short length, all executed with address and undefined-behaviour sanitizers",
 "The tests feed well-formed inputs and run without sanitizers; only a handful of malformed strings are tried.",
 ["src/Tokenizer.cpp", "src/TagList.cpp", "src/Signature.cpp", "src/PublicKey.cpp", "src/Validatory.cpp", "src/EncodedWord.cpp", "src/QuotedPrintable.cpp", "src/Base64.cpp", "src/MailParser.cpp"],
 [("length checks before fixed-size crypto inputs", "src/Validatory.cpp CheckSignature"), ("peek/EOF handling in the tokenizers", "src/Tokenizer.cpp")], [], ["all public parsing entry points"])

prop("C14", "Results do not depend on what was processed before",
 "Signing twice with the same signer object, verifying any signatures in any order and any number of times with the same verifier object, and reusing a parser, signature or key object after resetting it, give exactly the results that fresh objects give. An earlier failure - a rejected signature, an out-of-range number, an unreadable key, an earlier error code in the thread - never changes a later result.",
 ["histories"], "every sequence of operations up to a depth over a small set of messages, signature fields, key records and options, compared with fresh objects",
 "Every test creates fresh objects and performs one operation (or repeats the same successful one).",
 ["src/Signatory.cpp", "src/Validatory.cpp", "src/Signature.cpp", "src/PublicKey.cpp", "src/TagList.cpp", "src/MailParser.cpp"],
 [("Reset() of each object", "src/Signature.cpp, src/PublicKey.cpp, src/MailParser.cpp"), ("seek back to the body offset", "src/Canonicalization.cpp"), ("errno handling around number parsing", "src/Signature.cpp")],
 [("m_msg parse state", "header list and body offset kept between calls", "src/Signatory.hpp")], ["Signatory::CreateSignature", "Validatory", "Signature::Reset/Parse", "PublicKey::Reset/Parse"])

prop("C15", "Independent objects can be used from several threads at once",
 "When several threads sign, verify, parse and decode at the same time, each with its own objects and streams, every thread obtains exactly the result it would obtain alone, whatever the interleaving. The library keeps no hidden shared mutable state and has no data race.",
 ["schedules"], "every schedule of two threads with at most k preemptions, preemption points being the basic blocks of the library code, for every pair of operations",
 "No test uses threads.",
 ["src/Signatory.cpp", "src/Validatory.cpp", "src/Canonicalization.cpp", "src/QuotedPrintable.cpp", "src/Util.cpp", "src/Resolver.cpp"],
 [("all state is per object or immutable", "src/"), ("re-entrant resolver state per Resolver object", "src/Resolver.cpp")], [], ["Signatory", "Validatory", "decoders"])

prop("C16", "How the stream delivers bytes never changes a result; read errors do not pass",
 "Signing and verifying give the same result however the input stream splits its data into reads, and wherever in the stream buffer boundaries fall. If reading the message fails part-way, no signature is produced and no signature is reported as verified from the part that was read: a temporary error is raised instead.",
 ["fault_sequences", "inputs"], "every split of short messages into reads, every fixed read size, and a read failure injected at every read, for signing and verifying",
 "Tests read only from in-memory string streams that never fail.",
 ["src/Canonicalization.cpp", "src/MailParser.cpp", "src/Signatory.cpp", "src/Validatory.cpp"], [("read loop", "src/Canonicalization.cpp CanonicalizationBody"), ("getline loop", "src/MailParser.cpp")], [], ["Signatory::CreateSignature", "Validatory::GetSignature"])

prop("C17", "Base64 and quoted-printable are exact and mutually inverse",
 "Base64 encoding gives the RFC 4648 text on one line for every octet string of any length, and decoding it returns the original octets. DKIM quoted-printable encoding emits only octets that are safe in a tag value and decoding returns the original; decoding accepts exactly safe characters, upper-case =XX escapes and ignorable folding white space (in encoded-word mode also the semicolon, and underscore as space) and refuses everything else with a permanent error.",
 ["inputs"], "every octet string up to a length, every length up to several internal buffer sizes, every decoder input up to a length over the significant alphabet",
 "Five Base64 strings and eighteen quoted-printable strings; encoder and buffer-size boundaries untested.",
 ["src/Base64.cpp", "src/QuotedPrintable.cpp"], [("BIO based codec", "src/Base64.cpp"), ("qp table", "src/QuotedPrintable.cpp")], [], ["Base64_Encode", "Base64_Decode", "QuotedPrintable::Encode", "QuotedPrintable::Decode"])

prop("C18", "Encoded words are decoded and all other text is preserved",
 "Decoding a header text replaces every well-formed encoded word (=?charset?Q or B?text?=, delimited by white space or the ends) by its decoded octets and drops only the white space at the start and end of the text and between adjacent encoded words and the folding line breaks; all other text, including white space between plain text and encoded words and anything that merely resembles an encoded word, comes out unchanged.",
 ["inputs"], "every sequence up to a length of plain words, encoded words (both encodings, valid and malformed) and white space separators",
 "Eighteen fixed strings.",
 ["src/EncodedWord.cpp"], [("EncodedWord::Decode", "src/EncodedWord.cpp")], [("ws", "white space seen but not yet emitted", "src/EncodedWord.cpp")], ["DKIM::Conversion::EncodedWord::Decode"])

prop("C19", "Address lists yield exactly the addresses they contain, in order",
 "For every comma- or semicolon-separated list of mailboxes - bare addresses or display names (words, quoted strings with escapes, commas in unquoted names) with an address in angle brackets, with nested and escaped comments and folding white space anywhere between tokens - the result is exactly the list of addresses in order, comments and display names removed and quoted local parts unquoted; an item that is nothing but a quoted string stands for the addresses of the list it quotes. Unterminated quotes, comments, brackets, or NUL octets raise a permanent error.",
 ["inputs"], "every list up to a number of mailboxes from a grammar of display names, comments, quoting and white space up to a size",
 "About a dozen fixed lists.",
 ["src/Tokenizer.cpp"], [("NextAddressListToken / ParseAddressList", "src/Tokenizer.cpp")], [("tokens, inOpentag, lasttype", "state of the list automaton", "src/Tokenizer.cpp")], ["DKIM::Tokenizer::ParseAddressList"])

prop("C20", "Colon lists and white space are tokenized exactly",
 "A colon-separated list is split into its non-empty values in order, white space and folding around each value removed and inside a value preserved, one trailing colon tolerated, an empty value refused with a permanent error. Reading white space consumes and returns exactly one unit of the requested kind, or consumes nothing and returns nothing; a CR that is not part of CRLF is refused.",
 ["inputs"], "every input up to a length over {two letters, colon, SP, TAB, CR, LF}; every white space kind at every position",
 "A few fixed strings.",
 ["src/Tokenizer.cpp"], [("ValueList", "src/Tokenizer.cpp"), ("ReadWhiteSpace with unwind", "src/Tokenizer.cpp")], [], ["DKIM::Tokenizer::ValueList", "DKIM::Tokenizer::ReadWhiteSpace"])

prop("C21", "Emitted signature fields are well formed and say what was configured",
 "Every emitted field is a single valid header field: a legal tag list folded so that each continuation line starts with white space, with the header list and the signature data broken into lines of at most 82 characters unless a single header name is longer, and no CR or LF outside folding. Its tags state exactly the configured algorithm of that very signature, canonicalization, domain, selector, identity, length, timestamp and expiry, and the signed fields in hashing order; no option value and no field name of the message can add, alter or end a tag or line, because domains and selectors that are not dot-separated labels of letters, digits and inner hyphens are refused.",
 ["configurations", "inputs"], "every combination of options within a deviation bound, message header names over a hostile alphabet, every domain/selector string up to a length over {letter, digit, '-', '.', ';', SP, CR, LF, '_', NUL, non-ASCII}",
 "Tests only check that the emitted field verifies with default options.",
 ["src/Signatory.cpp", "src/SignatoryOptions.cpp", "src/Util.cpp"], [("field assembly and folding", "src/Signatory.cpp"), ("ValidateDomain", "src/Util.cpp")], [], ["Signatory::CreateSignature", "SignatoryOptions::SetDomain/SetSelector"])

prop("C22", "Signing options are a faithful record of the calls made; keys are owned once",
 "After any sequence of option calls, each getter and the created signature reflect the last value set for each option, header lists reflect the set, add and delete calls in order with names matched case-insensitively, and each additional signature has its own domain, selector, algorithm and key, unaffected by calls on others. Every private key the library loaded, or was given ownership of, is released exactly once by the time the options object is gone; a key lent to it is never released; a failed call leaves the previous settings usable. Assigning an options or key object to another, or copying an additional signature, yields an independent object with the same settings, and a key they share is still released exactly once, with the last of them.",
 ["histories"], "every sequence of option calls up to a depth over a small value domain, on the main and on additional signatures, checked against a reference record with key releases counted",
 "Tests make three setter calls in one fixed order.",
 ["src/SignatoryOptions.cpp", "src/SignatoryOptions.hpp", "src/PublicKey.cpp", "src/PublicKey.hpp"], [("setters", "src/SignatoryOptions.cpp"), ("destructor frees owned key", "src/SignatoryOptions.cpp AdditionalSignaturesOptions")],
 [("m_privateKeyRSA, m_privateKeyRSAFree", "key and whether it is owned", "src/SignatoryOptions.hpp"), ("m_headers", "names to sign", "src/SignatoryOptions.hpp")], ["SignatoryOptions", "AdditionalSignaturesOptions"])

prop("C23", "Failures are classified consistently for authentication results",
 "A body hash or signature mismatch is reported as result 'fail'; a malformed, unsupported, expired or policy-incompatible signature or key and a missing or revoked key as 'permerror'; a failing lookup or unreadable message as 'temperror'. Verification never reports success together with an error, and the same cause always gives the same class regardless of algorithm, canonicalization, or the presence of other signatures.",
 ["inputs", "fault_sequences"], "every combination of one or two injected causes (message edits, field defects, key defects, lookup outcomes) over algorithms and modes",
 "No test provokes a verification failure.",
 ["src/Exception.hpp", "src/Validatory.cpp", "src/Signature.cpp", "src/PublicKey.cpp"], [("exception types carrying the result class", "src/Exception.hpp")], [], ["PermanentError/TemporaryError::getAuthenticationResult"])

prop("C24", "Timestamps and expiry follow the clock exactly",
 "A signature with x= verifies at every time up to and including x and is refused as expired at every later time; without x= it never expires. When signing, an absolute expiry is emitted as given, a relative one is counted from the emitted timestamp (or the current time if none is emitted), and a timestamp of 'now' is the clock's value.",
 ["configurations", "inputs"], "every combination of timestamp/expiry options and every clock value around the boundaries, with the clock under the harness's control",
 "Tests never set a timestamp or expiry.",
 ["src/Signatory.cpp", "src/Signature.cpp", "src/SignatoryOptions.cpp"], [("t= and x= emission", "src/Signatory.cpp"), ("expiry check", "src/Signature.cpp Parse")], [], ["Signatory::CreateSignature", "Signature::Parse"])

prop("C25", "dkimtool reports exactly what the library decides",
 "dkimtool -v prints one line per signature of the chosen kind, in message order, with file, domain and selector; the line ends in OK exactly when that signature verifies and otherwise shows the failure class, marking a signature that does not verify with a test-mode key as soft. When signing it prints a field that verifies for that message and exits 0; every documented option is accepted in its short and long form, and bad usage or an unreadable key exits non-zero with a message and no output, never a crash.",
 ["configurations", "inputs"], "every combination of options (short and long), message states and key-record states in a bounded family, run against the real executable with the resolver replaced",
 "No test runs the tool.",
 ["tools/src/main.cpp"], [("main", "tools/src/main.cpp")], [], ["dkimtool standard output and exit status"])

prop("C26", "Signature discovery finds exactly the signatures of the requested kind",
 "In DKIM mode the verifier lists exactly the DKIM-Signature fields of the message, in ARC mode exactly the ARC-Message-Signature fields, in the order they appear and whatever the case of the field name, and none in the third mode. Each listed signature is judged on its own: its verdict depends only on itself, the fields it covers, the body and its key, not on the presence, order or validity of other signatures it does not sign.",
 ["inputs", "histories"], "every header section of up to n fields drawn from both signature kinds (valid, broken, foreign), look-alike names and other fields, in every order, in all three modes",
 "Tests look at messages with exactly one DKIM-Signature.",
 ["src/Validatory.cpp"], [("collection loop in the constructor", "src/Validatory.cpp")], [("m_dkimHeaders", "signatures found", "src/Validatory.hpp")], ["Validatory::GetSignatures"])

prop("C27", "A failing crypto primitive never yields a signature or a pass",
 "If any hashing, signing, verification or key-decoding primitive of the crypto library reports failure while a key is loaded, a message is signed or a signature is verified, that operation ends in one of the library's errors: no signature is emitted and no signature is reported as verified, and no uninitialized data is used. When no primitive fails the results are unaffected.",
 ["fault_sequences"], "every single failure (and every pair) of the crypto calls made during sign and verify operations of each algorithm",
 "Tests never see a crypto failure.",
 ["src/Signatory.cpp", "src/Validatory.cpp", "src/Canonicalization.hpp"], [("return codes of RSA_sign, RSA_verify, crypto_sign_*", "src/Signatory.cpp, src/Validatory.cpp"), ("digest calls", "src/Canonicalization.hpp EVPDigest")], [], ["Signatory::CreateSignature", "Validatory::CheckBodyHash", "Validatory::CheckSignature"])

prop("C28", "Results do not depend on the ambient state of the process",
 "Parsing, canonicalization, signing and verification are functions of the message, options, keys, lookups and clock they are given. The process or thread locale, the C++ global locale, the time zone, a leftover errno or OpenSSL error, the floating point rounding mode, the formatting state, locale or tie of the caller's stream, and whatever heap and stack memory held before change no result, and no result depends on memory that was not initialized.",
 ["configurations", "inputs"], "every operation of a family covering all entry points, with every octet in every place where octets are classified, under each ambient state (locales of different character sets, stream states, error states, memory fillings) and pairs of them, against the same operation in a fresh process in the C locale",
 "Tests run in one environment: the C locale, an empty error state and zeroed memory.",
 ["src/Signature.cpp", "src/Validatory.cpp", "src/Signatory.cpp", "src/Canonicalization.cpp", "src/SignatoryOptions.cpp", "src/Util.cpp"],
 [("case conversion of header names and domains", "src/Signature.cpp, src/Validatory.cpp, src/Signatory.cpp, src/Canonicalization.cpp"), ("member initialization", "src/Signature.hpp, src/PublicKey.hpp, src/SignatoryOptions.hpp")], [], ["every public entry point"])

prop("C29", "Every operation releases what it acquired, and running out of memory is survived",
 "Whatever the outcome - success, refusal, a failing stream, resolver or crypto primitive - loading keys, signing, verifying, parsing, decoding and looking up release all memory, crypto objects and file descriptors they acquired by the time the objects involved are gone. If an allocation fails at any point, the operation ends in an exception or in its ordinary result: never in a crash, a different result, a leak, or a signature or pass it would not otherwise give; and the same operation repeated afterwards gives its ordinary result.",
 ["inputs", "fault_sequences"], "every operation of a family covering all entry points and their failures, alone and with every single allocation (and all from one on) failing, every crypto call failing, and read errors in every pass",
 "Tests count no resources and never run out of memory.",
 ["src/PublicKey.cpp", "src/SignatoryOptions.cpp", "src/Signatory.cpp", "src/Validatory.cpp", "src/Base64.cpp", "src/Util.cpp", "src/EncodedWord.cpp", "src/Resolver.cpp"],
 [("owners of OpenSSL objects (BIO, RSA, EVP_PKEY, EVP_MD_CTX)", "src/PublicKey.cpp, src/SignatoryOptions.cpp, src/Signatory.cpp, src/Validatory.cpp, src/Base64.cpp"), ("resolver state", "src/Resolver.cpp"), ("formatted text", "src/Util.cpp StringFormat")], [], ["every public entry point"])

prop("C30", "The work an operation does grows in proportion to its input",
 "The work done by every public operation on untrusted input - splitting and verifying a message (with one signature), signing, evaluating a key record or a name server's answer, reading address lists, tag lists, value lists and encoded text, decoding and canonicalizing - grows no faster than about in proportion to the length of that input, whatever is repeated in it and wherever: characters, white space, folds, lines, fields, names, tags, words, records. The same holds for signing with long lists of names or many further signatures on a message that does not grow with them. No input makes the work grow with the square of its length. (Verifying many signatures, each of which covers many fields, costs their product by nature and is not meant.)",
 ["inputs"], "every operation on a well-formed input with a unit of one to three symbols repeated at every offset, two units at pairs of places, option lists, resolver answers; work counted in executed basic blocks and octets moved, compared at three lengths",
 "Tests measure no cost and use short inputs.",
 ["src/Tokenizer.cpp", "src/MailParser.cpp", "src/TagList.cpp", "src/Canonicalization.cpp", "src/Validatory.cpp", "src/Signatory.cpp", "src/EncodedWord.cpp", "src/QuotedPrintable.cpp", "src/Resolver.cpp"],
 [("white space readers and their callers", "src/Tokenizer.cpp ReadWhiteSpace, ReadNonFWS, ValueList, NextAddressListToken"), ("assembling a field line by line", "src/MailParser.cpp Header::ParseLine"), ("look-up of signed fields by name", "src/Validatory.cpp CheckSignature, src/Signatory.cpp CreateSignature"), ("pending empty lines", "src/Canonicalization.cpp CanonicalizationBody")], [], ["every public entry point that takes input"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
