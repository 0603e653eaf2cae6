#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Dumping is total: no input makes it panic, hang or allocate out of proportion",
 "For every byte sequence, every text and every combination of options, dumping ends with either a packet listing or an error; it never panics, never overflows the stack and never loops. The memory it takes is driven by the octets actually present (and what they decompress to), never by a length, count or size that the input merely claims.",
 ["inputs", "configurations"], "all byte sequences (well formed, truncated, mutated, spliced, deeply nested, with lying lengths), armored or not, times all option sets, through the library and through the command line",
 "The tests feed a few dozen fixed, mostly well-formed packets; malformed inputs are an unbounded set and only a handful of truncations are sampled.",
 ["parse/parser.go", "parse/parse.go", "parse/tags", "parse/pubkey", "parse/s2k", "parse/values", "parse/reader/reader.go", "armtext/armtext.go", "facade/facade.go"],
 [("bounds-checked cursor", "parse/reader/reader.go ReadBytes/Read2EOF/Seek"), ("error returns on every field read", "parse/tags/*.go Parse"), ("decompression cap", "parse/tags/Tag08.go copyFrom")],
 ["parse.New(...).Parse()", "facade.Execute exit code and streams"])

prop("C02", "Packet framing: exactly the packets in the stream, for every header encoding",
 "For every sequence of packets, the listing has exactly one entry per packet, in stream order, carrying the packet's tag number and its exact body length, however each packet's header is encoded (old format with one-, two- or four-octet or indeterminate length; new format with one-, two- or five-octet length or any chain of partial lengths). Re-encoding the headers of a stream without changing the bodies leaves the whole listing unchanged. In debug mode each entry's dump is exactly the packet's body, octet for octet.",
 ["inputs"], "all packet sequences (all 64 tags, bodies from 0 octets to several 100 kB) times all header encodings of each packet, binary streams larger than any internal buffer included",
 "The tests use whatever encodings GnuPG happened to emit for about twenty files, none above a few kB; boundary lengths, partial-length chains and mixed encodings are never combined.",
 ["parse/parser.go", "parse/parse.go", "parse/tags/packets.go", "parse/tags/tags.go", "parse/values/tagid.go"],
 [("opaque packet reader loop", "parse/tags/packets.go Next / parse/parse.go Parse"), ("armor probe falling back to binary", "parse/parser.go New"), ("tag dispatch", "parse/tags/tags.go NewTag")],
 ["top-level items of the listing"])

prop("C03", "A truncated stream is reported as an error, never as a shorter message",
 "For every stream and every cut point, a stream cut inside a packet (header, length or body) ends in an error, and the packets that were complete before the cut are the same as in the dump of the whole stream; a stream cut exactly between two packets dumps as the corresponding prefix of the whole listing. The same holds when garbage that is not a packet header follows complete packets.",
 ["inputs", "fault_sequences"], "all streams and every cut position, binary and armored, including cuts inside partial-length chains and inside compressed content",
 "One truncated file (dump-fail.asc) is tested; every other cut position is unexplored.",
 ["parse/parse.go", "parse/tags/packets.go", "parse/parser.go"],
 [("EOF only between packets ends the loop cleanly", "parse/parse.go Parse, parse/tags/packets.go Parse")],
 ["error result and partial listing of Parser.Parse"])

prop("C04", "A packet body too short for its fields is an error, never a partial reading",
 "For every packet type and version that the tool decodes field by field, a body (or subpacket, nested packet, multi-precision integer, string-to-key specifier or counted block) that ends before a field that must be there makes the dump fail with an error; the tool never lists the packet with fields missing, shortened or made up (the one exception is a missing count octet of an ECDH KDF block or encrypted session key, which reads as an empty block). A field is decoded only from the octets of the block it belongs to, so a length that overruns its enclosing block is an error too.",
 ["inputs"], "all well-formed packets of tags 1-8, 11, 17 and 20 and all signature subpackets, each cut after every octet count (with consistent outer lengths) or with an inner length raised beyond its block",
 "The tests contain one or two truncated bodies for a few value types; the per-field cut points of each packet version and algorithm are not enumerated.",
 ["parse/tags", "parse/pubkey", "parse/s2k/s2k.go", "parse/values", "parse/reader/reader.go"],
 [("error on short read of every mandatory field", "parse/tags/tag*.go, sub*.go, pubkey.go, seckey.go"), ("all-or-nothing ReadBytes", "parse/reader/reader.go")],
 ["error result of Parser.Parse"])

prop("C05", "ASCII armor is transparent",
 "For every packet stream, dumping any ASCII-armored form of it gives the same listing as dumping the binary stream, with or without the armor-only option: whatever the block type, armor headers ('Key: value'), line length (up to the 76 characters the standard allows), line endings or presence of a checksum line, and whatever unrelated text (of any length per line, including HTML pages and a cleartext-signed message) surrounds the block. When a text holds several armored blocks, the first one that is not a cleartext-signed header is the one that is dumped.",
 ["inputs", "configurations"], "all streams times all armorings (block types, headers, line widths up to the decoder's limit, CRLF/LF, checksum present or absent, surrounding text incl. very long lines)",
 "The tests extract from one HTML page and one cleartext-signed message.",
 ["armtext/armtext.go", "parse/parser.go"],
 [("line scan for the first armor block", "armtext/armtext.go Get"), ("armor decode", "parse/parser.go newReaderArmor")],
 ["armtext.Get", "listing of Parser.Parse with and without ARMOR"])

prop("C06", "Damaged or missing armor is refused, never dumped as something else",
 "For every armored text with a checksum, altering the encoded data or the checksum's value, or losing the terminating line, never yields a listing that differs from the original's: the dump either fails or equals the original. With the armor-only option (and for key-server, GitHub and clipboard input) an input without a complete armored block is always an error, even if it is a valid binary stream; without it, an input with no usable armor block is dumped as binary.",
 ["inputs", "fault_sequences", "configurations"], "all armored texts times single and multiple corruptions of data characters, checksum, boundary lines and blank line; all binary inputs under the armor-only option",
 "One missing-block case is tested for the extractor; corruption of data or checksum and the fallback rule are not.",
 ["armtext/armtext.go", "parse/parser.go", "facade/hkp.go", "facade/github.go"],
 [("ErrArmorText when no complete block", "armtext/armtext.go Get"), ("no fallback under ARMOR", "parse/parser.go New")],
 ["error result of parse.New / Parser.Parse"])

prop("C07", "Public-key packets are reported exactly (tags 6 and 14)",
 "For every public-key or public-subkey packet of version 3, 4 or 5 and every algorithm number, the listing shows the version, creation time, validity days (version 3), algorithm and, for RSA, DSA, Elgamal, ECDH, ECDSA and EdDSA, each key parameter in order with its exact bit length (and octets when integers are dumped), the curve by name for every known OID and as unknown otherwise, the point format and the KDF parameters. Key material of other algorithms is reported with its exact size (and, being undecoded, as unknown data too), packets of other versions as unknown data, and any octets after the key material as unknown data with their exact count.",
 ["inputs"], "all versions, algorithms 0-255, MPI bit lengths 0-65535, OIDs known/unknown/empty, KDF parameter blocks, trailing octets",
 "Fixed keys of a few algorithms are compared with golden text; lengths, leading bits, unknown curves and algorithms and trailing data are not explored.",
 ["parse/tags/tag06.go", "parse/tags/tag14.go", "parse/tags/pubkey.go", "parse/pubkey/parse_pub.go", "parse/values/mpi.go", "parse/values/ecc.go", "parse/values/pubid.go", "parse/values/version.go"],
 [("field-by-field decoding", "parse/tags/pubkey.go"), ("per-algorithm material", "parse/pubkey/parse_pub.go")],
 ["listing items of tags 6/14"])

prop("C08", "Secret-key packets are reported exactly (tags 5 and 7)",
 "For every secret-key or secret-subkey packet the listing shows the public part exactly as the corresponding public-key packet would, then the string-to-key usage and, as that usage requires, the cipher, AEAD mode, string-to-key specifier (hash, salt, iteration count, GNU card extensions with serial number), IV and either the plain secret integers with the checksum or the encrypted material with its exact size. A usage octet other than 0, 253, 254 and 255 is itself the cipher number; for version 5 every optional field is taken from, and only from, its counted block, and left-over octets are reported as unknown data.",
 ["inputs"], "all versions, algorithms, usage octets 0-255, S2K types 0-255, ciphers 0-255, counts, salts, IVs, GNU extensions and counted-block sizes",
 "A few GnuPG secret keys are compared with golden text; most usage/S2K/algorithm/version combinations are never exercised.",
 ["parse/tags/tag05.go", "parse/tags/tag07.go", "parse/tags/seckey.go", "parse/pubkey/parse_secplain.go", "parse/pubkey/parse_secenc.go", "parse/s2k/s2k.go", "parse/values/s2kid.go", "parse/values/symid.go"],
 [("usage dispatch", "parse/tags/seckey.go Parse"), ("S2K decoding", "parse/s2k/s2k.go Parse")],
 ["listing items of tags 5/7"])

prop("C09", "Signature and one-pass signature packets are reported exactly (tags 2 and 4)",
 "For every signature packet of version 3, 4 or 5 the listing shows, in order, version, type, public-key and hash algorithms, (v3) hashed material with creation time and the signer's key ID, (v4/v5) the hashed and the unhashed subpacket areas, each with its exact size and under its own heading, the left 16 bits of the hash, and each signature integer with its exact bit length. A one-pass signature shows version, type, hash, algorithm, key ID and whether another one-pass signature follows; other signature versions and trailing octets are reported as unknown data with their exact size.",
 ["inputs"], "all versions, signature types, algorithms, area sizes 0-65535, subpacket lists, MPI sizes, trailing octets",
 "About ten fixed signatures are compared with golden text.",
 ["parse/tags/tag02.go", "parse/tags/tag04.go", "parse/tags/subParser.go", "parse/pubkey/parse_sig.go", "parse/values/sigid.go", "parse/values/keyid.go"],
 [("version dispatch and area split", "parse/tags/tag02.go"), ("per-algorithm signature integers", "parse/pubkey/parse_sig.go")],
 ["listing items of tags 2/4"])

prop("C10", "Every signature subpacket is reported, in order, with its meaning and content",
 "For every list of signature subpackets (any type 0-127, with or without the critical bit, any of the three length encodings, any order and multiplicity) each subpacket appears once, in order, in the area it came from, with its type name and number and, when critical, the critical mark. Its content is decoded to the value it encodes: times, expiry periods, flags (each set bit listed once, unset bits not at all, octets numbered from 1), preference lists in order, key IDs, fingerprints, notations, texts, revocation reasons, embedded signatures and key blocks with everything inside them; types the tool does not decode are listed with their size.",
 ["inputs"], "all subpacket types, contents, lengths (1, 2 and 5 octet encodings), orders, nesting of embedded signatures and key blocks",
 "Golden files cover the subpackets GnuPG emits by default, with one content each.",
 ["parse/tags/subs.go", "parse/tags/subParser.go", "parse/tags/sub02.go", "parse/tags/sub03.go", "parse/tags/sub04.go", "parse/tags/sub05.go", "parse/tags/sub07.go", "parse/tags/sub09.go", "parse/tags/sub12.go", "parse/tags/sub16.go", "parse/tags/sub20.go", "parse/tags/sub23.go", "parse/tags/sub27.go", "parse/tags/sub29.go", "parse/tags/sub30.go", "parse/tags/sub32.go", "parse/tags/sub33.go", "parse/tags/sub35.go", "parse/tags/sub37.go", "parse/tags/sub38.go", "parse/values/subpacketid.go"],
 [("subpacket dispatch", "parse/tags/subs.go NewSubs"), ("per-type decoding", "parse/tags/sub*.go")],
 ["items below Hashed/Unhashed Subpacket"])

prop("C11", "Encrypted messages: session keys and encrypted data are reported consistently",
 "For every sequence of packets, public-key and symmetric-key encrypted session key packets are reported with version, key ID, algorithms, string-to-key specifier and the exact size of every encrypted value, AEAD encrypted data with version, cipher, mode, chunk size and an initial vector of the mode's length (16 octets for EAX, 15 for OCB), and modification detection codes and encrypted data with their exact sizes. A symmetrically encrypted data packet (with or without integrity protection) is attributed to the kind of session key packet that most recently preceded it since the previous such data packet, and to none if there was none.",
 ["inputs", "histories"], "all sequences of tags 1, 3, 9, 18, 19, 20 mixed with others, all versions, algorithms, S2K specifiers, chunk-size octets",
 "Golden files contain single-recipient messages; the attribution depends on the history of packets, which is unbounded.",
 ["parse/tags/tag01.go", "parse/tags/tag03.go", "parse/tags/tag09.go", "parse/tags/tag18.go", "parse/tags/tag19.go", "parse/tags/tag20.go", "parse/pubkey/parse_ses.go", "parse/s2k/s2k.go", "parse/context/symalgmode.go", "parse/values/aeadid.go"],
 [("algorithm-mode state machine", "parse/context/symalgmode.go"), ("session key decoding", "parse/tags/tag01.go, tag03.go")],
 ["listing items of tags 1,3,9,18,19,20"])

prop("C12", "Literal, user ID, attribute and opaque packets: exact, and safe to print",
 "For every literal data packet the listing shows format, file name, time (null when zero) and exact data size, for every user ID and other text field the text itself, for user attributes each subpacket with image version, encoding and exact image size, and for marker, trust, private, reserved and unknown packets their exact size. Text taken from a packet is shown unchanged except that every control character appears as its code point in parentheses, so no packet content can inject a line feed, an escape or any other character below 0x20 into the listing (a literal packet's one-octet format is shown as a character, escaped likewise below 0x20); text that is not valid UTF-8 is never printed as text but as its hexadecimal octets.",
 ["inputs"], "all bodies of tags 10-13, 17, 0, 15, 16, 21-63 and all texts (UTF-8 with every control character, invalid sequences, empty, long)",
 "Tests use a few printable names and one newline; the set of texts is unbounded.",
 ["parse/tags/tag10.go", "parse/tags/tag11.go", "parse/tags/tag12.go", "parse/tags/tag13.go", "parse/tags/tag17.go", "parse/tags/sub01.go", "parse/tags/tagPrivate.go", "parse/tags/tagUnknown.go", "parse/values/literal.go"],
 [("text escaping", "parse/values/literal.go Text.ToItem"), ("raw data items", "parse/values/literal.go RawData")],
 ["listing items", "text output lines"])

prop("C13", "Compressed data is transparent, checked and bounded",
 "For every packet sequence and every supported compression (none, ZIP, ZLIB, BZip2), the packets inside a compressed data packet are listed below it exactly as they would be listed on their own in that place of the stream, after the algorithm and the exact compressed size. Compressed data that is corrupt or truncated makes the dump fail, an unknown algorithm is listed without content, a compressed packet inside compressed data is listed but not expanded, and data that expands to 1 GiB or more is marked as too large, without failing and without listing its content.",
 ["inputs"], "all inner sequences times algorithms, compression levels, corruptions and cuts of the compressed stream; expansion just below, at and above the limit",
 "Two compressed golden files; corruption, other algorithms and the limit are not tested.",
 ["parse/tags/Tag08.go", "parse/tags/packets.go"],
 [("decompressors and cap", "parse/tags/Tag08.go"), ("inner packet loop", "parse/tags/packets.go Parse")],
 ["items below tag 8"])

prop("C14", "Options only add what they name, and nothing shows without its option",
 "For every input, changing the dump options never changes which items are listed or their names, values and notes (time zone apart); it only adds or removes hexadecimal dumps. Multi-precision integers, ECDH parameters and encrypted session keys are dumped exactly with the integer option, literal data and file names with the literal option, marker data with the marker option, private packets with the private option, attested certifications with the certification option, and the remaining raw dumps only with the debug option, which implies all of these; every dump is exactly the octets of its field.",
 ["inputs", "configurations"], "all inputs times all 512 option sets, set by code, by name or by command-line flag, in any order",
 "Tests run three or four option sets on fixed files.",
 ["parse/context/context.go", "parse/context/options.go", "parse/values/dump.go", "parse/reader/reader.go", "parse/pubkey", "parse/tags", "facade/facade.go"],
 [("option predicates", "parse/context/context.go"), ("dump flag plumbing", "parse/values/dump.go")],
 ["Dump fields of the listing", "Context accessors"])

prop("C15", "Times and expiry dates denote the right instants",
 "For every 32-bit time, in every local time zone (whole-minute offsets), each time in the listing is an RFC 3339 timestamp denoting exactly that instant, printed in UTC with the UTC option and in local time without it, and the two always denote the same instant. An expiry is shown as its period in days and, when the creation time it counts from is known and non-zero, with the exact end instant (also beyond the year 2106); a signature's expiry is counted only from that signature's own creation time, and a key's expiry only from the last key packet that precedes the signature in the same input.",
 ["inputs", "configurations", "histories"], "all creation times, periods, time zones with and without daylight saving, subpacket orders, nesting and sequences of signatures and keys",
 "Tests use a few dates in UTC; overflow, ordering of subpackets and other time zones are not reached.",
 ["parse/values/datetime.go", "parse/values/expire.go", "parse/tags/sub02.go", "parse/tags/sub03.go", "parse/tags/sub09.go", "parse/tags/sub32.go", "parse/tags/sub38.go", "parse/tags/packets.go"],
 [("time formatting", "parse/values/datetime.go"), ("expiry arithmetic", "parse/values/expire.go"), ("creation time carried in the context", "parse/context/context.go")],
 ["Value/Note of time items"])

prop("C16", "JSON and text outputs carry the same listing, whatever it contains",
 "For every listing, the JSON output is one valid JSON document that decodes to exactly the listing (names, values, notes, dumps, nesting and order; empty fields left out), and the text output has exactly one line per item plus one per dump, indented by depth and showing the item's name, value and note. The indent setting changes only white space, and rendering never alters the listing or depends on earlier renderings.",
 ["inputs", "configurations"], "all item trees (valid UTF-8 strings incl. quotes, <>&, non-ASCII, empty fields, nesting below the JSON library's 10000 levels) and all parsed inputs, times indent sizes",
 "Tests render one two-item tree.",
 ["parse/result/result.go", "facade/facade.go"],
 [("renderers", "parse/result/result.go JSON/ToString"), ("format selection", "facade/facade.go marshalPacketInfo")],
 ["Info.JSON", "Info.ToString", "Info.String", "stdout"])

prop("C17", "A dump depends only on its own input and options",
 "For every history of dumps in one process (any inputs, successful or failing, same or different options, contexts shared or not, parsers created before others have run, runs in parallel), each dump gives the same listing and the same success or failure as it would alone in a fresh process. The caller's input buffer and options are never modified, and running a parser again that reached the end of its input adds nothing.",
 ["histories", "schedules", "inputs"], "all sequences and interleavings of parser creation and runs over shared and separate contexts, including concurrent ones",
 "Tests create a fresh context for each case and never run two parsers on one context.",
 ["parse/parser.go", "parse/parse.go", "parse/context/context.go", "facade/facade.go"],
 [("per-parser state", "parse/parser.go newParser"), ("context state", "parse/context/context.go")],
 ["listing of each Parser.Parse"])

prop("C18", "How the input is delivered does not matter, and read failures are reported",
 "For every input, the dump is the same whether it comes as a byte slice, a file, standard input or any reader that returns data in pieces of any size (one octet at a time, with empty reads, or with the end of file reported together with the last data). If reading fails part way with an error other than end of file, the dump fails with that error, at every failure position and in both armor modes; it never lists a prefix as if it were the whole input.",
 ["inputs", "fault_sequences"], "all inputs times all chunkings and all failure offsets",
 "Tests use only in-memory readers that return everything at once and never fail.",
 ["parse/parser.go", "armtext/armtext.go", "facade/facade.go"],
 [("reading of the whole input before probing for armor", "parse/parser.go New")],
 ["parse.New / parse.NewBytes / facade.Execute results"])

prop("C19", "The octet reader behaves as a cursor over an immutable buffer",
 "For every sequence of operations, the octet reader behaves like an ideal cursor with 0 <= position <= size: reads return exactly the requested octets at the position and advance it by that much, or fail without moving it; seeking moves to exactly the requested position or fails without moving; the remaining count is always size minus position; a read at an offset is a seek followed by a read; a read at the end fails with the end-of-file error and any other short read with a different one; dumps show exactly the octets from the given offset. No operation panics, changes the buffer, or reads outside it, whatever sizes and offsets are passed.",
 ["histories", "inputs"], "all operation sequences (ReadByte, ReadBytes, Read, ReadAt, Read2EOF, Seek with all whences, WriteTo, Rest, DumpString, GetBody) with in-range, boundary, negative and huge arguments",
 "Tests call each operation once on a four-octet buffer.",
 ["parse/reader/reader.go"],
 [("cursor arithmetic", "parse/reader/reader.go")],
 ["return values and Rest()/Len() after each call"])

prop("C20", "Key-server and web input: right request, faithful body, failures reported",
 "For every server, port, protocol and search text, a key-server dump issues exactly one GET request to that host and port, with path /pks/lookup and a query that decodes to op=get and exactly the given search text; a web dump requests exactly the given URL. The response body is dumped (or, with the raw option, copied octet for octet) exactly as if it had been given as a file, and a transport failure or an HTTP error status is always an error, never an empty listing.",
 ["inputs", "fault_sequences", "configurations"], "all search texts, hosts (as written in a URL), ports 1-65535, protocols, bodies, statuses and mid-body failures",
 "No test performs a request; only URL construction of one server is compared.",
 ["hkp/hkp.go", "facade/hkp.go", "facade/fetch.go"],
 [("URL and query construction", "hkp/hkp.go"), ("response hand-over", "facade/hkp.go, facade/fetch.go")],
 ["requests seen by a recording client or loopback server, stdout, exit code"])

prop("C21", "GitHub keys: the requested user's requested key, or an error",
 "For every user name and key ID, the client asks GitHub for exactly that user (the name is one escaped path segment) and, when a key ID is given, walks the pages 1, 2, 3, ... of 100 keys until the first key whose ID equals the given one ignoring case and an optional 0x prefix, and returns that key's armored text unchanged; without a key ID it returns the user's .gpg file unchanged. If no listed key matches, the key has no raw text, a request fails or a response is not the expected JSON, it returns an error, and no response, however malformed, makes it panic or return another user's or another key's text.",
 ["inputs", "histories", "fault_sequences"], "all user names, key IDs, page histories (key lists of any length, null entries, missing fields), statuses and malformed bodies",
 "Tests build one URL; no response is ever decoded.",
 ["github/github.go", "github/structs.go", "facade/github.go"],
 [("pagination and matching", "github/github.go GetKey"), ("URL construction", "github/github.go makeURL, makeURLAPI")],
 ["requests seen by a recording client, returned bytes or error"])

prop("C22", "Command line: exit status, streams and flags match what was dumped",
 "For every input and every flag set, the command exits 0 and writes exactly the rendered listing to standard output when the input was dumped, and otherwise exits non-zero with a message on standard error and nothing on standard output; only in debug mode is the failure instead described on standard output with exit status 0. Long and short flags, their order and position, file and standard input select exactly the documented behaviour, and repeated invocations in one process do not influence each other.",
 ["inputs", "configurations", "histories"], "all inputs, flag sets (long/short/combined), file/stdin, formats, sub-commands and sequences of invocations",
 "Tests invoke a dozen fixed command lines.",
 ["facade/facade.go", "facade/debug.go", "facade/version.go", "facade/completion.go", "main.go"],
 [("flag to option mapping", "facade/facade.go parseContext"), ("error handling", "facade/debug.go, facade/facade.go Execute")],
 ["exit code, stdout, stderr of facade.Execute and of the built binary"])

prop("C23", "Every number keeps its identity: names are right and the number is always shown",
 "For every value 0-255 of every enumerated octet (packet tag, public-key, symmetric, hash, compression, AEAD and string-to-key algorithm, signature type, subpacket type, version, literal format, revocation reason) the listing shows the name that RFC 4880 / RFC 4880bis assigns, the private/experimental or unknown label otherwise, and always the number itself (a literal format as its character), so two different numbers are never shown alike. The same number is named the same wherever it occurs (packet field, preference list, nested packet), and IV lengths and S2K counts follow the standard for every value.",
 ["inputs"], "all values of each enumerated octet in every position where it can occur",
 "Tests cover several tables in isolation but not every use, and not the values that are only reached through a packet.",
 ["parse/values", "parse/tags/sub29.go", "parse/tags/subs.go", "parse/tags/tags.go"],
 [("name tables", "parse/values/*id.go")],
 ["Name/Value/Note of items"])

prop("C24", "No octet is lost: sizes and debug dumps account for the whole input",
 "For every input that dumps successfully in debug mode, the hexadecimal dumps of the top-level packets concatenated are exactly the packet bodies of the input, the dump of every subpacket area is exactly its content, and every size shown (in octets or bits) equals the size of the octets it describes. Octets of a packet that are not explained by a decoded field are always listed as unknown data, with exact count and, in debug mode, exact content.",
 ["inputs"], "all inputs that dump without error, with trailing octets appended to any packet",
 "Tests compare golden text of fixed files, in which nothing is left over.",
 ["parse/tags", "parse/values/literal.go", "parse/values/dump.go", "parse/reader/reader.go"],
 [("root item with body size and dump", "parse/values/tagid.go ToItem"), ("RawData of the rest", "parse/values/literal.go RawData")],
 ["Note and Dump fields of the listing"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
