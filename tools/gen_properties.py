#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

XW, XR, DB = "src/xml/serialize.rs", "src/xml/parse.rs", "src/database.rs"
KD, HD, HF, RD, VD = ("src/binary/kdbx.rs", "src/binary/header.rs", "src/binary/header_fields.rs",
                      "src/binary/read.rs", "src/binary/variant_dict.rs")
CR, PI, BC, HM, K3, RN, SC, UT = ("src/crypto.rs", "src/stream/pipeline.rs", "src/stream/block_cipher.rs",
      "src/stream/hmac.rs", "src/stream/kdbx3.rs", "src/stream/random.rs", "src/stream/stream_cipher.rs", "src/utils.rs")

prop("C01", "A saved database reopens with exactly the same content",
 "Whenever saving a database succeeds, opening the saved bytes with the same credentials yields the same database: metadata, group tree, entries, fields in order with their text and protection, history, identifiers and times to the second. An absent value and an empty value count as the same. Saving may fail only for text that the format cannot represent, empty field names, or groups or histories nested beyond the library's limit of some hundred levels, never by writing something that reads back differently or not at all.",
 ["inputs", "configurations"],
 "Every database buildable through the public API (any tree shape, any text in any position, any flag and time value), under every supported cipher, compression, key derivation and inner stream.",
 "Two round-trip tests save one fixed plain-ASCII database with default settings; text with leading blanks, markup, control characters, empty protected values, deep trees, histories, time extremes and other ciphers are never saved.",
 [XW, XR, KD, DB], [("XML writer", XW), ("XML reader", XR), ("archive writer", "Kdbx::write in " + KD), ("archive reader", "Kdbx::unlock in " + KD)],
 observe=["Kdbx::write", "from_reader + unlock", "write_xml + parse_xml"])

prop("C02", "Saved files are valid KDBX 4 for an independent reader",
 "Every file the library saves can be read by an independent implementation of the KDBX 4 format, which finds valid magic numbers, header hash, header and block authentication codes, padding, inner header and XML, and recovers exactly the database that was saved. Times, identifiers, booleans and protected values use the encodings the format prescribes.",
 ["inputs", "configurations"],
 "Every database, credential and supported combination of cipher, compression, key derivation parameters and inner stream.",
 "The library is only tested against itself, so a symmetric mistake in writer and reader (a wrong key, nonce, index or byte order on both sides) passes every test while making the file useless to any other program.",
 [KD, HD, HF, VD, CR, PI, HM, BC, SC, RN, XW], [("header writer", "KdbxHeader::write in " + HD), ("key schedule", CR), ("stream pipeline", PI), ("XML writer", XW)],
 observe=["bytes produced by Kdbx::write"])

prop("C03", "Every conforming KDBX 4 file opens with the content it stores",
 "Any file that follows the KDBX 4 format and uses supported algorithms opens with the right credentials and yields exactly the stored database, whatever legal freedom its writer used: order of header fields and parameters, extra or unknown fields, any split of the payload into blocks, any compressor, any minor version. Only nesting beyond the library's limit of some hundred levels may be refused.",
 ["inputs", "configurations"],
 "All layouts an encoder may choose, for every supported cipher, compression, key derivation (both AES identifiers, both Argon2 kinds and versions) and inner stream.",
 "Ten sample files written by two programs with one layout each; no test has several data blocks, another field order, unknown fields or a second inner stream.",
 [RD, HD, HF, VD, KD, CR, PI, HM, BC, SC, RN, XR], [("header reader", HD), ("parameter dictionary reader", VD), ("block reader", HM), ("unlock", "Kdbx::unlock_v4 in " + KD)],
 observe=["from_reader", "unlock", "header()", "database()"])

prop("C04", "Every conforming KDBX 3.1 file opens with the content it stores",
 "Any file that follows the KDBX 3.1 format and uses supported algorithms opens with the right credentials and yields exactly the stored database, whatever the order of header fields, the split into hashed blocks, the compression setting, the inner stream, or the presence of protected attachments among the entries.",
 ["inputs", "configurations"],
 "All layouts an encoder may choose: header order, block splits, end markers, compression, cipher, inner stream, position of protected elements.",
 "One sample file (compressed, one layout) is opened by the tests and only its header is compared.",
 [RD, HD, KD, K3, PI, CR, XR], [("hashed block reader", K3), ("legacy header fields", "from_legacy_fields in " + HD), ("unlock", "Kdbx::unlock_v3 in " + KD)],
 observe=["from_reader", "unlock", "database()"])

prop("C05", "Only the right credentials unlock, and a failed try costs nothing",
 "An archive unlocks if and only if the given password and key file combination composes to the same key it was saved with; any other combination fails with an error that says the credentials do not match. A failed attempt hands back the locked archive unchanged, so that any later attempt behaves as if it were the first.",
 ["inputs", "histories"],
 "Every pair of (saved with, unlocked with) credentials, including empty, missing, swapped and one-bit-different ones; every sequence of failed and successful attempts; both format versions and all key derivations.",
 "No test ever unlocks with wrong credentials.",
 [CR, KD, PI], [("credential composition", "CompositeKey::composed in " + CR), ("header authentication", "unlock_v4 in " + KD), ("start bytes", "kdbx3_read_stream in " + PI), ("FailedUnlock", KD)],
 observe=["Kdbx::unlock result", "FailedUnlock.0 / .1"])

prop("C06", "Altered archives never open as something else",
 "If an archive is altered in any way after it was saved - bytes changed, inserted, removed, cut off, or blocks reordered, repeated or dropped, even with the unkeyed checksums outside the encrypted part recomputed - then opening it with the right credentials either fails or yields exactly the original content. This holds for KDBX 4, and for KDBX 3.1 files that carry a header hash.",
 ["inputs", "fault_sequences"],
 "Every byte position and replacement value, every truncation length, every block permutation, drop and duplication, every header edit with recomputed checksum.",
 "No test opens a damaged file.",
 [KD, HD, HM, K3, CR, PI, BC, XR], [("header checksum", HD), ("header authentication", KD), ("block authentication", HM), ("hashed blocks", K3), ("legacy header hash", KD)],
 observe=["from_reader", "unlock", "database()"])

prop("C07", "Malformed input is answered with an error, never a crash or a hang",
 "Opening, unlocking, or parsing XML from any byte sequence returns normally: it never panics, aborts, loops forever, or allocates memory out of proportion to the input beyond the work factors its key derivation settings ask for. Whatever opens successfully can be inspected and saved without a crash as well.",
 ["inputs"],
 "Every malformed file: each field missing, repeated, of any length or type; each length field lying; damaged dictionaries, payloads, compression, padding and XML at every nesting level, with authentication recomputed so that inner layers are reached.",
 "The tests only read well-formed files.",
 [RD, HD, HF, VD, KD, CR, PI, BC, HM, K3, XR, "src/xml/decoders.rs"], [("header parsing", HD), ("dictionary parsing", VD), ("key derivation", CR), ("streams", PI), ("XML parsing", XR), ("value decoders", "src/xml/decoders.rs")],
 observe=["from_reader", "unlock", "parse_xml", "decode_datetime", "decode_uuid", "write after open"])

prop("C08", "How the input arrives does not change what is read",
 "Opening an archive or parsing XML gives the same result however the source splits its data into reads, including one byte at a time and interrupted reads. If the source fails at any point before the archive is complete, the failure is reported as an error and never mistaken for an end of file, a bad checksum or a shorter database.",
 ["fault_sequences", "inputs"],
 "Every split of the input into reads (uniform sizes, every single split point, mixed patterns), an interruption before every read, an error at every offset, for both format versions and for XML.",
 "Tests read from files and slices, which always fill the buffer they are given.",
 [RD, UT, HD, XR], [("header caching reader", UT), ("from_reader", RD), ("open", RD)],
 observe=["from_reader over a scripted reader", "open(path)", "parse_xml over a scripted reader"])

prop("C09", "A save that reports success delivered the whole archive",
 "If saving reports success, every byte of a complete readable archive was accepted by the destination and the destination was flushed after the last byte; if the destination refuses or fails at any point, including at the flush, saving reports the error. A save that fails because of settings, keys or content writes nothing at all, and no failed save changes the in-memory database or prevents a later save from succeeding.",
 ["fault_sequences", "crash_points"],
 "A failure, refusal, short write or interruption at every byte position and every call of the destination, followed by a retry; every kind of unusable setting; locked and unlocked archives and plain XML output.",
 "Tests write to a Vec, which never fails and needs no flush.",
 [KD, PI, HM, BC, SC, XW], [("archive writers", "KdbxState::write in " + KD), ("stream finishing", PI), ("XML writer", XW)],
 observe=["Kdbx::write over a scripted sink", "write_xml over a scripted sink"])

prop("C10", "No size boundary loses, adds or corrupts data",
 "Saving and reopening is lossless at every payload size: around every cipher block boundary, around every authenticated block boundary (including several full blocks), and for values from empty to megabytes. The stored document neither gains nor loses a byte.",
 ["inputs", "configurations"],
 "Every payload length in windows around multiples of 16 bytes and around 1 and 2 MiB, for every cipher and compression; attachments of the same sizes.",
 "The test databases are about one kilobyte; nothing reaches a second data block or a chosen padding length.",
 [HM, BC, SC, PI, HD], [("block writer", "HmacWriter in " + HM), ("block cipher padding", BC), ("inner header writer", HD)],
 observe=["Kdbx::write", "unlock", "raw_xml", "independent decoder"])

prop("C11", "Key and setting changes take effect at the next save",
 "After any sequence of changing credentials, changing encryption settings, editing, saving, reopening and failing attempts, a successful save can be opened with exactly the most recently accepted credentials, under the settings and content current at the time of the save. Credentials that were replaced no longer open it, and without credentials nothing is written.",
 ["histories", "configurations"],
 "Every sequence of operations up to a bounded depth, from new and from reopened archives, over several credentials, key derivations, ciphers, compressions, seeds and inner streams.",
 "Tests set a key once and save once; nothing changes settings after the key or reuses a reopened archive.",
 [KD, CR, HD], [("set_key", "Kdbx::set_key in " + KD), ("derived key reuse", KD), ("header access", "header_mut")],
 state=[("stored key", "credential digest and derived key kept between saves", KD)],
 observe=["set_key", "header_mut", "inner_header_mut", "write", "unlock"])

prop("C12", "Unsupported formats and algorithms are refused, not guessed",
 "An archive that names a format version, cipher, compression, key derivation or inner stream that the library does not implement is refused with an error, both when reading and when saving. It is never processed with a different algorithm, a weaker setting or a key that ignores the credentials.",
 ["inputs", "configurations"],
 "Every version number, every identifier one bit away from a supported one and every other class of identifier, on the read side and on the write side, including parameter values outside the supported range.",
 "The only negative test parses one unknown identifier in isolation.",
 [HF, HD, RD, KD, CR, PI, RN], [("algorithm tables", HF), ("version check", RD), ("key derivation dispatch", CR), ("stream dispatch", PI), ("inner stream dispatch", RN)],
 observe=["from_reader", "unlock", "set_key", "write"])

prop("C13", "Protected values stay protected",
 "In every saved archive each protected value is stored encrypted with the inner stream at its position in document order and marked as protected, and its clear text does not occur in the stored document. A field marked protected is still protected, with the same text, after editing it, emptying it, saving and reopening, wherever it sits: entry, history or custom data.",
 ["inputs", "histories"],
 "Every arrangement of protected, unprotected and empty fields over entries, histories and custom data, every sequence of field edits to a bounded depth, both inner streams.",
 "One fixed document with a single protected value is compared; no test looks at empty values, histories or the order of several values.",
 [XW, XR, DB, RN], [("field writer", "write_field in " + XW), ("field reader", "parse_field in " + XR), ("protection flag", "Field in " + DB)],
 observe=["raw_xml", "write_xml output", "Field::protected / value"])

prop("C14", "A locked archive is written back byte for byte",
 "Writing an archive that has not been unlocked reproduces exactly the bytes it was read from, for both format versions and any legal layout, also after failed unlock attempts. If its unencrypted settings were changed while it is locked, so that its authentication can no longer match, writing fails and produces nothing.",
 ["inputs", "histories"],
 "Every layout of headers, parameters, blocks and trailing data, every sequence of failed unlocks and settings edits before the write.",
 "No test writes a locked archive.",
 [KD, RD, HD], [("locked write", "impl KdbxState for Locked in " + KD), ("stored header bytes", RD)],
 observe=["Kdbx<Locked>::write"])

prop("C15", "Header fields and attachments the library does not use survive",
 "Opening an archive, optionally editing its database, and saving it preserves every outer header field and inner header field the library does not interpret, including comments, public custom data, unknown identifiers and attachments, with identical type, content and relative order.",
 ["inputs", "histories"],
 "Every combination of up to three such fields with any identifier and any content length, in any position, over one and more open-edit-save cycles.",
 "No test file carries such a field.",
 [HD, KD], [("outer field list", "KdbxHeader in " + HD), ("inner field list", "KdbxInnerHeader in " + HD)],
 observe=["independent decoder on saved bytes", "header().other_headers", "inner_header().other_headers"])

prop("C16", "Group tree operations behave like an ordered tree",
 "Adding, removing, replacing, moving and renaming groups and entries, and every search, count and iteration over them, behave as on a plain ordered tree: removal takes out exactly the first direct child with that identifier and returns it, everything else stays in place and in order, searches return the first match with a group's own entries before those of its subgroups, and full iterations visit every item exactly once.",
 ["histories"],
 "Every sequence of operations up to a bounded depth over trees with repeated identifiers and names, from empty and from populated databases.",
 "Four documentation examples perform one operation each.",
 [DB], [("Group", DB), ("Database", DB)], state=[("group tree", "entries and child groups in order", DB)],
 observe=["Group and Database public methods"])

prop("C17", "Entry, field and history edits behave like ordered lists",
 "Editing an entry affects exactly what was addressed: setting a named value updates the first field with that name or appends one, removing a name removes all fields with it, archiving a version appends a full copy of the current state without its own history, and everything else stays unchanged and in order. Passwords and one-time-password settings set through their own setters are always protected.",
 ["histories"],
 "Every sequence of edits up to a bounded depth over fields with repeated names, from empty and populated entries.",
 "The examples set each value once on a fresh entry.",
 [DB], [("Entry", DB), ("Field", DB), ("History", DB)], state=[("field list", "fields in order, duplicates allowed", DB), ("history", "earlier versions in order", DB)],
 observe=["Entry, Field and History public methods"])

prop("C18", "Identifiers and times are encoded and decoded exactly",
 "Encoding an identifier or a time and decoding the result gives back the same identifier or the same time to the second, and the encoding is the one the format prescribes: base64 of the 16 identifier bytes, base64 of the little-endian count of seconds since the first day of year 1. ISO 8601 times decode to the instant they name in UTC, and malformed text is rejected.",
 ["inputs"],
 "Every day of years 1 to 9999 with boundary times, the ends of all other representable years, every identifier bit, every text length and kind of malformed text, every offset form of ISO times.",
 "The tests encode three dates and two identifiers.",
 ["src/xml/decoders.rs"], [("codecs", "src/xml/decoders.rs")],
 observe=["encode_datetime", "decode_datetime", "encode_uuid", "decode_uuid"])

prop("C19", "The database read from XML depends on its content, not its layout",
 "Documents that carry the same information parse to the same database: indentation, comments, processing instructions, the order of sibling elements, character references, CDATA sections, quoting, empty-element form, letter case of booleans, and elements the library does not know make no difference. Text content is taken exactly as written, including blanks.",
 ["inputs"],
 "Every position and every kind of layout change, singly and in pairs, over documents covering all element types.",
 "Tests parse the documents of a few sample files written by two programs.",
 [XR], [("XML reader", XR)], observe=["parse_xml", "unlock"])

prop("C20", "New archives and items get fresh unpredictable values",
 "Each newly created archive draws its seed, initialisation vector, key derivation salt and inner stream key from the operating system's random source at full length, independently of one another and of earlier archives, and each new entry or group gets a fresh random identifier. If the random source fails, creation does not silently continue with predictable values.",
 ["histories", "fault_sequences"],
 "Every sequence of creations up to a bound, every content of the random source in a scripted family, a failure at every request to it.",
 "No test creates two archives or looks at the generated values.",
 [HD, DB], [("outer header generator", "KdbxHeader::from_os_random in " + HD), ("inner header generator", "KdbxInnerHeader::from_os_random in " + HD), ("identifier generation", DB)],
 observe=["header()", "inner_header()", "uuid()"])

prop("C21", "One-time-password settings read back as stored",
 "The secret, period and digit count of a one-time password are returned exactly as they were given at creation or as they appear in a stored otpauth address, independently of the order of parameters, of other parameters around them, and of padding characters in the secret. A missing or non-numeric parameter is reported as absent.",
 ["inputs"],
 "Every secret over the base32 alphabet with padding up to a bounded length, every order and subset of address parameters, numeric boundary values.",
 "One test reads the secret of one stored address; period and digits are never read.",
 [DB], [("Otp", DB)], observe=["Otp::new", "Entry::otp / set_otp", "Otp::secret / period / digits"])

prop("C22", "Command-line tools answer every invocation without crashing",
 "The command-line tools print the decrypted document, the database or the header of any archive the library can open, and exit with a failure status and a message, never a crash, for missing arguments, missing files, wrong passwords and damaged or unsupported files.",
 ["inputs", "configurations"],
 "Every tool with every argument count, over archives of every supported kind and every class of unusable file.",
 "The tools have no tests.",
 ["src/bin/kdbx_decrypt.rs", "src/bin/kdbx_dump_header.rs", "src/bin/kdbx_parse.rs", "src/bin/kdbx_generate.rs"], [("tools", "src/bin")],
 observe=["exit status, stdout and stderr of each tool"])

prop("C23", "The raw document is exposed exactly as stored",
 "After unlocking, the raw XML offered to callers is byte for byte the document stored in the archive, without padding, truncation or trailing bytes, for every cipher, compression, block split and format version.",
 ["inputs", "configurations"],
 "Every document length modulo the cipher block size, every block split, cipher and compression, both format versions.",
 "No test looks at the raw document.",
 [KD, BC, SC, HM, K3, PI], [("raw document", "raw_xml in " + KD), ("padding removal", BC)],
 observe=["raw_xml"])

prop("C24", "The settings of an archive are reported as stored",
 "An archive that opens reports, before and after it is unlocked, exactly the settings its header stores: format version, cipher, compression, key derivation with all its parameters and byte strings, random seeds, uninterpreted fields and, once unlocked, the inner stream and its key. Settings this library has no name for keep their number, identifier and parameters. Settings given to a new archive are reported as given.",
 ["inputs", "configurations"],
 "Every legal header layout of both format versions, every identifier and number of the bounded families whether known or not, every parameter value, count and length.",
 "One test compares the header of one 3.1 file and one prints those of the samples; unknown settings, large parameters, other orders and inner headers are never compared.",
 [KD, HD, HF, VD, RD], [("header reader", HD), ("identifier tables", HF), ("parameter dictionary reader", VD)],
 observe=["Kdbx::header", "Kdbx::inner_header", "Kdbx::version"])

prop("C25", "Equality sees every difference and copies are independent",
 "Two fields, entries, groups, databases, histories, times, metadata or headers compare equal exactly when nothing a caller can read from them differs: same values, same protection, same order, same identifiers and times. A copy equals its original, and editing one never changes the other.",
 ["inputs", "histories"],
 "All pairs from families of values that differ in one part each, and all edit sequences to a depth applied to one of original and copy.",
 "Tests compare a few parsed values with literals, which only ever asks for equality of equal things; no test expects two things to differ, and none edits a copy.",
 [DB, HD, HF], [("derived and written equality", DB), ("cloning", DB)],
 observe=["PartialEq", "Clone", "all accessors of the database types"])

prop("C26", "New items carry the present moment in UTC",
 "A database, group, entry or set of times made new carries as creation, modification, access, move and expiry time one and the same moment, the one it was made at, in UTC and to the second, whatever the time zone of the process; it does not expire and was never used. The moment survives saving and reopening.",
 ["configurations", "inputs", "histories"],
 "Every time zone rule of a family that covers all offsets and daylight saving, every instant of a grid over years and around zone changes, every kind of new item, every sequence of creations under a clock that moves.",
 "Tests run in one time zone at one moment and never look at the times of new items.",
 [DB, XW], [("default times", "Times::default in " + DB)],
 observe=["Times of new items", "reopened times"])

prop("C27", "A refusal names its reason",
 "When opening, unlocking or saving is refused because of a single defect, the error names it: what is not a KDBX file, an unsupported version and which, a missing field or parameter and which, a field or parameter of the wrong size or type, a broken header, wrong credentials, an unsupported algorithm, a key that cannot be derived, damaged content, a malformed document, or the failure of the source or destination with its own kind. Damage is not reported as wrong credentials, nor wrong credentials as damage, where the format can tell them apart, and turning the error into the library's general error keeps kind and text.",
 ["inputs", "fault_sequences", "configurations"],
 "Every single defect of each kind at every position, field, parameter and type of files of both versions, and every setting and fault that prevents saving.",
 "One test expects one error; no other refusal is looked at.",
 ["src/errors.rs", KD, HD, HF, VD, RD, CR, XR, XW], [("error types", "src/errors.rs"), ("header reader", HD), ("unlock", KD)],
 observe=["error values and their text"])

prop("C28", "Identifiers, numbers and parameters convert both ways without loss",
 "Turning a stored identifier, number, value or parameter dictionary into the library's type and back gives exactly what was stored: every header and inner header field identifier, cipher, compression, inner stream and key derivation identifier, every typed value and every set of key derivation parameters with those this library does not know. Each known constant names the algorithm the format gives it, different stored values stay different, a value is only readable as the type it has, and incomplete or mistyped parameters are refused rather than replaced by defaults.",
 ["inputs"],
 "All 256 field identifiers, all 2^32 numbers, all identifiers within three bits of a known one, all values of bounded families read as every type, and all combinations of states of every parameter of each key derivation.",
 "Tests convert the handful of identifiers and parameters of the sample files, and only when reading.",
 [HF, VD, HD], [("identifier tables", HF), ("typed values", VD)],
 observe=["From/TryFrom between stored and library types"])

prop("C29", "Archives do not influence each other",
 "What an operation on one archive does depends on that archive and its arguments only: opening, unlocking, saving, editing or failing to open other archives before, between, within the reads and writes of, or on another thread at the same time as an operation changes nothing about its result.",
 ["histories", "schedules", "programs"],
 "All sequences of operations to a depth over archives that differ in one thing each, an operation on one archive within every read and write of an operation on another, all interleavings of two programs on two threads at the granularity of their reads, writes and calls, and a preemption by another thread at each allocation within a call.",
 "Tests open each archive in isolation, each in its own order and never during another operation.",
 [KD, CR, HM, SC, K3], [("key derivation", CR), ("block streams", HM), ("inner stream ciphers", SC)],
 observe=["results of open, unlock, write and of reading content"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P))
