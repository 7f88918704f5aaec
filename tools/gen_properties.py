#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, qtext, why, files, mech, over=("inputs",), state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why, "anchors": a})

M = "src/core/matter/mod.rs"; MT = "src/core/matter/tables.rs"
I = "src/core/indexer/mod.rs"; IT = "src/core/indexer/tables.rs"
C = "src/core/counter/mod.rs"; CT = "src/core/counter/tables.rs"
U = "src/core/util.rs"

p("C01", "Unindexed primitives round-trip exactly between raw, text and binary",
  "For every derivation code of the unindexed code table and every raw value of its size (any length, for variable-length codes), the text form is exactly the CESR encoding (code, size field, zero pad/lead bits, Base64URL material), the binary form is exactly the Base64 decoding of the text form, and building from raw, text (string or bytes) or binary gives the same code, size, raw, text and binary. Variable-length material is given the code whose lead size and small/large class fits its length (promoted to the large class when the small size field cannot hold it), material over the largest size is refused, and too little raw material is refused while surplus raw is ignored. The reported full size is exactly the number of text characters of the primitive.",
  "all codes of the table x all raw values (random, all-zero, all-one, boundary patterns) x all lengths incl. 4095/4096 quadlets x the four construction routes",
  "The tests encode a handful of literals per code; the guarantee is over every raw value, length and code, including pad/lead boundary lengths and small-to-large promotion.",
  [M, MT, U], [("infil/binfil/exfil/bexfil", M), ("sizage/hardage/bardage/raw_size tables", MT), ("u32_to_b64/b64_to_u32 etc.", U)],
  observe=["Matter::qb64/qb64b/qb2/raw/code/size/full_size on every type implementing it"])

p("C02", "Text and binary streams are composable and convert as a whole",
  "Every primitive, indexed signature and counter has a text form that is a multiple of 4 characters and a binary form that is the Base64URL decoding of it, so for any concatenation of them the whole text stream converts to the whole binary stream and back. Parsing from the front of such a stream (text or binary, with any further material of the same domain following) yields the primitive first in it, and advancing by its full size lands exactly on the next one, until the sequence has been recovered.",
  "all sequences of primitives, indexed signatures and counters, in both domains, with arbitrary trailing data",
  "The tests parse isolated literals; composability is about every concatenation, boundary and trailing byte.",
  [M, I, C, MT, IT, CT], [("sizage tables", MT), ("exfil/bexfil of a prefix, full_size", M), ("exfil/bexfil", I), ("exfil/bexfil", C)], over=("inputs", "histories"))

p("C03", "Indexed signatures round-trip exactly between raw, text and binary",
  "For every one of the sixteen indexed-signature codes and every raw signature, index and other-index that its soft fields can hold, the text form is exactly code, index, other-index and zero-padded Base64URL material, the binary form is its Base64 decoding, and building from parts, text or binary gives back the same code, index, other-index and raw. A both-lists code without an explicit other-index takes the index as its other-index, a current-list-only code carries no other-index (zero, and refused when supplied or encoded non-zero), a code without a second index field refuses an other-index different from its index, and an index or other-index that does not fit its field is refused instead of being truncated.",
  "all indexed codes x raw x the full index and other-index ranges with their boundaries x text/binary/parts",
  "The tests cover a few indices per code; field-width boundaries, both/current distinctions and bit-level packing are over all indices.",
  [I, IT, "src/core/siger.rs"], [("infil/binfil/exfil/bexfil, new_with_code_and_raw", I), ("sizage, CurrentSigCodex, BothSigCodex", IT), ("code check", "src/core/siger.rs")])

p("C04", "Counters round-trip and keep their count or version exactly",
  "For every counter code and every count its soft field can hold, the text form is the code followed by the Base64 count in exactly the field width, the binary form is its Base64 decoding, and text, binary and parts construction give back the same code and count, as number and as Base64 text. A count that does not fit, an unknown code, or material shorter than the full counter is refused, and the protocol genus/version counter carries each semantic version major.minor.patch in its three digits.",
  "all counter codes x all counts (exhaustive for 2-digit counters, boundaries and random for larger) x text/binary/parts x truncations",
  "The tests use a few literal counters; field limits, small versus big fields and all counts are unbounded by examples.",
  [C, CT, U], [("infil/binfil/exfil/bexfil, new_with_code_and_count", C), ("sizage/hardage/bardage", CT), ("sem_ver_str_to_b64, sem_ver_parts_to_b64", C)])

p("C05", "Decoding is strict and canonical: only exact encodings are accepted",
  "Any text or binary input accepted as a primitive, indexed signature or counter re-encodes to exactly the leading characters or bytes it was read from, so no two different encodings denote the same value. Inputs that are truncated, carry non-zero pad bits or lead bytes, use characters outside the Base64URL alphabet (including '=' padding, '+' and '/'), have an unknown code, or start with a count or op code are refused with an error.",
  "all byte strings and text strings, in particular every single-character, single-bit and truncation mutation of valid encodings of every code",
  "Tests give a handful of bad literals; malleability is about every mutation of every encoding.",
  [M, I, C, MT, U], [("pad and lead-byte checks", M), ("pad checks", I), ("shortage checks", C), ("b64_char_to_index", U)])

p("C06", "Parsing hostile CESR material never crashes",
  "No byte string or text handed to any primitive, indexed-signature or counter constructor (raw with any code string, text, text bytes or binary), and no accessor of a value so accepted, panics, overflows, aborts or loops: each either returns a value or an error. This holds for non-ASCII text, truncated and oversized material, and unknown codes.",
  "all byte strings / strings up to kilobytes, structured mutations of valid material, every constructor of every primitive type, followed by every accessor",
  "Tests exercise selected error paths; crash freedom quantifies over all inputs.",
  [M, I, C, U, "src/core/number.rs", "src/core/dater.rs", "src/core/bexter.rs", "src/core/pather.rs"], [("length and boundary checks before slicing", M), ("length checks", I), ("length checks", C)])

p("C07", "Hostile events, credentials, JSON values and thresholds never crash",
  "No input to the event, credential, self-addressing, prefix, threshold, path or JSON-value interfaces (arbitrary bytes, arbitrary JSON with missing or wrongly typed fields, arbitrary version strings, arbitrary threshold expressions and index sets), and no accessor of what is accepted (the indexing operators of structured data aside), panics, overflows or aborts: every malformed input is reported as an error. JSON integers and floats of any size are accepted as data or rejected with an error. (Documents built by program deeper than the JSON reader accepts, 128 levels, are outside the claim.)",
  "arbitrary bytes; mutated events and credentials with fields dropped, retyped and reordered; arbitrary JSON; threshold expressions with zero denominators, huge fractions and nested forms; any index lists",
  "Tests feed well-formed events; the totality claim is over all inputs an attacker controls.",
  ["src/core/common.rs", "src/core/sadder.rs", "src/core/serder.rs", "src/core/creder.rs", "src/core/saider.rs", "src/core/prefixer.rs", "src/core/tholder.rs", "src/core/pather.rs", "src/data.rs"],
  [("sniff/loads", "src/core/common.rs"), ("populate_from_raw/ked", "src/core/sadder.rs"), ("From<&serde_json::Value>", "src/data.rs"), ("process_*", "src/core/tholder.rs")])

p("C08", "Each primitive type accepts only the codes that belong to it",
  "A typed primitive (verification key, signature, signing seed, salt, digest, self-addressing identifier, identifier prefix, number, sequence number, datetime, Base64 text, path, indexed signature) can be built through its own constructors only from material whose code belongs to that type, whichever way it is built (raw, text, bytes or binary) and whatever default code was passed; material of any other code is refused with an error. Raw material of the right length given without a code takes the type's default code where it has one (non-transferable Ed25519 for keys, Ed25519 for seeds). Transferability and digest-ness reported for a primitive agree with its code.",
  "all table codes x all typed primitives x all construction routes",
  "The tests try one or two wrong codes on some routes; the claim is the full code-by-type-by-route matrix.",
  ["src/core/verfer.rs", "src/core/cigar.rs", "src/core/signer.rs", "src/core/salter.rs", "src/core/diger.rs", "src/core/saider.rs", "src/core/prefixer.rs", "src/core/number.rs", "src/core/seqner.rs", "src/core/dater.rs", "src/core/bexter.rs", "src/core/siger.rs", M],
  [("validate_code in each typed constructor", "src/core/verfer.rs"), ("transferable/digestive", M)])

p("C09", "Signatures made by a signer verify under its public key",
  "For every seed of every supported suite (Ed25519, ECDSA secp256k1, ECDSA secp256r1), transferable or not, the signer's verification key is the suite's public key of that seed under the (non-)transferable code asked for, and every signature it makes, unindexed or indexed, over any message verifies true under that key and under an independent implementation of the suite. Ed25519 signatures equal the standard deterministic ones, and the signature code matches the suite.",
  "all seeds x suites x transferability x messages of any length x unindexed/indexed signing",
  "Tests sign a few fixed messages with fixed seeds.",
  ["src/core/signer.rs", "src/core/verfer.rs", "src/crypto/sign.rs", "src/core/cigar.rs", "src/core/siger.rs"],
  [("sign/public_key/verify per suite", "src/crypto/sign.rs"), ("code selection", "src/core/signer.rs")])

p("C10", "Altered, foreign or malformed signatures never verify",
  "Verification returns true exactly when the suite's standard verification accepts that signature of exactly the given message under exactly the given key: after any change to the message, the key or the signature, for a signature of another signer or suite, or for malformed signature bytes of any length, it returns false or an error and never true and never crashes. Two signatures or verification keys with different bytes are never treated as interchangeable.",
  "all bit flips, truncations, extensions, cross-key, cross-message, cross-suite and random signature bytes",
  "Tests check one wrong signature; soundness is over every alteration.",
  ["src/core/verfer.rs", "src/crypto/sign.rs"],
  [("verify dispatch by key code", "src/core/verfer.rs"), ("verify", "src/crypto/sign.rs")])

p("C11", "Indexed signing binds the requested indices with the tightest code",
  "Signing with an index yields an indexed signature carrying exactly the requested index and other-index: current-list-only codes when asked for only, both-lists codes otherwise; the small code is used exactly when the index (and the equal other-index) fits in it, and the big code otherwise. Indices beyond what the big code holds are refused, the signature carries the signer's verification key, and the encoded form decodes to the same indices.",
  "all (index, other-index, only) combinations around and beyond the 63/64 and 4095/4096 boundaries x suites",
  "Tests cover a couple of indices; boundaries and combinations decide the code.",
  ["src/core/signer.rs", "src/core/siger.rs", I], [("sign_indexed", "src/core/signer.rs"), ("new_with_code_and_raw", I)])

p("C12", "Digests equal the standard algorithms and compare faithfully",
  "For each of the nine digest codes and any content, the digest produced is exactly the named algorithm's output (Blake3-256/512, Blake2b-256/512, Blake2s-256, SHA3-256/512, SHA2-256/512) and verification of content is true if and only if it equals that output. Comparing two digests against content says equal exactly when they are the same digest text, or are of different algorithms and both digest that content, whether given as values or text, and so unequal whenever two digests of one algorithm differ.",
  "all digest codes x content of any length (incl. block boundaries) x mutated content and digests x pairs of algorithms",
  "Tests hash one or two fixed strings per algorithm.",
  ["src/core/diger.rs", "src/crypto/hash.rs"], [("digest functions", "src/crypto/hash.rs"), ("verify/compare", "src/core/diger.rs")])

p("C13", "Self-addressing identifiers are derived exactly as specified",
  "Deriving a self-addressing identifier for any structured document replaces the labelled field by a dummy of exactly the identifier's length, corrects the size in the version string when there is one, removes ignored fields, and digests the resulting compact serialization in field order with the chosen algorithm, and returns the document with the identifier embedded in the labelled field and the other fields intact. A document so embedded always verifies.",
  "all documents (nested, unicode, any field order, versioned or not) x nine digest codes x labels x ignored-field sets",
  "Tests use a few fixed documents; the derivation must be exact for any document.",
  ["src/core/saider.rs", "src/core/common.rs", "src/data.rs"], [("derive/saidify/serialize", "src/core/saider.rs"), ("sizeify", "src/core/common.rs")])

p("C14", "Any change to a self-addressed document is detected",
  "Once a document carries its self-addressing identifier, verification succeeds on it and fails (false or error) after any change to any name, value, nesting, array order or field order outside the labelled field and the ignored fields, or to the identifier it is checked against or its algorithm; when asked to check them, a wrong embedded identifier (prefixed) or a wrong version string (versioned) is also rejected. Changes confined to ignored fields of an unversioned document do not affect the result.",
  "all single mutations of all documents x digest codes x prefixed/versioned options",
  "Tests check a couple of tampered documents; integrity is over all mutations.",
  ["src/core/saider.rs", "src/data.rs"], [("verify/derive", "src/core/saider.rs"), ("ordered JSON serialization", "src/data.rs")])

p("C15", "Identifier prefixes are bound to their inception event",
  "Deriving a prefix from an inception event gives, for basic derivations, the single inception key (non-transferable prefixes only when there are no next keys, backers or anchors), and for self-addressing derivations the digest of the event (version field first) with identifier fields dummied and the size corrected; derivation refuses event kinds and shapes that cannot have such a prefix. A prefix verifies against an event if and only if it is the derivation of that event (and, when asked, equals the prefix embedded in it), so any change to the event or the prefix is detected.",
  "all inception events (icp, dip, vcp; keys, thresholds, next keys, backers, anchors) x derivation codes x mutations",
  "Tests use fixed events for each code path.",
  ["src/core/prefixer.rs", "src/core/saider.rs", "src/core/common.rs"], [("derive_*/verify_*", "src/core/prefixer.rs")])

p("C16", "Threshold satisfaction is decided exactly",
  "A (positive) numeric threshold is satisfied by a list of signer indices exactly when the list, duplicates included, is at least that long; a fractionally weighted threshold is satisfied exactly when, in every clause, the exact rational sum of the weights of the distinct indices present reaches 1, where indices are numbered across clauses in order. The answer does not depend on index order or (for weighted thresholds) on duplicates, adding indices never turns satisfied into unsatisfied, and an index outside the key list never contributes weight.",
  "all thresholds (integers; one or many clauses; any fractions between 0 and 1) x all index lists",
  "Tests check a few dozen fixed cases; exact rational arithmetic and clause offsets are over all weights and subsets.",
  ["src/core/tholder.rs"], [("satisfy_numeric/satisfy_weighted", "src/core/tholder.rs")])

p("C17", "Threshold expressions are equivalent across all their representations",
  "A threshold built from any of its forms (hex or integer, nested weight lists or, for weighted ones, their JSON text, parsed structure, or its CESR encoding) denotes the same weights, size, weightedness and satisfaction, and each form it reports (structure, event form, JSON text, CESR text) builds an equal threshold again. Malformed thresholds are refused: negative or non-numeric thresholds, empty lists or clauses, weights below 0 or above 1, non-fractions, and clauses whose weights sum to less than 1.",
  "all valid thresholds x all forms x conversions between them; grammar-based malformed expressions",
  "Tests cover a list of literal thresholds.",
  ["src/core/tholder.rs", "src/core/number.rs", "src/core/bexter.rs"], [("process_sith/thold/limen", "src/core/tholder.rs"), ("limen/sith/json accessors", "src/core/tholder.rs")])

p("C18", "Salt stretching yields the standard deterministic key material",
  "For a given salt, path, tier, suite code, transferability and temporary flag, key creation is a pure function: the seed is the Argon2id output for the path as password and the salt as salt at the tier's cost parameters, and the signer made from it has the requested suite and transferability. A sequence of signers uses path base plus the hexadecimal running number, so consecutive or overlapping ranges agree item by item, and different salts, paths, tiers or numbers give different keys.",
  "all salts x paths x tiers x suites x counts and starts",
  "Tests pin a few outputs.",
  ["src/core/salter.rs", "src/crypto/salt.rs", "src/core/signer.rs"], [("stretch/signer/signers", "src/core/salter.rs"), ("argon2 parameters", "src/crypto/salt.rs")])

p("C19", "Freshly generated secrets are complete, well-formed and never repeat",
  "Every freshly generated salt and signing key has full-length material valid for its suite, is generated independently of all earlier ones in any thread (no repeated value, no constant bytes, no low-entropy pattern), and is usable at once: its text form rebuilds the same signer, public key and signatures.",
  "histories of thousands of generations on several threads x suites x transferability",
  "Tests generate one key and check its length.",
  ["src/core/salter.rs", "src/core/signer.rs", "src/crypto/csprng.rs", "src/crypto/sign.rs", "src/crypto/salt.rs"], [("csprng fill_bytes / generate", "src/crypto/csprng.rs")], over=("histories", "schedules", "inputs"))

p("C20", "Event serialization is faithful: raw, fields, size and digest agree",
  "An event built from its fields (version string first) serializes to compact JSON in field order whose version string states its exact byte length and protocol, and reading those bytes back (with any bytes following) gives the same fields (floating-point values as the JSON reader reads them), size, identifier, version and bytes; the event's raw bytes are exactly the leading stated-size bytes. Events whose stated size exceeds the data, whose version, protocol or serialization kind is wrong or absent, or whose identifier field is not a digest of the expected code are refused, and signature and pretty accessors reflect the same content.",
  "all field maps with a version string and identifier x trailing data x mutated sizes/versions",
  "Tests use a handful of fixed events.",
  ["src/core/serder.rs", "src/core/sadder.rs", "src/core/common.rs", "src/data.rs"], [("populate_from_raw/ked/said", "src/core/sadder.rs"), ("sizeify/sniff/versify", "src/core/common.rs")])

p("C21", "Key-event accessors return exactly what the event says",
  "For every key event, the accessors for prefix, sequence number, prior event, signing threshold and next threshold, current keys, next-key digests, witnesses, seals and establishment status return exactly the corresponding fields in order (sequence numbers as hexadecimal of any size up to 128 bits, the first-seen number as encoded number text, keys and digests as their typed primitives), and report absence or an error, never a made-up or partial value, when the field is missing or malformed. Establishment is true exactly for inception, rotation and their delegated forms.",
  "all event kinds x field values x missing or malformed fields",
  "Tests read accessors of two or three fixed events.",
  ["src/core/serder.rs"], [("verfers/digers/tholder/ntholder/werfers/sner/est ...", "src/core/serder.rs")])

p("C22", "Credential accessors and serialization are faithful",
  "A credential built from its fields or read from its bytes reports exactly its identifier, issuer, schema, subject (null when absent), status registry and chained sources as in the fields; its bytes carry the credential protocol tag and its exact size, and any other protocol, missing version or missing identifier is refused. Building from fields and reading back the bytes agree.",
  "all credentials with optional fields present or absent x trailing bytes x wrong protocol tags",
  "Tests use one or two fixed credentials.",
  ["src/core/creder.rs", "src/core/sadder.rs"], [("accessors and version check", "src/core/creder.rs")])

p("C23", "Structured data keeps content and order through JSON",
  "Converting any JSON document into structured data and back yields the same document: same nesting, same object field order, same strings under any escaping, same booleans and nulls, and numbers of the same value (64-bit integers and doubles); serialization is compact, and parsing it again gives an equal value. Lookup, insertion, replacement, removal and iteration on objects behave as an insertion-ordered map and on arrays as a list, and conversions to a type other than the stored one are refused.",
  "all JSON documents (unicode, control characters, extreme integers, floats, deep nesting) x edit sequences",
  "Tests use small literals.",
  ["src/data.rs"], [("Value/Number conversions, to_json, Index/IndexMut", "src/data.rs")], over=("inputs", "histories"))

p("C24", "Paths resolve, compare and strip consistently",
  "A path encodes its components so that text form, component list and CESR form round-trip for components of Base64URL characters that are non-empty and without the separator '-' (components with characters outside Base64URL are refused), and resolving it on any document returns exactly the value reached by following field names and list positions (a number selects by position in lists and objects alike), or an error when a step does not exist. A path is recognised as under another exactly when its text form starts with the other's, rooting it at another path prepends that path's components, and stripping a leading path removes exactly that many leading components and otherwise leaves the path unchanged.",
  "all paths (labels and indices, repeated components) x all documents x pairs of paths",
  "Tests resolve a few paths on one fixture.",
  ["src/core/pather.rs", "src/core/bexter.rs"], [("resolve/starts_with/strip/root/tail/bextify", "src/core/pather.rs")])

p("C25", "Base64 text primitives carry any Base64URL text of any length exactly",
  "Any text over the Base64URL alphabet (other than the documented case of a multiple-of-four text starting with 'A') is carried and given back exactly through every construction route, with a code reflecting its length class, and any text with a character outside the alphabet is refused.",
  "all texts over the alphabet, all lengths modulo 4 up to and beyond the small-size limit, and texts with foreign characters",
  "Tests use lengths 0 to 5 with a few characters.",
  ["src/core/bexter.rs", M], [("rawify/bext", "src/core/bexter.rs")])

p("C26", "Numbers and sequence numbers keep their value in the smallest code",
  "Every unsigned integer up to 128 bits survives as a number or sequence number through integer, hexadecimal, raw, text and binary forms; a number uses the smallest of its codes that holds it (2, 4, 8 or 16 bytes, big-endian) while a sequence number always uses 16 bytes, and both report hexadecimal and value consistently (positive exactly when non-zero). Values that are not hexadecimal (an empty number text aside, which is zero) or exceed 128 bits are refused, never truncated or wrapped.",
  "all integers incl. every width boundary +-1 x all forms; malformed hexadecimal",
  "Tests use a few literals per code.",
  ["src/core/number.rs", "src/core/seqner.rs"], [("code selection and num/numh/sn/snh", "src/core/number.rs"), ("sn/snh", "src/core/seqner.rs")])

p("C27", "Datetimes keep their instant and text exactly",
  "Any valid 32-character ISO 8601 datetime with microseconds and offset is carried and returned unchanged through text, bytes, binary and raw forms, and its encoded form is the Base64-safe translation of it (':' to 'c', '.' to 'd', '+' to 'p'); text that is not exactly 32 characters of the encodable alphabet is refused. The default datetime is the current UTC instant in that format.",
  "all datetimes across years, offsets (positive and negative) and microseconds x construction routes; malformed strings",
  "Tests use one or two instants.",
  ["src/core/dater.rs"], [("iso_8601_to_b64/b64_to_iso_8601, dts", "src/core/dater.rs")])

p("C28", "Version strings and sniffing are exact inverses",
  "For every protocol, version (digits up to 15), serialization kind and size (up to ffffff) the version string is exactly 17 characters of the standard layout, parsing it returns the same protocol, kind, version and size, and anything not matching is refused. Sniffing finds the version string when it starts in the first bytes of an event and reports the same values, and refuses data that is too short, has none, or has it too late; sizing a document (its version field first) restates only its version string, with the true length, keeping protocol, version and (unless overridden) kind.",
  "all (protocol, kind, major, minor, size) combinations; mutated strings; all offsets of the version string in data",
  "Tests cover a handful of literals.",
  ["src/core/common.rs"], [("versify/deversify/sniff/sizeify", "src/core/common.rs")])

p("C29", "Secret material is wiped from memory when its owner is dropped",
  "When a salt or signer, built in any way, is dropped, no memory block that its owner held still contains its secret bytes at the moment the block is released; and using a signer or salt (signing, deriving signers, encoding to text) leaves no unwiped copy of the secret seed in memory released by those operations, apart from copies handed to the caller.",
  "all secrets x suites x histories of operations, observed at every release of heap memory",
  "No test looks at freed memory; only an allocator-level monitor can observe it.",
  ["src/core/signer.rs", "src/core/salter.rs", "src/crypto/sign.rs", "src/crypto/salt.rs", M], [("Drop/ZeroizeOnDrop", "src/core/signer.rs"), ("Zeroizing buffers", M)], over=("inputs", "histories"), observe=["global allocator dealloc/realloc"])

p("C30", "Operations are memory-safe, pure and thread-independent",
  "Running any mix of operations concurrently from many threads, including the very first use of each operation, gives for each deterministic operation exactly the result it gives alone on one thread, with no data race, undefined behaviour or invalid memory access. Verifying, comparing, encoding and reading never change the value or the document they are applied to, and repeating a deterministic operation gives the same result.",
  "all thread interleavings of mixed workloads (1 to 16 threads, cold start included) and all operation orders",
  "Tests run single operations; races and hidden state only show under concurrent and repeated use with sanitizers.",
  ["src/core/common.rs", "src/core/tholder.rs", "src/core/bexter.rs", "src/core/verfer.rs", "src/data.rs", "src/crypto/sign.rs"], [("lazily initialised statics only; &self receivers", "src/core/common.rs")], over=("schedules", "histories", "inputs"))

p("C31", "The WebAssembly bindings behave exactly as the core library",
  "Every exported wrapper builds from the same inputs, returns the same values and accepts or refuses the same inputs as the core operation it wraps: codes listed by the exported code tables equal the core tables, 128-bit integers cross the boundary without loss in both directions, and encodings, keys, signatures verified, digests, thresholds, dates and event fields equal the core results. No wrapper crashes on input that the core accepts.",
  "all wrapper types and methods callable on the host x generated inputs",
  "The bindings have no host tests at all.",
  ["wasm/src/util.rs", "wasm/src/primitives/codex.rs", "wasm/src/primitives/serder.rs", "wasm/src/primitives/signer.rs", "wasm/src/primitives/salter.rs", "wasm/src/primitives/tholder.rs", "wasm/src/primitives/number.rs", "wasm/src/primitives/siger.rs"], [("wrapper conversions", "wasm/src/util.rs"), ("code tables", "wasm/src/primitives/codex.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
