#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as code only to make editing pleasant)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe, hook_needed=hook)))

LIB, FOR = "src/lib.rs", "src/foreign.rs"
JS, JD, JB = "ser-write-json/src/ser.rs", "ser-write-json/src/de.rs", "ser-write-json/src/base64.rs"
MS, MD = "ser-write-msgpack/src/ser.rs", "ser-write-msgpack/src/de.rs"

# ------------------------------------------------------------------ writers
prop("W01", "Every sink appends a write whole and in order, or refuses it",
 "For every supported output sink, any sequence of slice, single-byte and string writes leaves the sink holding its previous content followed by the successful writes in order, whichever of the three methods (or a mutable reference) is used. A bounded sink accepts a write exactly when it fits in the remaining capacity, growable sinks always accept, and refusal is reported as the buffer-full (or I/O) error. A refused write leaves earlier content unchanged, and the sink stays usable: a later write that fits still succeeds.",
 ["histories", "configurations"], "all write sequences (three methods, sizes around the remaining capacity), for all sinks, capacities and pre-filled states in the bound",
 "The unit tests make one short fixed sequence per container; they never interleave the methods, fill to the exact boundary with each method, write after a refusal, or wrap a ring buffer.",
 [LIB, FOR], [("SerWrite impls", FOR), ("SliceWriter::write", LIB)], ["content and length of the sink after every call", "returned results"])
prop("W02", "Memory exhaustion while growing a heap sink is an error, never a panic",
 "If the allocator cannot provide memory while a growable sink is being written, directly or by a serializer, the write returns the buffer-full error instead of panicking or aborting (excepted: the standard I/O cursor, which grows by its own policy, and the temporary text the MessagePack serializer formats display values into, which is not a sink). Everything written before stays intact, and the sink accepts the same write once memory is available again.",
 ["fault_sequences", "histories"], "every position of the failing allocation in every write history / serialization in the bound, for every growable sink",
 "No existing test injects allocation failure.",
 [FOR], [("try_reserve before extending", FOR)], ["results of writes while the k-th allocation fails", "sink content afterwards"])
prop("W03", "The slice writer's accounting always agrees with what was written",
 "At every point of any sequence of write, clear and split operations, the slice writer's reported length, emptiness, total and remaining capacity, and populated view describe exactly the bytes written since the last clear or split. Splitting returns precisely the populated bytes and a writer over exactly the remaining, untouched space. Bytes outside the populated region are never modified.",
 ["histories"], "all operation sequences up to the bound over all small buffer sizes",
 "One linear scenario is tested; no test re-uses a split writer repeatedly, clears in the middle, or checks that unpopulated bytes stay untouched.",
 [LIB], [("SliceWriter", LIB)], ["len, is_empty, capacity, rem_capacity, as_ref, as_mut, split results, raw buffer"])
prop("S01", "A failing writer stops serialization with an error and nothing after it",
 "If the output sink refuses any single write during serialization in either format, the serializer reports an error (the writer's own error, except that for display-formatted text a formatting error is also allowed) and issues no further writes. The bytes already delivered are a prefix of the output that would otherwise have been produced. A bounded sink with exactly enough room always succeeds, and one with any less room always fails.",
 ["fault_sequences", "inputs"], "every failing write position and every capacity from zero to the full length, for every value of every supported kind in the bound, in every serializer flavour",
 "Existing tests truncate a handful of numbers and strings; a swallowed writer error inside a nested value, key, escape or byte encoder is only visible when that exact write fails.",
 [JS, JB, MS], [("error propagation of every output.write", JS), ("error propagation of every output.write", MS)], ["result, number and content of writes delivered to a fault-injecting sink"])

# ------------------------------------------------------------------ JSON
prop("J01", "Serializing any value yields one valid, compact JSON text of the right shape",
 "Serializing any value of the serde data model that is accepted produces exactly one well-formed RFC 8259 JSON text in UTF-8 without insignificant whitespace, whose structure matches the documented table: objects for maps and structs, arrays for sequences and tuples, null for unit, none and non-finite floats, transparent newtypes and options, and externally tagged enum variants. Members and elements appear in serialization order, skipped fields are absent, and the string-returning functions agree with the writer functions for every byte encoding.",
 ["inputs"], "all values of all type shapes up to the nesting and width bound, for all four byte encodings",
 "Tests compare a few dozen literal outputs; separators and brackets depend on combinations of nesting, emptiness, variant kind and position which only systematic combination covers.",
 [JS], [("SeqMapSerializer", JS), ("serialize_*_variant", JS)], ["bytes produced, parsed by an independent strict parser"])
prop("J02", "JSON text escaping is exact for every string and every fragmentation",
 "Every string, character, object key, variant name and display-formatted value is emitted as one quoted JSON string that a conforming parser decodes to exactly the original text. Quotes, backslashes and all control characters below 0x20 are escaped, everything else is emitted verbatim. The result does not depend on how a formatted value is split into fragments.",
 ["inputs"], "every Unicode scalar value alone and in context, every string over a class-representative alphabet up to the bound, every fragmentation of it",
 "Tests use a few sample strings; the escaper's run-splitting logic depends on the positions of escaped and multi-byte characters relative to each other.",
 [JS], [("format_escaped_str_contents", JS), ("StringCollector", JS)], ["bytes of the emitted string literal"])
prop("J03", "Numbers are printed exactly",
 "Every integer of every width is printed as its exact decimal value with no superfluous characters. Every finite float is printed as a valid JSON number that parses back to an equal value at its own precision (only the sign of zero may be dropped), and every non-finite float is printed as null. The same holds for integers used as object keys.",
 ["inputs"], "all 8/16-bit integers, all boundary-structured 32/64-bit integers, a structured grid over all exponents for floats (all 2^32 f32 in the thorough tier)",
 "Tests cover a few constants per width; digit buffers and sign handling fail only at particular magnitudes.",
 [JS], [("serialize_unsigned!/serialize_signed!", JS), ("serialize_ryu!", JS)], ["printed text, re-parsed independently"])
prop("J04", "Object keys are strings; unsupported key types are refused",
 "Map keys that are strings, characters, booleans, integers, unit enum variants, display-formatted values or newtypes of these are emitted as JSON strings with the same text as their value form, quoted once. Any other key type makes serialization fail with the invalid-key error rather than produce a malformed object. Every accepted key deserializes back into a key of the same type with the same value.",
 ["inputs"], "all key kinds including nested newtypes, all boundary values, alone and in multi-entry and nested maps, under all byte encodings",
 "Tests use isolated examples of key kinds; quoting and refusal are decided separately for each of about thirty serializer methods.",
 [JS, JD], [("KeySer", JS), ("MapKey", JD)], ["serialized object text; result of decoding it back"])
prop("J05", "JSON values survive a serialize-deserialize round trip",
 "For every value whose type the format can represent, decoding the serialized text with the matching byte decoding gives back an equal value, consuming the whole text, also for types that choose their form by `is_human_readable`. This holds for each of the byte-array, hexadecimal, base-64 and pass-through encodings with its matching decoder. Non-finite floats come back as NaN, and only the documented ambiguities (an option nested directly inside an option or around unit or a non-finite float) are excepted.",
 ["inputs"], "all values of all type shapes up to the nesting and width bound, times byte flavours",
 "Tests round-trip about a dozen fixed structures; combinations of kinds inside each other, with escapes and byte strings moving data in place, are not covered.",
 [JS, JD, JB], [("serializer/deserializer pairing", JS + ", " + JD)], ["decoded value against the original"])
prop("J06", "Typed JSON decoding accepts exactly the documented grammar for the type",
 "Decoding a document into a type gives the value the document denotes, regardless of insignificant whitespace, member order and unknown members; structs and struct variants decode from objects or arrays, enums from a string or single-member object. Structurally malformed documents (missing or extra separators, wrong brackets, non-string keys, misspelt literals, trailing non-whitespace, wrong arity, missing, duplicate or mistyped members) are rejected with an error and never silently accepted. Absent optional members decode as none.",
 ["inputs"], "all token sequences up to the length bound over an alphabet covering every grammar token, for a family of target types covering every deserialization entry point",
 "Tests check one or two malformed documents per error code; which token follows which in which context is a product space that only enumeration covers.",
 [JD], [("CommaSeparated", JD), ("VariantAccess/UnitVariantAccess", JD)], ["accept/reject and decoded value, against an independent reference decoder"])
prop("J07", "JSON string literals are decoded in place exactly as the standard says",
 "A string literal decodes to exactly the text RFC 8259 assigns to it: all two-character escapes, all four-digit escapes including surrogate pairs for supplementary characters, and verbatim UTF-8. Literals with raw control characters, unknown or truncated escapes, unpaired surrogates, invalid UTF-8 or no closing quote are rejected. The result is independent of where the literal stands in the document and what surrounds it.",
 ["inputs"], "all literals up to the length bound over a class-complete alphabet; all 65536 four-digit escapes; all surrogate pairs (boundary grid in quick, all in thorough)",
 "Tests sample some escapes; the in-place moving algorithm depends on order and spacing of escapes of different expansion sizes.",
 [JD], [("parse_str_bytes_content", JD), ("parse_uuuu", JD)], ["decoded string or rejection"])
prop("J08", "JSON integers decode exactly or are rejected",
 "Decoding an integer literal into an integer type gives exactly its value when it is in the type's range. A literal out of range, with a fraction or exponent, a leading zero, a plus sign, a bare minus or a minus sign for an unsigned type is rejected; values never wrap, saturate or get truncated. The same holds for integers in object keys and byte arrays.",
 ["inputs"], "every value within the bound of every type limit, power of ten and power of two, for all widths and positions; all short digit strings",
 "Tests check MIN/MAX and a few overflows; overflow behaviour is decided digit by digit.",
 [JD], [("parse_positive_number/parse_negative_number", JD), ("parse_unsigned_numkey", JD)], ["decoded integer or rejection"])
prop("J09", "Self-describing JSON decoding reports every kind and exact value",
 "Decoding without a type hint yields null, booleans, strings, arrays and objects as such, integers as exact integers whenever they fit in 64 bits, and every other number as the nearest floating-point value (single precision when that option is selected). Everything the serializer can emit decodes this way to the same content, so untagged, internally tagged and generic value types round trip.",
 ["inputs", "configurations"], "all documents up to the bound over the full token alphabet; number literals around the 64-bit limits; both float options",
 "Tests look at a few literals; number classification depends on literal syntax and magnitude.",
 [JD], [("deserialize_any", JD), ("parse_float_or_int", JD)], ["which visitor callback receives what"])
prop("J10", "Skipping unknown JSON content consumes exactly one value",
 "When a value of any kind is ignored (unknown object members, ignored values, extra content a type does not ask for), the decoder consumes exactly that value, so everything after it decodes as if the ignored value were not there. Strings containing escaped quotes, backslash runs, brackets or commas do not confuse the skip. Malformed nesting or an unterminated string inside ignored content is rejected.",
 ["inputs"], "all JSON values up to the size bound in the ignored position of several container contexts; all string bodies over a quote/backslash/bracket alphabet up to the bound",
 "Tests skip a few fixed values; the backslash-parity logic and nested skipping depend on the precise content.",
 [JD], [("deserialize_ignored_any", JD), ("eat_str_content", JD)], ["decoded neighbours of the skipped value; acceptance of the document"])
prop("J11", "JSON byte strings are encoded and decoded exactly in every encoding",
 "Each byte encoding (number array, upper-case hexadecimal, unpadded base-64, pass-through) emits exactly its definition for every byte string of every length. Each decoder returns exactly the bytes its definition assigns, accepts optional base-64 padding and either hex case, and accepts number arrays under every decoder. Text with a foreign character, an odd hex digit, an out-of-range array element or a missing terminator is rejected, and the in-place base-64 routine reports decoded and consumed lengths exactly.",
 ["inputs"], "all byte strings up to length 2 and pattern byte strings for every length up to the bound; all encoded texts over class alphabets up to the bound",
 "Tests have a handful of vectors; chunk-boundary and in-place-overlap behaviour depends on length modulo the group size and on content bits.",
 [JS, JD, JB], [("base64::encode/decode", JB), ("parse_hex_bytes_content, parse_array_bytes_content", JD)], ["encoded text; decoded bytes; returned lengths"])
prop("J12", "Arbitrary bytes never crash, hang or escape the JSON decoder",
 "Decoding any byte sequence as any type, with any byte decoding, terminates and returns a value or an error: no panic, no access outside the given slice, no unbounded loop, and no work out of proportion to the length of the input (as growing with its square). No byte outside the given slice changes, and no returned string contains invalid UTF-8.",
 ["inputs"], "all byte strings up to the length bound over an alphabet containing every byte the decoder distinguishes, for target types covering every entry point, in debug and release builds",
 "Tests feed a few malformed texts; the decoder writes through raw pointers in release builds only, where tests are normally not run.",
 [JD, JB], [("split_input, parse_array_bytes_content (unsafe)", JD), ("decode (unsafe)", JB)], ["process survival, canary bytes, returned strings"])
prop("J13", "Borrowed JSON strings and bytes are in-place, stable and disjoint",
 "Every borrowed string or byte slice handed out by the decoder lies inside the input slice at the place of its own literal, keeps its content while the rest of the document is decoded, and never overlaps another one. The part of the input not yet parsed is never modified before it is parsed, so escapes and byte decoding cannot corrupt neighbouring values. Decoding is deterministic: equal input gives equal results.",
 ["inputs"], "all documents in the bound containing several strings, keys and byte strings of all encodings with every mix of shrinking escapes",
 "Tests check values of single strings; corruption needs two neighbouring literals with particular escape patterns.",
 [JD], [("split_input", JD), ("parse_str_bytes_content", JD)], ["address range and content of each borrowed slice at visit time and after decoding"])
prop("J14", "Truncated JSON documents are never accepted",
 "Cutting a valid document that denotes a container, string or literal anywhere before its last significant byte always makes decoding fail, and the failure is the unexpected-end error whenever the cut falls where more input is required. A shorter value is never returned in its place. A cut number at top level decodes to the number that remains or fails.",
 ["crash_points", "inputs"], "every prefix of every document in the bound for every target type in the family",
 "Tests truncate a few fixed documents; each parse position has its own end-of-input handling.",
 [JD], [("UnexpectedEof paths", JD)], ["error returned for each prefix"])
prop("J15", "The JSON decoder's public cursor interface is consistent under any sequence",
 "Any sequence of the public cursor operations (peek, skip whitespace, advance, remaining length, split, end, and the parsing helpers) behaves as on a simple cursor over the remaining text: each consumes exactly what it documents, reports remaining length correctly, and yields the documented error at or beyond the end instead of panicking. A custom byte decoder built on it can be mixed with ordinary decoding.",
 ["histories"], "all operation sequences up to the depth bound over several inputs, including advancing past the end",
 "Tests call each helper once in a friendly state.",
 [JD], [("Deserializer inherent methods", JD)], ["results of each call against a reference cursor"])

# ------------------------------------------------------------------ MessagePack
prop("M01", "MessagePack output is the exact minimal encoding the specification defines",
 "Serializing any accepted value produces exactly one well-formed MessagePack message that follows the documented type table, using the smallest representation for every integer, string, binary, array and map header, with unsigned integers and indexes written as `uint`. Structs and variants follow the chosen flavour: arrays with index variants, maps with index keys, or maps with name keys. The vector-returning functions agree with the writer functions.",
 ["inputs"], "all values of all type shapes up to the bound in all three flavours; all integer and length boundaries",
 "Tests compare fixed vectors; header selection changes at about twenty boundaries and differs per method.",
 [MS], [("serialize_*, write_*_len", MS)], ["bytes, parsed and compared with an independent encoder"])
prop("M02", "MessagePack values survive a serialize-deserialize round trip in every flavour",
 "For every value whose type the format can represent, decoding what any of the three serializer flavours produced gives back an equal value and reports exactly the message's length as consumed, also for types that choose their form by `is_human_readable`. Floats keep every bit of their value, including infinities and NaN. Only the documented ambiguities (an option nested directly inside an option or around unit) are excepted.",
 ["inputs", "configurations"], "all values of all type shapes up to the bound, all flavours",
 "Tests round-trip a few structures; combinations are not covered.",
 [MS, MD], [("serializer/deserializer pairing", MS + ", " + MD)], ["decoded value, consumed length"])
prop("M03", "Typed MessagePack decoding gives the denoted value or rejects, at every width",
 "Decoding a message into a type gives the value it denotes for every legal width of every header, not only the minimal one. Structs and struct variants decode from maps (in any key order, with names or indices as keys, ignoring unknown keys) or from arrays, enums from a bare name or index or a single-entry map. Messages with a wrong type, invalid UTF-8, a reserved code, missing, duplicate or surplus elements are rejected and never silently accepted. Where the number of elements left is announced to the reader in advance, it is exact.",
 ["inputs"], "all header codes, all width variants and all message trees up to the bound, for target types covering every entry point",
 "Tests check fixed vectors per code; width variants inside structures, identifier forms and arity errors multiply.",
 [MD], [("deserialize_struct/enum/identifier", MD), ("CountingAccess", MD)], ["accept/reject, value and consumed length against an independent reference decoder"])
prop("M04", "MessagePack numbers convert exactly or are rejected",
 "Any integer representation decodes into any integer type exactly when the value is in range and is rejected otherwise; it never wraps, saturates or changes sign. Float targets take either float width, any integer (nearest value) and nil as NaN. Integer targets refuse floats and everything else.",
 ["inputs"], "all one- and two-byte payloads and all boundary payloads of wider ones, for all ten number types, plus all other leading codes",
 "Tests use the value 1 or -1 for most pairs of representation and type.",
 [MD], [("parse_integer", MD), ("deserialize_f32/f64", MD)], ["decoded number or rejection"])
prop("M05", "Skipping MessagePack content consumes exactly one message of any type",
 "Skipping a message, explicitly or because a field is unknown or a value is ignored, consumes exactly the bytes of that one message for every type including extensions and nested containers of any depth and width, so what follows decodes unaffected. A truncated message gives the unexpected-end error and a reserved code gives its own error.",
 ["inputs"], "all 256 leading codes with boundary lengths, all message trees up to the bound, deep nesting, in explicit and embedded positions, all truncations",
 "Tests skip one sample per code.",
 [MD], [("eat_message", MD)], ["consumed length; decoded neighbours"])
prop("M06", "Every strict prefix of a MessagePack message is an unexpected end",
 "Decoding any strict prefix of a valid message as the type it was accepted for fails with the unexpected-end error, so a caller reading from a stream can tell \"need more data\" from \"malformed\". No shorter value is ever returned.",
 ["crash_points", "inputs"], "every prefix of every message in the bound, for the accepting type",
 "Tests truncate a few scalars and arrays.",
 [MD], [("UnexpectedEof paths", MD)], ["error for each prefix"])
prop("M07", "Arbitrary bytes never crash or hang the MessagePack decoder",
 "Decoding any byte sequence as any type, or skipping it, terminates and returns a value or an error: no panic, no out-of-range access, and no work or memory proportional to a declared but absent length, nor work out of proportion to the length of the input (as growing with its square). The consumed length reported on success never exceeds the input, and no returned string contains invalid UTF-8.",
 ["inputs"], "all byte strings up to the bound over an alphabet with every leading code; hostile declared lengths; deep nesting",
 "Tests feed a few malformed inputs.",
 [MD], [("fetch/split_input bounds checks", MD)], ["process survival, elapsed steps, consumed length"])
prop("M08", "Messages decode one after another from a stream, borrowing in place",
 "Decoding reports exactly how many bytes the message occupied, leaves the rest untouched, and the tail returned by the splitting variant is exactly the remaining input. Concatenated messages of any types therefore decode one by one to the same values as each alone, whatever bytes follow. Borrowed strings and bytes point into the input at their payload's position.",
 ["histories", "inputs"], "all sequences of messages up to the bound with all trailing-byte classes",
 "Tests decode one message per input.",
 [MD], [("from_slice, from_slice_split_tail, split_input", MD)], ["values, consumed lengths, tail address, borrowed addresses"])
prop("M09", "Declared MessagePack lengths always match what is written, or it is an error",
 "Serialization succeeds only if every sequence and map has a known length equal to the number of elements actually emitted and every struct writes the number of fields it announced; any other behaviour of a value (unknown, too small or too large length) is reported as the length error. Skipping struct fields keeps index keys equal to field positions and keeps name keys, and in the array flavour only trailing fields may be skipped. Successful output therefore always parses as exactly one complete message.",
 ["programs", "inputs"], "all announced/actual length pairs and all skip patterns up to the bound for every compound kind, nested, in every flavour",
 "Tests check one mismatch per kind.",
 [MS], [("SerializeSeqMap/SerializeStruct* counters", MS)], ["result and bytes of misbehaving values"])
prop("M10", "Self-describing MessagePack decoding reports every kind and exact value",
 "Decoding without a type hint yields exactly the kind and value of the message for every leading code: nil, booleans, exact integers of any width, both float widths, text, binary, arrays and maps with any key type. Extension types and the reserved code are refused with their own errors. Everything any serializer flavour emits decodes this way to the same content.",
 ["inputs"], "all leading codes with boundary payloads; all message trees up to the bound",
 "Tests check a few codes.",
 [MD], [("deserialize_any", MD)], ["which visitor callback receives what"])
prop("M11", "Display-formatted values serialize to the same MessagePack string in every build",
 "A display-formatted value is emitted as one string message with its exact text, identical with and without heap support and however the text is split into fragments. If formatting fails, or a value formats differently the second time it is formatted, serialization either fails or still emits a well-formed message; it never reports success for a string whose announced length is wrong.",
 ["inputs", "configurations", "programs"], "all fragmentations of texts up to the bound, all length boundaries, all two-pass disagreements up to the bound, builds with and without heap",
 "Tests format constant values; the two-pass path exists only without heap support and is exercised with two samples.",
 [MS], [("collect_str, StringLenCounter, StringCollector", MS)], ["output bytes and result"])
prop("M12", "The MessagePack decoder's public cursor interface is always consistent",
 "Any sequence of the public cursor operations (peek, fetch, advance, remaining length, reference, split, skip, end) interleaved with typed decoding behaves as on a simple cursor over the remaining bytes, each consuming exactly what it documents. At or beyond the end they yield the unexpected-end error instead of panicking.",
 ["histories"], "all operation sequences up to the depth bound over several inputs, including advancing past the end",
 "Tests make one linear sequence of calls.",
 [MD], [("Deserializer inherent methods", MD)], ["results of each call against a reference cursor"])
prop("X01", "Every build configuration behaves the same",
 "For equal inputs the standard, heap-only and heap-less builds, in debug and release mode, produce identical serialized bytes, identical decoded values and the same accept/reject decision with the same kind of error. Enabling optional container support changes nothing else.",
 ["configurations", "inputs"], "the cross product of {std, alloc, none} x {debug, release} over an input corpus enumerated to the bound",
 "The test suite runs each configuration against its own expectations with few inputs, normally only in debug mode, and never compares them.",
 [JS, JD, MS, MD, LIB, FOR], [("cfg(feature), cfg(debug_assertions) alternatives", "all crates")], ["result digests of each configuration"])

prop("S02", "Values serialized one after another never disturb each other",
 "Serializing several values through one serializer, through a fresh serializer per value over the same writer, or mixed with direct writes to the serializer's writer leaves exactly the concatenation of what each would write alone, in both formats and every encoding and flavour. A value that is refused (by the format, by a length check or by its own error) leaves everything written before it intact, and the next value is written exactly as if it were the first.",
 ["histories"], "all sequences up to the depth bound of serializing accepted and refused values, direct writes, and re-wrapping the writer, for every serializer, with owned and borrowed writers",
 "Tests serialize one value per serializer and never use a serializer again after an error.",
 [JS, MS], [("Serializer state, SeqMapSerializer.first, struct serializers", JS), ("CompactSerializer, StructMapIdxSerializer, StructMapStrSerializer", MS)], ["writer content and result after every call"])
prop("S03", "An error raised by a value reaches the caller unchanged and at once",
 "If a value's own Serialize or Deserialize implementation raises an error at any depth, as element, key, field, variant content or option content, the call fails with exactly that error (its message in builds with heap support, the bare custom error otherwise), never with another error and never with success. Nothing more is written or decoded after it, and the bytes written before are a prefix of the full output.",
 ["fault_sequences", "inputs"], "every node of every value tree in the bound, before and after the node, for every serializer and decoder, with typed, self-describing and foreign forms of the input",
 "Tests raise a custom error in at most one top-level place.",
 [JS, JD, MS, MD], [("Error::custom, propagation with ? in every access type", "ser.rs and de.rs of both formats")], ["returned error", "writes and decodes after it"])
prop("X02", "Data written by one version of a type reads as another, as documented",
 "A struct or struct variant written as JSON or as MessagePack with field names reads into any type that reorders, adds or drops fields: common fields keep their values, dropped ones are ignored whole whatever they hold, added optional ones are absent, and an added required field is the reader's own missing-field error. With index keys the same holds for fields appended or dropped at the end, at any count. Enum variants written by name (or index) read into any enum having that name (or index), and are refused otherwise. Whatever follows the record decodes unaffected.",
 ["inputs", "programs"], "all pairs of writer and reader types over ordered selections of fields and variants in the bound, with field types of every kind, in nested contexts, in every self-describing form",
 "Tests use one or two hand-picked pairs of types.",
 [JD, MD, MS], [("identifier, map and ignored-value decoding", "de.rs of both formats"), ("SerializeStructIntMap, SerializeStructStrMap", MS)], ["decoded value of the reader type"])
prop("X03", "Every public entry point for the same job gives the same answer",
 "The convenience functions returning a string or vector, the writer functions, the generic-encoder function and the serializer types used by hand produce identical bytes and errors for every value and every sink, a byte encoder supplied by the caller only replaces the bytes' own text, and the pass-through string function returns a string exactly when the output is valid UTF-8. Likewise all decoding functions and the decoder types used by hand accept, reject and consume alike. JSON reports being human readable at every node and MessagePack reports the opposite, in both directions.",
 ["inputs", "configurations"], "all values and documents (whole, truncated, wrongly typed, with trailing bytes) in the bound through every entry point",
 "Tests exercise each entry point with its own few values and do not compare them.",
 [JS, JD, MS, MD], [("to_string*, to_writer*, to_vec*", "ser.rs of both formats"), ("from_mut_slice*, from_slice*", "de.rs of both formats")], ["results of all entry points"])

prop("J16", "JSON values decode one after another from one deserializer",
 "A JSON deserializer over a mutable slice can be asked for one value after another. Each one decodes exactly as it would alone, ends exactly where its text ends (what remains counts every byte after it), and leaves everything after it untouched however its own escapes or byte strings were decoded in place. Borrowed values handed out earlier stay intact, and ending succeeds exactly when only whitespace remains.",
 ["inputs", "histories"], "all sequences of up to 3 (thorough: 4) typed items of 21 kinds, separators and decoders",
 "Tests decode one document per deserializer.",
 [JD], [("Deserializer: from_mut_slice, remaining_len, end and all deserialize_* methods", JD)], ["value", "remaining length", "borrowed slices", "result of end"])
prop("X04", "Coding needs no memory beyond the caller's buffers",
 "Serializing into a slice and decoding into a target that does not itself allocate request no memory from the allocator in any build, whatever the value, the input or the outcome. Excepted are the text the MessagePack serializer formats display values into and messages raised by the values or targets themselves, both only in builds with a heap.",
 ["inputs", "configurations"], "all values and documents (whole, truncated, wrongly typed) in the bound, allocator requests counted",
 "Tests run with an ordinary allocator and cannot see requests.",
 [JS, JD, MS, MD], [("all serialize_* and deserialize_* methods", "ser.rs and de.rs of both formats")], ["number of allocation requests"])
prop("X05", "A refusal names its documented reason",
 "When decoding refuses a document, the error is the one documented for what is wrong, wherever in the document it is: what was expected instead of the value found (null, string, array, object, struct, enum, number, integer, bin, identifier), which punctuation is missing, leading or trailing, a misspelt token, a control character, a bad escape, code point or length, a number out of range, a variant of the wrong form, too many elements, a reserved code or an unsupported extension, or the end of input.",
 ["inputs"], "all target types, first bytes, punctuation bytes and literal defects in every context of depth 2",
 "Tests assert error kinds for a few dozen documents at top level.",
 [JD, MD], [("enum Error and where each variant is returned", "de.rs of both formats")], ["error kind"])
prop("X06", "An encoding or decoding depends on nothing but its own arguments",
 "Each encoding or decoding gives what it gives when run alone on a fresh thread, whatever else is encoded, decoded or skipped around it: any number of operations before it, complete, refused, malformed, cut short or abandoned by a panic in a value's own code; another one run from inside a value's own code or a sink's write, at any point, on the same thread or another one; and several serializers and deserializers whose values are handled in turns.",
 ["inputs", "histories", "schedules"], "all pairs of operations of a catalog nested at every event, all triples in sequence, every operation repeated up to 1025 times (thorough: 300000), every interleaving of 4 steps of two (thorough: three) codecs",
 "Tests run one operation at a time, complete, and compare nothing with what ran before it.",
 [JS, JD, MS, MD], [("Serializer, Deserializer and the to_*/from_* functions", "ser.rs and de.rs of both formats")], ["result, bytes written, consumed length, borrowed slices"])
prop("X07", "32-bit targets give the same results as 64-bit ones",
 "Built for a target with 32-bit addresses, as the small devices these formats are meant for have, the same value gives the same bytes or refusal and the same document the same value, consumed length or error as on a 64-bit target, and nothing panics or runs on: in particular a declared length or element count of up to 2^32-1 never wraps around, whatever precedes and follows it.",
 ["inputs", "configurations"], "the enumeration of X01 (values, documents, numbers, declared lengths to 2^32-1) run on wasm32 in a release build with heap and a debug build without, every bucket against the 64-bit run",
 "Tests run on the 64-bit development machine only, where none of this arithmetic can overflow.",
 [MD, MS, JD, JS], [("Deserializer::eat_header, split_input and every conversion of a u32 or u64 length to usize", MD), ("serialize_bytes, serialize_str, serialize_seq, serialize_map length headers", MS)], ["bytes", "decoded value", "consumed length", "error kind"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
