#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the 28 lines stay consistent)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

LIB = "src/lib.rs"; FOR = "src/foreign.rs"
JS = "ser-write-json/src/ser.rs"; JD = "ser-write-json/src/de.rs"; B64 = "ser-write-json/src/base64.rs"
MS = "ser-write-msgpack/src/ser.rs"; MD = "ser-write-msgpack/src/de.rs"; ML = "ser-write-msgpack/src/lib.rs"

prop("C01", "A successful write appends exactly the given bytes",
 "For every provided in-memory writer (slice writer, Vec, VecDeque, arrayvec, heapless vec and view, smallvec, tinyvec array/slice/tiny vec, and a writer used through a mutable reference), a write of bytes, of a single byte or of a string that returns Ok leaves the previously written content untouched and followed by exactly those bytes, in order. A write through std::io::Cursor that returns Ok stores exactly those bytes at the cursor position and advances it by their number.",
 ["inputs", "histories"], "every writer content, every byte string written (including empty ones), every sequence of writes",
 "The tests perform one fixed three-write history per writer; an off-by-one at a particular fill level or length is not sampled.",
 [LIB, FOR], [("SerWrite::write / write_byte / write_str of each writer", FOR), ("SliceWriter::write", LIB)],
 [("SliceWriter.len", "number of bytes written", LIB)], ["the writer's content after each call"])
prop("C02", "A full fixed-capacity writer refuses and keeps its content",
 "A write to a fixed-capacity in-memory writer (slice writer, arrayvec, heapless vec and view, tinyvec array and slice vec) succeeds exactly when the data fits in the remaining capacity. When it does not fit the write returns an error, nothing is stored, and the length and previously written content stay as they were.",
 ["inputs", "histories"], "every capacity, fill level and written length, around the exact-fit boundary in particular",
 "Tests overflow each writer once, at one fill level, by one byte.",
 [LIB, FOR], [("bounds check through get_mut / try_extend / try_push / grab_spare_slice", FOR), ("SliceWriter::write", LIB)])
prop("C03", "Slice writer accounting and split are exact",
 "For a slice writer, length plus remaining capacity always equals capacity, the readable view is exactly the bytes written since creation or the last clear, and clear makes it empty without changing capacity. Splitting yields the written bytes as one slice and an empty writer over exactly the unwritten rest of the buffer, so later writes never touch the part split off.",
 ["inputs", "histories"], "every buffer and every sequence of write, clear and split calls",
 "One example history is tested.",
 [LIB], [("SliceWriter::{new,len,is_empty,capacity,rem_capacity,clear,split,as_ref,as_mut}", LIB)],
 [("SliceWriter.buf/len", "buffer and fill level, len <= buf.len()", LIB)])
prop("C04", "JSON integers are written as exact canonical decimals",
 "Serializing any value of any of the eight integer types u8..u64 and i8..i64 to JSON writes exactly its canonical decimal text: an optional minus sign, no plus sign, no leading zeros, no other characters. The text denotes exactly that value, including the minimum and maximum of each type.",
 ["inputs"], "all 2^64 values of each 64-bit type and all values of the smaller ones",
 "Tests sample a handful of values per type.",
 [JS], [("digit loops into a fixed buffer (serialize_signed!/serialize_unsigned!)", JS)])
prop("C05", "JSON strings are escaped exactly and stay valid UTF-8",
 "Serializing any string, char, formatted Display value or name to JSON writes a double quote, the text, and a double quote, where the quote, the backslash and every control character below U+0020 are replaced by their JSON escape (two-character form where one exists, otherwise \\u00XX) and every other character is written unchanged. No raw control character, quote or backslash appears between the quotes, and what is written is valid UTF-8 that unescapes to the original text.",
 ["inputs"], "all strings, of any length and any placement of special characters, also when written in several pieces",
 "Tests use a few literal strings; the chunking logic between escapes depends on arbitrary placement.",
 [JS], [("format_escaped_str_contents with ESCAPE table", JS), ("StringCollector, collect_str, serialize_char", JS)])
prop("C06", "JSON output of any value is structurally one well-formed value",
 "For every sequence of serializer calls that follows serde's protocol, a successful serialization to JSON writes exactly one JSON value with compact syntax: elements and entries separated by single commas with none leading or trailing, keys and values separated by one colon, every opened bracket and brace closed by the matching one, and unit-like values written as null and booleans as true or false. Newtype, tuple and struct variants are written as a one-entry object keyed by the variant name, unit variants as the name string, and non-finite floats as null.",
 ["inputs", "histories"], "all nestings and lengths of sequences, tuples, maps, structs and enum variants, including empty ones",
 "Tests use a fixed set of shapes.",
 [JS], [("SeqMapSerializer with its first flag", JS), ("serialize_* of Serializer", JS)],
 [("SeqMapSerializer.first", "no element written yet", JS)])
prop("C07", "JSON object keys are always strings",
 "When serializing a map to JSON, integer, boolean, char, string and unit-variant keys (also inside newtypes) are written as JSON strings whose content is the value's ordinary JSON text, with exactly one pair of quotes. Every other kind of key (floats, bytes, null, options, units, sequences, maps, structs, data-carrying variants) is refused with an error, so no output reported as successful has a key that is not a string.",
 ["inputs", "programs"], "every key value and every key kind serde can produce",
 "Tests check a few key types; refusal must hold for all other kinds.",
 [JS], [("KeySer", JS)])
prop("C08", "JSON byte encodings are exact",
 "Serializing any byte slice to JSON writes, according to the chosen encoding: an array of the decimal byte values, a string of two uppercase hexadecimal digits per byte, a string with its unpadded standard-alphabet base64 encoding, or the bytes verbatim. The text-producing encodings produce ASCII that denotes exactly those bytes, for every length.",
 ["inputs"], "all byte slices of all lengths",
 "Tests use a few literal slices.",
 [JS, B64], [("ByteEncoder implementations", JS), ("hex / hex_4bit / serialize_bytes_as_hex_str", JS)])
prop("C09", "A failing writer is never reported as success",
 "If the underlying writer returns an error at any write while a value is being serialized to JSON or MessagePack, serialization returns an error and never Ok. No further bytes are written after the failing write, so the bytes accepted by the writer are a prefix of the complete encoding. (Display implementations are assumed to pass formatter errors on.)",
 ["fault_sequences", "inputs"], "every value and every position at which the writer can fail",
 "Tests exercise a failing writer only for a few values and capacities.",
 [JS, MS, B64], [("? propagation of writer errors on every write call", JS), ("same", MS), ("encode/Base64Write", B64)])
prop("C10", "Base64 encoding and decoding are exact inverses",
 "Encoding any byte slice writes exactly its standard-alphabet base64 text without padding and returns the number of padding characters (0 to 2) that would complete it to a multiple of four. In-place decoding of any slice stops at the first character outside the alphabet, reports how many characters were consumed and how many bytes they decode to, stores exactly those bytes at the front, and never reads or writes outside the slice; decoding an encoding gives the original bytes back.",
 ["inputs"], "all byte slices, all lengths modulo 3 and 4, all positions of the first foreign character",
 "Tests use fixed vectors.",
 [B64], [("encode / decode", B64)])
prop("C11", "JSON deserialization never panics or leaves its buffer",
 "Deserializing any byte slice as JSON into any type whose own code does not panic never panics, never overflows and never accesses memory outside the slice, whatever the bytes are; it returns a value or an error (exhaustion of the call stack by unbounded nesting aside). String and byte slices lent out of the buffer lie inside it, never overlap one another or the part still to be parsed, and keep their content while parsing continues.",
 ["inputs"], "all byte slices, valid or not, all target types and byte decoders",
 "Tests use well-formed or specially malformed inputs only.",
 [JD, B64], [("checked slice access, cursor arithmetic", JD), ("split_input (unsafe)", JD), ("parse_array_bytes_content raw writes", JD)],
 [("Deserializer.input/index", "unparsed buffer and cursor, index <= input.len()", JD)])
prop("C12", "JSON strings are decoded exactly or rejected",
 "Deserializing a JSON string accepts exactly the strings terminated by an unescaped quote whose content has no raw control character below U+0020, only the eight simple escapes or \\uXXXX of a non-surrogate code point, and valid UTF-8 where text is expected. The result is the content with each escape replaced by the character it denotes and everything else unchanged, and parsing continues right after the closing quote.",
 ["inputs"], "all string contents: any placement, number and combination of escapes and multi-byte characters",
 "In-place compaction depends on how many escapes precede each chunk; tests sample a few combinations.",
 [JD], [("parse_str_bytes_content, parse_str_content, UNESCAPE, parse_uuuu", JD)])
prop("C13", "JSON integers are decoded exactly or rejected",
 "Deserializing a JSON integer into any of the eight integer types returns exactly the denoted value when it fits the type, and an error otherwise; it never wraps, truncates or saturates. Only an optional minus sign (signed types only) followed by zero, or by a nonzero digit and further digits, is consumed, up to the first character that is not a digit.",
 ["inputs"], "all digit strings of all lengths, all types, boundary values in particular",
 "Tests sample values around some limits.",
 [JD], [("parse_unsigned, parse_signed, parse_positive_number, parse_negative_number, NumParseTool", JD)])
prop("C14", "JSON byte strings and byte arrays are decoded exactly or rejected",
 "Deserializing bytes from JSON yields, for the chosen decoder, exactly the bytes denoted: the unescaped string, pairs of hexadecimal digits of either case, or base64 with optional padding; and from a JSON array of integers 0..=255 exactly those values in order. Anything else (odd or foreign hex digits, foreign base64 characters, out-of-range numbers, missing terminator or separator) is an error, and parsing continues right after the terminator.",
 ["inputs"], "all contents and lengths, all decoders",
 "Tests use a few literals per decoder.",
 [JD, B64], [("parse_hex_bytes_content, parse_base64_bytes_content, parse_array_bytes_content", JD)])
prop("C15", "JSON structural syntax is enforced",
 "Deserializing sequences, maps, structs and enum variants from JSON accepts elements and entries only when separated by exactly one comma, keys only as strings followed by a colon, and closing by the matching bracket; leading, trailing, doubled or missing commas, missing colons, wrong or missing closers are errors. Surplus elements, and anything but whitespace after the top-level value, are errors, and whitespace is accepted between all tokens.",
 ["inputs"], "all inputs and nestings",
 "Tests try a few malformed inputs per rule.",
 [JD], [("CommaSeparated next_element_seed/next_key_seed/next_value_seed", JD), ("deserialize_seq/map/enum closers, end()", JD)],
 [("CommaSeparated.first", "no element seen yet", JD)])
prop("C16", "Skipping an unknown JSON value consumes exactly that value",
 "When a JSON value is ignored (unknown struct fields, ignored elements), exactly that value is consumed: parsing continues right after it whatever its content, including strings with any number of backslashes before quotes, nested containers and numbers. The values deserialized after it are the same as if it had been absent, and a string that is not terminated or contains a raw control character is an error.",
 ["inputs"], "all ignored values and continuations",
 "Tests ignore a few literals.",
 [JD], [("deserialize_ignored_any, eat_str_content, match_float", JD)])
prop("C17", "JSON object keys decode to typed map keys exactly",
 "Deserializing a JSON object key into an integer, boolean, char, string or unit-variant key type returns exactly the value the quoted text denotes and consumes exactly the quoted key. A key whose text is not such a value, is out of range, or has extra characters before the closing quote is an error (whitespace before a number or boolean inside the quotes is tolerated).",
 ["inputs"], "all key texts and key types",
 "Tests use a few keys.",
 [JD], [("MapKey", JD)])
prop("C18", "MessagePack numbers use the smallest exact encoding",
 "Serializing any integer of any of the eight integer types to MessagePack writes a single well-formed MessagePack integer that denotes exactly that value, in the fewest bytes that the value needs. Floats are written as float 32 or float 64 with exactly the bit pattern of the value, booleans and nil as their one-byte codes.",
 ["inputs"], "all values of all integer and float types, in all three serializer flavours",
 "Tests sample boundary values of one flavour.",
 [MS, ML], [("serialize_i*/u*, write_u32", MS), ("format constants", ML)])
prop("C19", "MessagePack string, binary and container headers match their payload",
 "Serializing a string, char, displayed value or byte slice to MessagePack writes the shortest str or bin header that states exactly the payload's byte length, followed by exactly the payload. Array and map headers state exactly the declared number of elements in the shortest form, and a length that MessagePack cannot express is refused.",
 ["inputs"], "all payloads and lengths, around 31/32, 255/256, 65535/65536 in particular",
 "Tests cover several but not all boundaries, and not in all flavours or the no-allocator configuration.",
 [MS], [("write_str, write_str_len, write_array_len, write_map_len, serialize_bytes, collect_str", MS)])
prop("C20", "MessagePack containers are never reported Ok with a wrong count",
 "Whenever serializing a sequence, tuple, map, struct or enum variant to MessagePack returns Ok, the number of elements or entries written equals the count in the header; supplying more or fewer than declared, or not declaring a count, is an error. Structs are written as arrays of values, maps keyed by field index, or maps keyed by field name according to the serializer used, skipped fields keep the indexes of later fields, and variants are keyed by index or name likewise.",
 ["inputs", "histories"], "all declared lengths and call sequences, including skipped fields, in all three flavours",
 "Tests use correct call sequences for a few shapes.",
 [MS], [("SerializeSeqMap / SerializeStructArray / SerializeStructIntMap / SerializeStructStrMap counters", MS)],
 [("len, idx", "elements still owed, next field index", MS)])
prop("C21", "MessagePack deserialization never panics or leaves its buffer",
 "Deserializing any byte slice as MessagePack into any type whose own code does not panic never panics, overflows or reads outside the slice, on 32-bit and 64-bit targets alike; it returns a value or an error (exhaustion of the call stack by unbounded nesting aside). The cursor only moves forward and never past the end of the slice.",
 ["inputs"], "all byte slices, valid or not, all target types",
 "Tests use well-formed or specially truncated messages on one 64-bit target.",
 [MD], [("fetch/peek/split_input/fetch_array bounds checks, eat_message length arithmetic", MD)],
 [("Deserializer.input/index", "unparsed input and cursor", MD)])
prop("C22", "MessagePack numbers are decoded exactly or rejected",
 "Deserializing an integer from any of the MessagePack integer formats into any of the eight integer types returns exactly the encoded value when it is representable and an error otherwise. Floats are returned with exactly the encoded bits when the width matches, converted numerically from the other width or from integers, and nil reads as NaN; exactly the bytes of that number are consumed.",
 ["inputs"], "all encodings of all integers and floats, all target types",
 "Tests sample values per format.",
 [MD], [("parse_integer, fetch_*, deserialize_f32/f64", MD)])
prop("C23", "MessagePack strings and binaries are decoded exactly, zero-copy",
 "Deserializing a MessagePack string or binary returns exactly the payload announced by the header, borrowed from the input at that place, and continues right after it. A payload longer than the input is an error, text that is not valid UTF-8 is an error, and a char is accepted exactly when the string is one character.",
 ["inputs"], "all headers, payloads and truncation points",
 "Tests use a few literals.",
 [MD], [("parse_str, parse_bytes, split_input", MD)])
prop("C24", "Skipping a MessagePack item consumes exactly one item",
 "Consuming or ignoring one MessagePack item advances the cursor by exactly the encoded length of that item, for every format including nested containers and extension types, without touching what follows. It fails with an end-of-input error when the item is truncated and rejects the reserved code.",
 ["inputs"], "all items of all formats, all nestings and truncation points",
 "Tests cover each format with one or a few literals.",
 [MD], [("eat_message, eat_seq_items, eat_map_items, deserialize_ignored_any", MD)])
prop("C25", "MessagePack containers are consumed completely",
 "Deserializing a sequence, tuple, map or struct from MessagePack hands out exactly the announced number of elements or entries in order, and succeeds only if all of them were consumed; otherwise it returns an error. On success the reported message length, or the returned tail, is exactly the end of the top-level item, and truncated input is an error.",
 ["inputs", "histories"], "all lengths, nestings and target types, any trailing data",
 "Tests use a few lengths.",
 [MD], [("CountingAccess, deserialize_seq/map/struct, from_slice, from_slice_split_tail, end", MD)],
 [("CountingAccess.count", "elements not handed out yet", MD)])
prop("C26", "MessagePack structs, enums and options accept all documented forms",
 "A struct is deserialized from an array or a map; field and variant identifiers from strings or unsigned integers; a unit variant from a bare identifier and a data-carrying variant only from a one-entry map; an option from nil or its value. Any other form is an error, and self-describing deserialization presents each format code to the visitor as the type it encodes while reserved and extension codes are refused.",
 ["inputs"], "all first bytes and forms",
 "Tests use a few forms per type.",
 [MD], [("deserialize_struct, deserialize_enum, deserialize_identifier, deserialize_option, deserialize_any", MD)])
prop("C27", "JSON serialization round-trips",
 "For every integer, boolean, string, char, byte slice (with the array, hex or base64 encoding and the matching decoder), and every sequence, map, struct, option and enum built from them whose serialization succeeds, deserializing the produced JSON into the same type returns an equal value and consumes the whole text. Options whose payload itself is written as null are excluded.",
 ["inputs"], "all values of all supported types",
 "Tests round-trip a few values.",
 [JS, JD, B64], [("serializer and deserializer contracts composed", JS), ("same", JD)])
prop("C28", "MessagePack serialization round-trips in every flavour",
 "For every integer, float, boolean, string, char, byte slice, and every sequence, map, struct, option and enum built from them whose serialization succeeds with any of the three serializers, deserializing the produced bytes into the same type returns an equal value (floats that are not NaN with the same bits) and consumes exactly those bytes, also when other data follows. Options whose payload itself is written as nil are excluded.",
 ["inputs"], "all values of all supported types, all flavours, any trailing data",
 "Tests round-trip a few values.",
 [MS, MD], [("serializer and deserializer contracts composed", MS), ("same", MD)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
