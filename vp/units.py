# verification units: which crate source is extracted, how it is expanded, and against which contracts
UNITS = {
  "core": dict(pkg="ser-write", args=["--all-features"], rustflags=[], spec="core.spec"),
  "mp_de": dict(pkg="ser-write-msgpack", args=[], rustflags=[], spec="msgpack_de.spec"),
  "mp_ser": dict(pkg="ser-write-msgpack", args=[], rustflags=[], spec="msgpack_ser.spec"),
  "mp_ser_nostd": dict(pkg="ser-write-msgpack", args=["--no-default-features"], rustflags=[], spec="msgpack_ser_nostd.spec"),
  "json_ser": dict(pkg="ser-write-json", args=[], rustflags=[], spec="json_ser.spec"),
  "json_de": dict(pkg="ser-write-json", args=[], rustflags=[], spec="json_de.spec"),
  "json_de_rel": dict(pkg="ser-write-json", args=[], rustflags=["-C", "debug-assertions=off"], spec="json_de.spec"),
  "b64": dict(pkg="ser-write-json", args=[], rustflags=[], spec="json_b64.spec"),
}
# property -> units that carry its obligations
PROPS = {
  "C01": ["core"], "C02": ["core"], "C03": ["core"],
  "C21": ["mp_de"], "C22": ["mp_de"], "C23": ["mp_de"], "C24": ["mp_de"], "C25": ["mp_de"], "C26": ["mp_de"],
  "C18": ["mp_ser"], "C19": ["mp_ser", "mp_ser_nostd"], "C20": ["mp_ser"], "C28": ["mp_ser", "mp_de"], "C27": ["json_ser", "json_de"],
  "C10": ["b64"],
  "C11": ["json_de", "json_de_rel"], "C12": ["json_de"], "C13": ["json_de"], "C14": ["json_de", "json_de_rel"], "C15": ["json_de"], "C16": ["json_de"], "C17": ["json_de"],
  "C04": ["json_ser"], "C05": ["json_ser"], "C06": ["json_ser"], "C07": ["json_ser"], "C08": ["json_ser"], "C09": ["json_ser", "mp_ser"],
}
_MPDE = "Every function of ser-write-msgpack's de.rs that the property depends on is under contract and all its obligations are discharged for all inputs (no bound). "
_COMMON = " Assumed: serde clients obey the contracts on serde's traits; library contracts listed in the evidence's trusted_base; stack exhaustion excluded."
_JDE = "Every function of ser-write-json's de.rs that the property depends on is under contract and all its obligations are discharged for all inputs (no bound). "
_MPSER = "Every function of ser-write-msgpack's ser.rs (three serializer flavours, compound serializers, header writers, collectors) is under contract and all its obligations are discharged for all inputs (no bound). "
_JSER = "Every function of ser-write-json's ser.rs (value serializer, key serializer, compound serializers, byte encoders, string collector, entry points) is under contract and all its obligations are discharged for all inputs (no bound). "
_CORE = "Every SerWrite implementation of src/lib.rs and src/foreign.rs (all features on) is under contract and all its obligations are discharged for all inputs (no bound). The containers of std, arrayvec, heapless, smallvec and tinyvec are dependencies: contracts on their methods are assumed (listed in the evidence). "
NOTES = {
  "C01": _CORE + "write, write_byte and write_str append exactly their bytes when they return Ok and never panic; the writer's content is otherwise kept.",
  "C02": _CORE + "A write that does not fit returns an error and leaves the content as it was; one that fits succeeds.",
  "C03": _CORE + "SliceWriter: length, capacity, views, split and rem account for exactly the bytes written.",
  "C04": _JSER + "Each integer method appends exactly the decimal text of its argument." + _COMMON,
  "C05": _JSER + "Strings, chars and collected strings: the appended bytes are the quoted, escaped text; every other byte of the string is kept; every intermediate slice is on a character boundary." + _COMMON,
  "C06": _JSER + "Each serializer method and every client call sequence over the compound serializers appends exactly one value of the JSON grammar; to_string returns that text. The float text comes from ryu-js (assumed to be a JSON number)." + _COMMON,
  "C07": _JSER + "The key serializer appends a JSON string or refuses without writing." + _COMMON,
  "C08": _JSER + "Each byte encoder appends exactly its text of the bytes." + _COMMON,
  "C09": "Both serializers: every write needs a writer that has not failed yet, Ok implies that no write failed, and what has been written is only ever extended. That the bytes before a failure are a prefix of the failure-free output follows from the contracts on a meta level (determinism up to the first failure)." + _COMMON,
  "C10": "Every function of ser-write-json's base64.rs is under contract and all its obligations are discharged for all inputs (no bound): encode appends exactly the unpadded RFC 4648 text, decode replaces exactly the longest alphabet run by the bytes it denotes, in place." + _COMMON,
  "C11": _JDE + "Panic freedom, no arithmetic overflow, cursor inside the buffer, raw-slice splitting only of parts that exist." + _COMMON,
  "C12": _JDE + "String decoding in place returns exactly the content the escape theory assigns to the text, or refuses." + _COMMON,
  "C13": _JDE + "Integers: exactly the number written, or refused when it does not fit; floats: the text handed to core's parser is exactly the number token (the parser itself is assumed)." + _COMMON,
  "C14": _JDE + "Byte strings in all four encodings decode in place to exactly the bytes the text denotes." + _COMMON,
  "C15": _JDE + "Whitespace, literals, commas, colons, brackets and the end of the document: what each reader accepts and where it stops is fixed by the recursive text theory." + _COMMON,
  "C16": _JDE + "Skipped values end exactly where the theory ends them." + _COMMON,
  "C17": _JDE + "Typed map keys: the whole quoted key is the value's text and is consumed with its closing quote." + _COMMON,
  "C18": _MPSER + "The bytes appended for a number are the shortest encoding of that number in the format theory; floats keep their bits." + _COMMON,
  "C19": _MPSER + "Strings, byte strings and container headers: shortest header for the length, then the payload; also the no_std expansion with its length-counting collectors." + _COMMON,
  "C20": _MPSER + "Compound serializers count entries; serializing client protocols (sequences, tuples, maps, structs, variants, three flavours) are verified against the contracts to append exactly one item." + _COMMON,
  "C27": "Value level: for every scalar, string, byte string and key the deserializer's contracts read back exactly what the serializer's contracts fix (lemmas over the two contract sets, each discharged against the code), and whatever satisfies the serializer's value grammar is consumed to its last byte by the deserializer's text theory, to any depth. The induction over nested typed values and serde's derived clients is not machine-checked; float text is assumed to parse back." + _COMMON,
  "C28": "Value level: the deserializer's contracts read back exactly what the serializer's contracts fix, whatever bytes follow (lemmas over the two contract sets, each discharged against the code). The induction over nested values and serde's derived clients is not machine-checked." + _COMMON,
  "C21": _MPDE + "Panic freedom, no arithmetic overflow (32- and 64-bit usize), cursor monotone and inside the input." + _COMMON,
  "C22": _MPDE + "parse_integer and every fetch_*/deserialize_* number function return the number the format theory assigns to the bytes." + _COMMON + " Float width conversion is uninterpreted (Rust's `as`).",
  "C23": _MPDE + "Strings and binaries equal the announced payload and are subslices of the input." + _COMMON,
  "C24": _MPDE + "eat_message and everything it calls consume exactly the item defined by the recursive format theory." + _COMMON,
  "C25": _MPDE + "CountingAccess hands out the announced count and containers succeed only at count zero; message length and tail are the item's end." + _COMMON,
  "C26": _MPDE + "The accepted first bytes and the visitor method called are those of the format theory." + _COMMON,
}
NA = {}
