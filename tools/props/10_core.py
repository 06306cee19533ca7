CORE = "the BSON document library"

P("P01", "Reading untrusted BSON never panics and accepts only well-framed documents",
  "Whatever bytes are offered to the library as a BSON document, reading them, validating them, iterating over them, looking keys up in them and then reading every value through the accessor for its type either returns an error or succeeds: it never panics, never hangs and never reads outside the bytes given. When reading succeeds the declared length matches the data that was consumed.",
  ["inputs"], "Every byte sequence, including hostile lengths, type bytes and nested content.",
  "The tests read a few dozen hand-written documents; lengths, type bytes and truncation points combine into far more inputs than that.",
  ["document.go", "reader.go", "iterator.go", "element.go", "value.go", "elements/"],
  [("length and bounds validation of elements and values", "value.go validate, reader.go readElements, iterator.go"), ("document decoding", "document.go UnmarshalBSON")],
  "./core",
  "all byte strings up to 14 bytes; a document of 14 types, 330 bytes, nested three levels, cut or with any byte (thorough: two bytes) changed anywhere; every type byte with any key/value bytes up to 8 bytes of body (17 for code-with-scope, 12 for nested documents in the thorough tier).",
  "longer inputs; nesting deeper than the bounded length admits.",
  [H("RawDocument", 90, {"N": 13}, ()), H("RawReader", 60, {"N": 11}, ()), H("TypedDocument", 60, {"N": 8}, ()), H("TypedReader", 60, {"N": 7}, ()), H("LookupRaw", 60, {"N": 12}, ()), H("TypedDocument", 60, {"N": 16, "T": 15}, ()), H("DamagedDocument", 100, {"M": 1}), H("DamagedReader", 100, {"M": 1})],
  [H("RawDocument", 300, {"N": 14}, ()), H("RawReader", 200, {"N": 12}, ()), H("TypedDocument", 300, {"N": 9}, ()), H("TypedReader", 200, {"N": 8}, ()), H("LookupRaw", 100, {"N": 14}, ()), H("TypedDocument", 100, {"N": 17, "T": 15}, ()), H("TypedDocument", 200, {"N": 12, "T": 3}, ()), H("TypedDocument", 200, {"N": 12, "T": 5}, ()), H("DamagedDocument", 600, {"M": 2}), H("DamagedReader", 600, {"M": 2})])

P("P02", "Decoding and re-encoding a document returns the same bytes",
  "Any well-formed BSON document that the library reads is written back byte for byte identical: every key, type, value and their order survive a read followed by a write, whether or not the values were looked at in between. Input that is not a well-formed document is not accepted as one.",
  ["inputs"], "Every well-formed document, of every value type and content; and every malformed one.",
  "Round-trip tests use fixed documents; identity has to hold for every payload of every type, including unusual but legal encodings.",
  ["document.go", "reader.go", "iterator.go", "element.go", "value.go", "array.go", "elements/"],
  [("decoding", "document.go UnmarshalBSON, iterator.go"), ("encoding", "document.go MarshalBSON, element.go writeByteSlice, array.go")],
  "./core",
  "all byte strings of 5 to 13 bytes judged by an independent parser; every type byte with any body up to 8 bytes (16 for code-with-scope); a document of 14 types, 330 bytes, with any byte changed; texts of 9 (thorough: 12) lengths from 64 to 4096 (70000); nesting of 6, 33 and 100 levels; fixed-size types with fully symbolic payloads.",
  "longer documents.",
  [H("RoundTripRaw", 60, {"N": 13}, ()), H("RoundTripTyped", 60, {"N": 8}, ()), H("RoundTripTyped", 60, {"N": 16, "T": 15}, ()), H("RoundTripFixed", 30, None, ()), H("DamagedDocument", 100, {"M": 1}), H("Deep", 60, {"NS": 3, "MSTEPS": 100}), H("BuildOne", 60, {"N": -9, "K": 0, "MSTEPS": 100}, ()), H("RoundTripMany", 60, {"MSTEPS": 100}), H("KeptEncodings", 100, {"MSTEPS": 100})],
  [H("RoundTripRaw", 300, {"N": 15}, ()), H("RoundTripTyped", 300, {"N": 9}, ()), H("RoundTripTyped", 200, {"N": 18, "T": 15}, ()), H("RoundTripTyped", 200, {"N": 12, "T": 3}, ()), H("RoundTripFixed", 30, None, ()), H("DamagedDocument", 600, {"M": 2}), H("Deep", 60, {"NS": 3, "MSTEPS": 100}), H("BuildOne", 100, {"N": -12, "K": 0, "MSTEPS": 100}, ()), H("RoundTripMany", 60, {"MSTEPS": 100}), H("KeptEncodings", 100, {"MSTEPS": 100})])

P("P03", "Built documents encode to exactly the bytes the BSON format defines",
  "A document or array built with the constructors encodes, for every value type and content, to exactly the bytes that the BSON specification defines for those keys and values in that order, including nested documents and arrays, and the size reported by validation equals the number of bytes produced. A key that the format cannot represent is reported as an error rather than written.",
  ["inputs"], "Every value of every type, any key, any nesting.",
  "Tests compare a handful of constants with expected bytes; an encoder defect can depend on the value, the key length or the nesting.",
  ["constructor.go", "x_constructor.go", "element.go", "value.go", "document.go", "array.go", "elements/"],
  [("constructors", "constructor.go"), ("encoding", "element.go writeByteSlice"), ("size calculation", "value.go validate, document.go Validate")],
  "./core",
  "one or two elements of any of 21 value kinds with symbolic content (strings and binaries up to 3 bytes, all numeric bits), symbolic keys up to 2 bytes, nested two levels; texts and keys of 9 (thorough: 12) lengths from 64 to 4096 (70000) bytes; arrays to 101 (1001) entries; nesting to 33 (100) levels.",
  "longer strings and deeper nesting.",
  [H("BuildOne", 60, None, ()), H("BuildNested", 60, None, ()), H("NulKey", 30, None, ()), H("ArrayLong", 30), H("StreamWrite", 30), H("BuildOne", 60, {"N": -9, "K": 1, "MSTEPS": 100}, ()), H("BuildOne", 60, {"N": 1, "K": -9, "MSTEPS": 100}, ()), H("BuildNested", 60, {"N": -9, "MSTEPS": 100}, ()), H("LargeArray", 60, {"NS": 2, "MSTEPS": 100}), H("Deep", 60, {"NS": 2, "MSTEPS": 100}), H("KeptEncodings", 100, {"MSTEPS": 100})],
  [H("BuildOne", 200, {"N": 5}, ()), H("BuildNested", 200, {"N": 3}, ()), H("NulKey", 30, None, ()), H("ArrayLong", 30), H("StreamWrite", 30), H("BuildOne", 100, {"N": -12, "K": 1, "MSTEPS": 100}, ()), H("BuildOne", 100, {"N": 1, "K": -12, "MSTEPS": 100}, ()), H("BuildNested", 60, {"N": -12, "MSTEPS": 100}, ()), H("LargeArray", 200, {"NS": 3, "MSTEPS": 100}), H("Deep", 60, {"NS": 3, "MSTEPS": 100}), H("KeptEncodings", 100, {"MSTEPS": 100})])

P("P04", "Values read back exactly as they were stored",
  "For every value type, the accessor for that type returns exactly what was given to the constructor: all bits of numbers and both halves of decimals, the full string, binary data with its subtype, both parts of regular expressions, timestamps, pointers and code with scope, and instants to the millisecond. This holds directly after construction and after encoding and decoding.",
  ["inputs"], "Every content of every value type.",
  "Tests construct a few constants per type; precision loss, byte order and boundary errors show only for particular values.",
  ["constructor.go", "x_constructor.go", "value.go", "elements/", "types/decimal.go"],
  [("constructors", "constructor.go"), ("accessors", "value.go"), ("scalar encodings", "elements/")],
  "./core",
  "any of 21 value kinds with symbolic content (strings and binaries up to 3 bytes, all numeric bits); texts of 9 (thorough: 12) lengths from 64 to 4096 (70000); instants within +-2^42 ms.",
  "longer strings; instants further away.",
  [H("BuildOne", 60, None, ()), H("RoundTripFixed", 30, None, ()), H("Times", 60, None, ()), H("Accessors", 30, None, ()), H("BuildOne", 60, {"N": -9, "K": 0, "MSTEPS": 100}, ())],
  [H("BuildOne", 200, {"N": 5}, ()), H("RoundTripFixed", 30, None, ()), H("Times", 100, None, ()), H("Accessors", 30, None, ()), H("BuildOne", 100, {"N": -12, "K": 0, "MSTEPS": 100}, ())])

P("P05", "Go values convert to BSON without changing their value",
  "Converting a native Go value (any integer width, floating point, boolean, string, time, timestamp, slices and maps of them, also of durations, documents and values that encode themselves) to a BSON value keeps its numeric or textual value exactly, by every route and at every position of a slice or map; an unsigned integer too large for the format, a value without a conversion and one that fails to encode itself are reported as an error or stored as null, according to the variant, never turned into another value. Converting back to a native value yields an equal value.",
  ["inputs"], "Every value of every supported Go type.",
  "Tests convert small numbers; truncation and sign errors show only near type limits.",
  ["constructor.go", "x_constructor.go", "value.go"],
  [("conversion", "x_constructor.go InterfaceErr and friends"), ("integer width selection", "constructor.go Int")],
  "./core",
  "all 64-bit contents of every integer and float type; strings and bytes up to 3; slices and maps of 0, 1, 9, 65 (thorough: 300) entries through 8 routes.",
  "reflection-based conversion of user types.",
  [H("Ints", 60, None, ()), H("GoValues", 60, None, ()), H("GoScalars", 60), H("GoMarshalers", 30), H("GoSlices", 60, {"NS": 4, "MSTEPS": 100}), H("GoMaps", 60, {"NS": 4, "MSTEPS": 100})],
  [H("Ints", 60, None, ()), H("GoValues", 60, {"N": 6}, ()), H("GoScalars", 60), H("GoMarshalers", 30), H("GoSlices", 100, {"NS": 5, "MSTEPS": 100}), H("GoMaps", 100, {"NS": 5, "MSTEPS": 100})])

P("P06", "Typed accessors report mismatches instead of misreading",
  "Every accessor that returns a success flag reports success exactly when the value has the requested type and then returns its content; otherwise it returns the zero value and false, and never panics, including on missing values and on values whose nested content is malformed. The variants without a flag panic exactly when the flag variant reports false.",
  ["inputs"], "Every pair of a stored value and a requested type.",
  "The matrix of types, accessors and contents is only sampled by tests.",
  ["value.go"],
  [("accessors", "value.go *OK methods"), ("nested document loading", "value.go")],
  "./core",
  "every accessor against every value kind with symbolic content; raw bodies up to 8 bytes.",
  "longer contents.",
  [H("Accessors", 60, None, ()), H("NilAccessors", 30, None, ()), H("TypedReader", 60, {"N": 6}, ())])

P("P07", "A document behaves as an ordered list of keyed elements",
  "After any sequence of appends, sets, deletes, resets, copies, extensions and re-reads, a document contains exactly the elements those operations describe in that order: set replaces the first element with the key or appends, delete removes and returns the first, lookups and the map view show the first occurrence, copies are independent, and empty values are skipped exactly when asked to. Every view of the document (iteration, position, lookup, map view, encoding) agrees.",
  ["histories", "inputs"], "Every sequence of operations, every key coincidence and every interleaving of map views with changes.",
  "Tests exercise operations one at a time; caching and aliasing defects need particular sequences.",
  ["document.go", "x_document.go", "unmarshal.go", "value.go"],
  [("element list", "document.go"), ("map view cache", "unmarshal.go Map/refreshCache"), ("emptiness", "value.go IsEmpty")],
  "./core",
  "all sequences of 3 operations (4 in the thorough tier) out of 9 kinds over two symbolic, possibly equal keys and symbolic values, from an empty or a decoded document; one operation at any position of a document of 11, 40 (thorough: 130) elements.",
  "longer histories.",
  [H("DocHistory", 90, {"STEPS": 3}, ("op",)), H("MapViewIsCopy", 30, {"MSTEPS": 100}, ()), H("EmptyValues", 30), H("LargeDoc", 60, {"NS": 3, "MSTEPS": 100})],
  [H("DocHistory", 700, {"STEPS": 4}, ("op",)), H("MapViewIsCopy", 30, {"MSTEPS": 100}, ()), H("EmptyValues", 30), H("LargeDoc", 300, {"NS": 3, "MSTEPS": 100})])

P("P08", "An array behaves as a list with keys 0 to n-1",
  "After any sequence of appends, sets, deletes, resets and extensions, an array contains exactly the values those operations describe in that order, positions outside it are reported as such, and its encoding numbers the entries consecutively from zero whatever keys they had before.",
  ["histories", "inputs"], "Every sequence of operations and every index.",
  "Tests use short fixed arrays; renumbering and range errors depend on the history and the index.",
  ["array.go", "element.go", "iterator.go"],
  [("array operations", "array.go"), ("index keys", "array.go writeByteSlice")],
  "./core",
  "all sequences of 3 operations (4 thorough) out of 7 kinds with symbolic values from an empty or decoded array, any 64-bit index; one operation at the edges of an array of 11, 101 (thorough: 1001) values.",
  "longer histories.",
  [H("ArrayHistory", 60, {"STEPS": 3}), H("ArrayLong", 30), H("LargeArray", 60, {"NS": 2, "MSTEPS": 100}), H("KeptEncodings", 100, {"MSTEPS": 100})],
  [H("ArrayHistory", 400, {"STEPS": 4}), H("ArrayLong", 30), H("LargeArray", 200, {"NS": 3, "MSTEPS": 100}), H("KeptEncodings", 100, {"MSTEPS": 100})])

P("P09", "Equality means same type and same content",
  "Two values are equal exactly when they have the same type and encode to the same bytes, independent of whether either was built, decoded, or decoded and then inspected; two elements additionally need the same key. Equality is reflexive and symmetric.",
  ["inputs"], "Every pair of values in every internal form.",
  "Tests compare a few pairs.",
  ["value.go", "element.go", "x_value.go", "x_core.go"],
  [("comparison", "value.go Equal, x_value.go checkEqualVal")],
  "./core",
  "all pairs of 21 value kinds with symbolic content (strings to 1 byte), built, decoded, or decoded and inspected.",
  "longer contents.",
  [H("Equality", 60), H("ElementEquality", 30, None, ()), H("Deep", 30, {"NS": 2, "MSTEPS": 100}), H("Equality", 30, {"N": -2})],
  [H("Equality", 300, {"N": 2}), H("ElementEquality", 30, None, ()), H("Deep", 30, {"NS": 3, "MSTEPS": 100}), H("Equality", 60, {"N": -5, "MSTEPS": 100})])

P("P10", "Sorting a document orders by key, type and value and is stable",
  "Sorting yields a permutation of the same elements ordered by key, then by type, then by value for numbers, strings, dates and object ids, keeps elements that compare equal in their original order, and leaves the source document unchanged.",
  ["inputs"], "Every document and combination of keys, types and values.",
  "Tests sort a few documents; a wrong comparison shows only for particular pairs.",
  ["x_document.go"],
  [("comparison", "x_document.go Less"), ("sorting", "x_document.go Sorted")],
  "./core",
  "all pairs of orderable values (doubles without NaN, strings to 2 bytes, dates against 6 fixed instants, object ids differing in two bytes) and all documents of 3 elements (4 thorough), documents of 30 (60 thorough) elements of 3 keys and few values with an arbitrary one anywhere.",
  "NaN, two arbitrary dates at once, longer documents.",
  [H("LessPairs", 120), H("SortedDocs", 60, {"N": 3}), H("SortedLong", 60, {"N": 30, "MSTEPS": 100})],
  [H("LessPairs", 200), H("SortedDocs", 300, {"N": 4}), H("SortedLong", 200, {"N": 60, "MSTEPS": 100})])

P("P11", "Reading documents from a stream takes exactly one document at a time",
  "Reading a document from a stream returns the next document on it and consumes exactly its bytes, however the stream fragments the data; a stream that ends or fails before the document is complete yields an error, a stream that ends cleanly reports end of input, and documents read earlier are not affected by later reads. Writing a document produces exactly its encoding.",
  ["inputs", "fault_sequences"], "Every fragmentation, truncation point, error and length prefix.",
  "Tests read from in-memory buffers that deliver everything at once.",
  ["document.go", "reader.go", "x_constructor.go"],
  [("stream reading", "document.go ReadFrom, reader.go NewFromIOReader"), ("buffer reuse", "document.go bufpool")],
  "./core",
  "two consecutive documents of three shapes with symbolic content, and of 9 (thorough: 12) sizes from 64 to 4096 (70000) bytes, every truncation point, every fragmentation of the first three reads (with stalls and errors delivered with data); hostile streams up to 9 bytes with declared lengths up to 36.",
  "longer streams; very large declared lengths.",
  [H("StreamRead", 90, {"FREE": 3}, ("both", "truncated")), H("StreamKept", 60), H("StreamHostile", 60), H("StreamWrite", 30), H("StreamLarge", 60, {"NS": 9, "MSTEPS": 100})],
  [H("StreamRead", 400, {"FREE": 5}, ("both", "truncated")), H("StreamKept", 100), H("StreamHostile", 200, {"N": 11}), H("StreamWrite", 30), H("StreamLarge", 300, {"NS": 12, "MSTEPS": 100})])

P("P12", "Path lookups find the same element in every form of a document",
  "Looking up a path of keys (array positions named by number) finds the first matching element at each level and returns it, or reports that it is absent; the answer is the same for a document that was built, one that was decoded, and the raw bytes. Looking up by position agrees with iteration order.",
  ["inputs"], "Every tree, every path.",
  "Tests look up a few paths in fixed documents.",
  ["document.go", "reader.go", "array.go", "x_document.go"],
  [("search", "document.go Search, array.go findElementForStrKey"), ("raw lookup", "reader.go RecursiveLookup")],
  "./core",
  "all trees of documents, arrays and integers with up to 2 entries per level and 3 levels, symbolic one-byte keys and paths up to 3 long; paths to 133 keys; positions at the edges of arrays to 101 (thorough: 1001) values; any index string up to 3 bytes.",
  "longer keys, wider trees.",
  [H("PathLookup", 90, None, ("done", "deep")), H("PathIndex", 30), H("ElementAtRaw", 30), H("LargeArray", 60, {"NS": 2, "MSTEPS": 100}), H("Deep", 60, {"NS": 3, "MSTEPS": 100}), H("ElementAtRaw", 60, {"MANY": 1200, "MSTEPS": 100})],
  [H("PathLookup", 600, {"W": 3}, ("done", "deep")), H("PathIndex", 60, {"N": 4}), H("ElementAtRaw", 30), H("LargeArray", 200, {"NS": 3, "MSTEPS": 100}), H("Deep", 60, {"NS": 3, "MSTEPS": 100}), H("ElementAtRaw", 60, {"MANY": 1200, "MSTEPS": 100})])
