P("P13", "JSON output is valid JSON that carries the document faithfully",
  "Any document or array the library writes as JSON is one syntactically valid JSON text with the same keys in the same order, whatever characters the keys and strings contain; what JSON cannot express is an error rather than malformed text. Reading that text back yields the same document: strings, booleans, nulls, integers, doubles, dates to the millisecond, binary data with subtype, object ids, regular expressions, code, symbols, timestamps and pointers keep their values.",
  ["inputs"], "Every document of these value types, with arbitrary key and string content.",
  "Tests render about twenty fixed documents without special characters.",
  ["x_json_marshal.go", "x_json_unmarshal.go", "jsonx/marhsal.go", "jsonx/write.go", "jsonx/unmarshal.go"],
  [("conversion to JSON", "x_json_marshal.go"), ("escaping", "jsonx/write.go"), ("extended JSON", "x_json_unmarshal.go convertJSONElements")],
  "./js",
  "documents of two members and nested ones with symbolic keys (to 2 bytes), strings (to 2 bytes, all byte values; of 32 and 64, in the thorough tier to 1000, bytes with two arbitrary bytes in five places); 12 to 300 members, 75 levels, booleans, integers (-100..1000 symbolic, 10 wide ones), object ids and binaries; 13 doubles and 30 instants taken from a list because decimal conversion of arbitrary ones is beyond the solver.",
  "longer strings, arbitrary doubles and other wide integers, Decimal128 (P15).",
  [H("Output", 120, {"N": 2, "K": 1}), H("OutputNested", 90), H("OutputDates", 30), H("NotNumbers", 20), H("Output", 100, {"N": -2, "K": 0, "MSTEPS": 100}), H("OutputLong", 60, {"MSTEPS": 100}), H("OutputIntegers", 60)],
  [H("Output", 300, {"N": 2, "K": 2}), H("OutputNested", 200), H("OutputDates", 30), H("NotNumbers", 20), H("Output", 300, {"N": -5, "K": 0, "MSTEPS": 100}), H("OutputLong", 60, {"MSTEPS": 100}), H("OutputIntegers", 60)])

P("P14", "JSON input is parsed exactly or refused",
  "Reading any text as a JSON document or array succeeds exactly when the text is a valid JSON object or array, and then yields the same keys, strings (with all escapes decoded), integers, booleans, nulls and nesting in the same order. Malformed text, including malformed type wrappers of extended JSON and numbers beyond the range of a double, is an error; it never panics or hangs.",
  ["inputs"], "Every byte sequence.",
  "Tests parse a few dozen well-formed texts; escape handling and validation depend on particular byte combinations.",
  ["jsonx/internal/gjson.go", "jsonx/unmarshal.go", "x_json_unmarshal.go"],
  [("validation", "jsonx/internal/gjson.go validpayload"), ("parsing", "jsonx/internal/gjson.go parseAny/unescape"), ("conversion", "x_json_unmarshal.go")],
  "./js",
  "all texts up to 5 bytes; all texts up to 4-6 bytes inside a member value, key, string, nested array; escapes with arbitrary digits and around surrogate pairs; all type wrappers with 24 kinds of content or any 3-byte string. A text of 180 bytes with all parts of the grammar with any byte changed, inserted, removed, or cut; long strings, 12 to 300 members and 9 to 150 levels around one or two arbitrary bytes; 3200 integers near the limits; 19 fractions. Judged by an independent RFC 8259 parser.",
  "longer texts; the value of other numbers with fractions or exponents.",
  [H("ParseRaw", 60, {"N": 5}, ("object", "array")), H("ParseObject", 60, {"N": 4}, ("object",)), H("ParseKey", 30, {"N": 4}, ("object",)), H("ParseString", 60, {"N": 6}, ("object",)), H("ParseEscape", 60, None, ("object",)), H("ParseNested", 60, {"N": 4}, ("array",)), H("Extended", 90, {"N": 2}), H("Damaged", 60), H("Long", 100, {"MSTEPS": 100}), H("Integers", 60), H("Fractions", 30), H("Overflow", 30)],
  [H("ParseRaw", 300, {"N": 6}, ("object", "array")), H("ParseObject", 200, {"N": 5}, ("object",)), H("ParseKey", 100, {"N": 6}, ("object",)), H("ParseString", 200, {"N": 7}, ("object",)), H("ParseEscape", 60, None, ("object",)), H("ParseNested", 200, {"N": 5}, ("array",)), H("Extended", 200, {"N": 4}), H("Damaged", 60), H("Long", 100, {"MSTEPS": 100}), H("Integers", 60), H("Fractions", 30), H("Overflow", 30)])
