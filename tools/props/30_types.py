P("P15", "Decimal128 text is exact",
  "The text of any finite Decimal128 value reads back as exactly the same value (sign, coefficient and exponent, hence also trailing zeros and negative zero); infinities and NaN print and read back as such; every other bit pattern prints as zero. A text is accepted exactly when it is a decimal number, and it then denotes the value it spells; anything else, and any number that needs more digits or a larger or smaller exponent than the format has, is refused. Nothing panics.",
  ["inputs"], "Every 128-bit pattern and every text.",
  "There are no tests of this arithmetic over symbolic digits; carries between words occur for few values.",
  ["types/decimal.go"],
  [("printing", "types/decimal.go Decimal128.String, divmod"), ("reading", "types/decimal.go ParseDecimal128, muladd")],
  "./typ",
  "all coefficients up to 4 digits and nine wide ones over 39 exponents and both signs; 16 consecutive coefficients at seven word carries; all special bit patterns; all texts to 5 bytes and six prefixes with any 4 more; the four edges of the range; 28 wide numbers with their last two digits symbolic under every position of the point, exponents and leading zeros, each printing as its one canonical text.",
  "arbitrary wide coefficients (the 128-bit decimal conversion of a fully symbolic coefficient is beyond the solver), long texts.",
  [H("DecimalText", 60, {"DIGITS": 3}), H("DecimalWide", 90, {"VARY": 8}), H("DecimalSpecial", 30, None, ("special", "zero")), H("DecimalParse", 60, {"N": 5}, ("number",)), H("DecimalParseTail", 60, {"N": 4}, ("number",)), H("DecimalRange", 60), H("DecimalDigits", 90), H("DecimalPrint", 30)],
  [H("DecimalText", 200, {"DIGITS": 4}), H("DecimalWide", 300, {"VARY": 100}), H("DecimalSpecial", 30, None, ("special", "zero")), H("DecimalParse", 200, {"N": 6}, ("number",)), H("DecimalParseTail", 200, {"N": 4}, ("number",)), H("DecimalRange", 60), H("DecimalDigits", 300, {"TENS": 10}), H("DecimalPrint", 60, {"VARY": 4})])

P("P16", "Object ids are unique and their text is exact",
  "Object ids generated by one process are pairwise distinct, even when several goroutines generate them at once within one second and wherever the counter starts or carries; generating them is free of data races; each is its creation time in seconds, a part fixed for the process, and a three-byte counter that grows by one modulo 2^24, so that ids of one second repeat only after 2^24 of them. The hexadecimal text of an id is 24 digits giving its bytes in order; exactly the 24-digit hexadecimal texts are read as ids, giving back those bytes, and anything else is an error with the zero id.",
  ["inputs", "schedules"], "Every interleaving of generators, every counter start, every id and text.",
  "Tests generate a few ids in one goroutine; counter carries and interleavings are rare.",
  ["types/objectid.go"],
  [("generation", "types/objectid.go NewObjectID"), ("text", "types/objectid.go Hex, ObjectIDFromHex")],
  "./typ",
  "two goroutines making 2 ids each with up to 2 preemptions; runs of up to 512 ids from an arbitrary counter; all ids; all texts of 24 characters with two arbitrary characters and nine other lengths.",
  "more than 2^24 ids in one second (the counter is 24 bits); the JSON methods of ObjectID (encoding/json is reflection-based).",
  [H("UniqueIDs", 60), H("IDRun", 60), H("IDTime", 30), H("HexRoundTrip", 30, None, ()), H("HexParse", 60, None, ("valid",))],
  [H("UniqueIDs", 200, {"N": 3, "PREEMPT": 3}), H("IDRun", 60), H("IDTime", 30), H("HexRoundTrip", 30, None, ()), H("HexParse", 60, None, ("valid",))])
