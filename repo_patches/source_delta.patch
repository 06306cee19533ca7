From 7a862a514057f5f9d4741390c62d7c7894029e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:18 +0000
Subject: [PATCH 01/49] fix: reject negative, zero and overflowing lengths when
 validating BSON values

Length prefixes were added to offsets in int32 arithmetic and never checked
for being negative, so malformed input could pass validation and then panic
or loop in the iterator and the accessors. Documents read from a stream with
a declared length below the minimum sliced out of range.
---
 document.go |  3 +++
 iterator.go |  2 +-
 reader.go   |  2 +-
 value.go    | 55 ++++++++++++++++++++++++++++++++++++++++++++++-------
 4 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/document.go b/document.go
index cb833c7..75fc350 100644
--- a/document.go
+++ b/document.go
@@ -317,6 +317,9 @@ func (d *Document) ReadFrom(r io.Reader) (int64, error) {
 	}
 
 	givenLength := readi32(sizeBuf)
+	if givenLength < 5 {
+		return total, bsonerr.InvalidLength
+	}
 
 	b := stw.NewSlice(bufpool.Get())
 	b.Grow(int(givenLength))
diff --git a/iterator.go b/iterator.go
index 13b7982..c6402c6 100644
--- a/iterator.go
+++ b/iterator.go
@@ -69,7 +69,7 @@ func newReaderIterator(r Reader) (*readerIterator, error) {
 	}
 
 	givenLength := readi32(r[0:4])
-	if len(r) < int(givenLength) {
+	if givenLength < 0 || len(r) < int(givenLength) {
 		return nil, bsonerr.InvalidLength
 	}
 
diff --git a/reader.go b/reader.go
index 35cb6c7..631d2c8 100644
--- a/reader.go
+++ b/reader.go
@@ -48,7 +48,7 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 	}
 
 	length := readi32(lengthBytes[:])
-	if length < 0 {
+	if length < 5 {
 		return nil, bsonerr.InvalidLength
 	}
 
diff --git a/value.go b/value.go
index 6e0ca90..fa44c25 100644
--- a/value.go
+++ b/value.go
@@ -218,7 +218,12 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l > int32(len(v.data)) {
+		// The length includes the null terminator, so it is never zero.
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
+		if int64(v.offset)+4+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 		// We check if the value that is the last element of the string is a
@@ -253,7 +258,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -292,7 +297,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -320,10 +325,26 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidBinarySubtype
 		}
 
-		if int32(v.offset)+5+l > int32(len(v.data)) {
+		if l < 0 {
+			return total, bsonerr.InvalidLength
+		}
+
+		if int64(v.offset)+5+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		// The old binary subtype nests a second length in the payload.
+		if v.data[v.offset+4] == '\x02' {
+			if l < 4 {
+				return total, errTooSmall
+			}
+
+			inner := readi32(v.data[v.offset+5 : v.offset+9])
+			if inner < 0 || inner > l-4 {
+				return total, bsonerr.InvalidLength
+			}
+		}
+
 		total += uint32(l)
 	case '\x07':
 		if int(v.offset+12) > len(v.data) {
@@ -374,7 +395,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l+12 > int32(len(v.data)) {
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
+		if int64(v.offset)+4+int64(l)+12 > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -393,7 +418,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			total += 8
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 
-			if int(sLength) > len(v.data)+8 {
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
+
+			if int64(v.offset)+8+int64(sLength) > int64(len(v.data)) {
 				return total, errTooSmall
 			}
 
@@ -420,11 +449,19 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
+			return total, errTooSmall
+		}
+
+		if l < 4 {
 			return total, errTooSmall
 		}
 
 		if !sizeOnly {
+			if l < 8 {
+				return total, errTooSmall
+			}
+
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 			total += 4
 			// If the length of the string is larger than the total length of the
@@ -436,6 +473,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			if sLength > l-13 {
 				return total, bsonerr.StringLargerThanContainer
 			}
+
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
 			// We check if the value that is the last element of the string is a
 			// null terminator. We take the value offset, add 4 to account for the
 			// length, add the length of the string, and subtract one since the size
-- 
2.43.0


From 0885dbdc2a2b108bc49f0279dd7a748bb629a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:08 +0000
Subject: [PATCH 02/49] fix: reading a document rejects malformed nested
 content

ReadDocument promises an error for bytes that are not a valid document, but
only sizes were checked: malformed subdocuments, unterminated strings, broken
code-with-scope values and bytes after the null terminator were accepted, and
then panicked in accessors or were re-encoded as corrupt documents.
---
 document.go |  4 ++++
 iterator.go |  5 +++++
 reader.go   | 14 ++++++--------
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/document.go b/document.go
index 75fc350..05b45df 100644
--- a/document.go
+++ b/document.go
@@ -295,6 +295,10 @@ func (d *Document) UnmarshalBSON(b []byte) error {
 			return err
 		}
 
+		if _, err := value.Validate(); err != nil {
+			return err
+		}
+
 		d.elems = append(d.elems, value)
 	}
 
diff --git a/iterator.go b/iterator.go
index c6402c6..eabdab7 100644
--- a/iterator.go
+++ b/iterator.go
@@ -90,6 +90,11 @@ func (itr *readerIterator) Next() bool {
 	}
 
 	if itr.r[itr.pos] == '\x00' {
+		if itr.pos+1 != itr.end {
+			// The null terminator must be the last byte.
+			itr.err = bsonerr.InvalidReadOnlyDocument
+		}
+
 		return false
 	}
 
diff --git a/reader.go b/reader.go
index 631d2c8..018ccc1 100644
--- a/reader.go
+++ b/reader.go
@@ -72,14 +72,7 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 // the slice, to validate other documents, the slice must be resliced.
 func (r Reader) Validate() (size uint32, err error) {
 	return r.readElements(func(elem *Element) error {
-		var err error
-		switch elem.value.Type() {
-		case '\x03':
-			_, err = elem.value.ReaderDocument().Validate()
-		case '\x04':
-			_, err = elem.value.ReaderArray().Validate()
-		}
-		return err
+		return elem.value.Validate()
 	})
 }
 
@@ -265,6 +258,11 @@ func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
 		}
 
 		if r[pos] == '\x00' {
+			if pos+1 != end {
+				// The null terminator must be the last byte.
+				return pos, bsonerr.InvalidReadOnlyDocument
+			}
+
 			break
 		}
 
-- 
2.43.0


From 026abceb1351c0b8abcff7f7e77e7a1c7f7e4209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:20 +0000
Subject: [PATCH 03/49] fix: boolean-returning accessors do not panic on
 malformed nested values

---
 value.go | 60 ++++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/value.go b/value.go
index fa44c25..00d8285 100644
--- a/value.go
+++ b/value.go
@@ -652,18 +652,32 @@ func (v *Value) MutableDocument() *Document {
 		panic(bsonerr.NewElementTypeError("compact.Element.Document", bsontype.Type(v.data[v.start])))
 	}
 
+	d, err := v.loadDocument()
+	if err != nil {
+		panic(err)
+	}
+
+	return d
+}
+
+// loadDocument decodes the payload of a document or array on first use.
+func (v *Value) loadDocument() (*Document, error) {
 	if v.d == nil {
-		var err error
+		if _, err := v.validate(true); err != nil {
+			return nil, err
+		}
 
-		l := int32(binary.LittleEndian.Uint32(v.data[v.offset : v.offset+4]))
+		l := readi32(v.data[v.offset : v.offset+4])
 
-		v.d, err = ReadDocument(v.data[v.offset : v.offset+uint32(l)])
+		d, err := ReadDocument(v.data[v.offset : v.offset+uint32(l)])
 		if err != nil {
-			panic(err)
+			return nil, err
 		}
+
+		v.d = d
 	}
 
-	return v.d
+	return v.d, nil
 }
 
 // MutableDocumentOK is the same as MutableDocument, except it returns a boolean
@@ -673,7 +687,12 @@ func (v *Value) MutableDocumentOK() (*Document, bool) {
 		return nil, false
 	}
 
-	return v.MutableDocument(), true
+	d, err := v.loadDocument()
+	if err != nil {
+		return nil, false
+	}
+
+	return d, true
 }
 
 // ReaderArray returns the BSON document the Value represents as a bson.Reader. It panics if the
@@ -710,18 +729,12 @@ func (v *Value) MutableArray() *Array {
 		panic(bsonerr.NewElementTypeError("compact.Element.Array", bsontype.Type(v.data[v.start])))
 	}
 
-	if v.d == nil {
-		var err error
-
-		l := int32(binary.LittleEndian.Uint32(v.data[v.offset : v.offset+4]))
-		v.d, err = ReadDocument(v.data[v.offset : v.offset+uint32(l)])
-
-		if err != nil {
-			panic(err)
-		}
+	d, err := v.loadDocument()
+	if err != nil {
+		panic(err)
 	}
 
-	return &Array{v.d}
+	return &Array{d}
 }
 
 // MutableArrayOK is the same as MutableArray, except it returns a boolean
@@ -731,7 +744,12 @@ func (v *Value) MutableArrayOK() (*Array, bool) {
 		return nil, false
 	}
 
-	return v.MutableArray(), true
+	d, err := v.loadDocument()
+	if err != nil {
+		return nil, false
+	}
+
+	return &Array{d}, true
 }
 
 // Binary returns the BSON binary value the Value represents. It panics if the value is a BSON type
@@ -1021,6 +1039,10 @@ func (v *Value) ReaderJavaScriptWithScopeOK() (string, Reader, bool) {
 		return "", nil, false
 	}
 
+	if _, err := v.validate(false); err != nil {
+		return "", nil, false
+	}
+
 	s, r := v.ReaderJavaScriptWithScope()
 
 	return s, r, true
@@ -1064,6 +1086,10 @@ func (v *Value) MutableJavaScriptWithScopeOK() (string, *Document, bool) {
 		return "", nil, false
 	}
 
+	if _, err := v.validate(false); err != nil {
+		return "", nil, false
+	}
+
 	s, d := v.MutableJavaScriptWithScope()
 
 	return s, d, true
-- 
2.43.0


From b48fb386a341bd13a3057c2056daf8f824de6780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:45 +0000
Subject: [PATCH 04/49] fix: decode both halves of Decimal128 values in the
 order they are encoded

---
 value.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 00d8285..84eb7be 100644
--- a/value.go
+++ b/value.go
@@ -1215,9 +1215,10 @@ func (v *Value) Decimal128() types.Decimal128 {
 		panic(bsonerr.NewElementTypeError("compact.Element.Decimal128", bsontype.Type(v.data[v.start])))
 	}
 
+	// The low half is stored first.
 	return types.NewDecimal128(
-		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]),
-		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]))
+		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]),
+		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]))
 }
 
 // Decimal128OK is the same as Decimal128, except that it returns a boolean
-- 
2.43.0


From eaebfdac7fcc7ac5d5a938ceb85e17c7eff79a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:46 +0000
Subject: [PATCH 05/49] fix: integers below the int32 range are stored as int64
 rather than truncated

---
 x_constructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x_constructor.go b/x_constructor.go
index 5d0dcfc..926f820 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -258,7 +258,7 @@ func (ElementConstructorError) DocumentMarshaler(key string, val DocumentMarshal
 }
 
 func (ElementConstructor) Int(key string, i int) *Element {
-	if i < math.MaxInt32 {
+	if i >= math.MinInt32 && i < math.MaxInt32 {
 		return EC.Int32(key, int32(i))
 	}
 
-- 
2.43.0


From e5a3037a940bc5c9c897a0839a31908bbece7723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:49 +0000
Subject: [PATCH 06/49] fix: invalidate the map view of a document when it is
 modified

---
 document.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 05b45df..783f9d6 100644
--- a/document.go
+++ b/document.go
@@ -101,6 +101,7 @@ func (d *Document) Set(elem *Element) *Document {
 	for idx, e := range d.elems {
 		if elem.Key() == e.Key() {
 			d.elems[idx] = elem
+			d.cacheValid = false
 			return d
 		}
 	}
@@ -119,10 +120,10 @@ func (d *Document) Delete(key string) *Element {
 		if d.elems[idx].Key() == key {
 			elem := d.elems[idx]
 			d.elems = append(d.elems[:idx], d.elems[idx+1:]...)
+			d.cacheValid = false
 			return elem
 		}
 	}
-	d.cacheValid = false
 	return nil
 }
 
@@ -289,6 +290,7 @@ func (d *Document) UnmarshalBSON(b []byte) error {
 	seq := Reader(b).Iterator()
 
 	d.elems = make([]*Element, 0, 128)
+	d.cacheValid = false
 
 	for value, err := range seq {
 		if err != nil {
-- 
2.43.0


From 03f3de36cbc03f8ccbac85861ef6908b819f2e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:42 +0000
Subject: [PATCH 07/49] fix: reject element keys that contain a null byte
 instead of encoding a corrupt document

---
 element.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/element.go b/element.go
index 9424d8f..138aba8 100644
--- a/element.go
+++ b/element.go
@@ -89,7 +89,9 @@ func (e *Element) validateKey() (uint32, error) {
 		total++
 	}
 
-	if pos == end || e.value.data[pos] != '\x00' {
+	// The key ends at the byte before the value; a null byte before that would
+	// truncate the encoded key.
+	if pos+1 != end || e.value.data[pos] != '\x00' {
 		return total, bsonerr.InvalidKey
 	}
 	total++
-- 
2.43.0


From c222efe2f1c0de8d90f8427a0e873d2ca017e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:45 +0000
Subject: [PATCH 08/49] fix: reject code with scope values whose scope does not
 fill the declared length

---
 value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/value.go b/value.go
index 84eb7be..f71b662 100644
--- a/value.go
+++ b/value.go
@@ -493,6 +493,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 				return total, err
 			}
 
+			// The scope must fill the rest of the value.
+			if total != uint32(l) {
+				return total, bsonerr.InvalidLength
+			}
+
 			break
 		}
 
-- 
2.43.0


From a83e453118d6ebe7c7ddda772538d76ea81cbe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:46 +0000
Subject: [PATCH 09/49] fix: a non-zero ObjectID is not an empty value

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index f71b662..3cfac1c 100644
--- a/value.go
+++ b/value.go
@@ -150,7 +150,7 @@ func (v *Value) IsEmpty() bool {
 	case bsontype.Undefined:
 		return true
 	case bsontype.ObjectID:
-		return true
+		return v.ObjectID().IsZero()
 	case bsontype.Boolean:
 		return !v.Boolean()
 	case bsontype.DateTime:
-- 
2.43.0


From 636a97106ec02fbe2a7b88dfb44ab3a843aa125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:56 +0000
Subject: [PATCH 10/49] fix: escape the keys of JSON objects

---
 jsonx/marhsal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonx/marhsal.go b/jsonx/marhsal.go
index 041c984..cd62a55 100644
--- a/jsonx/marhsal.go
+++ b/jsonx/marhsal.go
@@ -16,7 +16,8 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 			out = append(out, ',')
 		}
 
-		out = append(out, []byte(fmt.Sprintf(`"%s":`, elem.key))...)
+		out = append(out, writeJSONString([]byte(elem.key))...)
+		out = append(out, ':')
 
 		val, err := elem.value.MarshalJSON()
 		if err != nil {
-- 
2.43.0


From 9efc0f60906af7d9d9b092043dc2b646a5a8f825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:26 +0000
Subject: [PATCH 11/49] fix: JSON output of doubles keeps their value

---
 jsonx/marhsal.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/jsonx/marhsal.go b/jsonx/marhsal.go
index cd62a55..0e0f2c4 100644
--- a/jsonx/marhsal.go
+++ b/jsonx/marhsal.go
@@ -1,8 +1,11 @@
 package jsonx
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
+	"math"
+	"strconv"
 
 	"errors"
 )
@@ -67,11 +70,13 @@ func (v *Value) MarshalJSON() ([]byte, error) {
 	case String:
 		return writeJSONString([]byte(fmt.Sprintf(`%s`, v.value))), nil
 	case NumberDouble, NumberInteger, Number:
-		switch v.value.(type) {
+		switch num := v.value.(type) {
 		case int64, int32, int:
 			return []byte(fmt.Sprintf(`%d`, v.value)), nil
-		case float64, float32:
-			return []byte(fmt.Sprintf(`%f`, v.value)), nil
+		case float64:
+			return writeJSONFloat(num, 64)
+		case float32:
+			return writeJSONFloat(float64(num), 32)
 		default:
 			return nil, fmt.Errorf("unsupported number type %T", v.value)
 		}
@@ -99,3 +104,18 @@ func (v *Value) MarshalJSON() ([]byte, error) {
 		return nil, fmt.Errorf("unknown type=%s", v.t)
 	}
 }
+
+// writeJSONFloat produces the shortest number that reads back as the
+// same value, always recognizable as a floating point number.
+func writeJSONFloat(num float64, bits int) ([]byte, error) {
+	if math.IsNaN(num) || math.IsInf(num, 0) {
+		return nil, fmt.Errorf("json cannot represent number [%f]", num)
+	}
+
+	out := strconv.AppendFloat(nil, num, 'g', -1, bits)
+	if !bytes.ContainsAny(out, ".e") {
+		out = append(out, '.', '0')
+	}
+
+	return out, nil
+}
-- 
2.43.0


From 1a98fd50a30d0c941c52a4d3d7067136f1b33d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:28 +0000
Subject: [PATCH 12/49] fix: JSON output of dates keeps milliseconds

---
 x_json_marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x_json_marshal.go b/x_json_marshal.go
index 45462c6..8b8aa46 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -66,7 +66,7 @@ func (v *Value) toJSON() *jsonx.Value {
 	case bsontype.Boolean:
 		return jsonx.VC.Boolean(v.Boolean())
 	case bsontype.DateTime:
-		return jsonx.VC.ObjectFromElements(jsonx.EC.String("$date", v.Time().Format(time.RFC3339)))
+		return jsonx.VC.ObjectFromElements(jsonx.EC.String("$date", v.Time().Format(time.RFC3339Nano)))
 	case bsontype.Null:
 		return jsonx.VC.Nil()
 	case bsontype.Regex:
-- 
2.43.0


From ec50c0ca6c7ff1dd81f95d21faaaabb31fee5212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:12 +0000
Subject: [PATCH 13/49] fix: malformed extended JSON is an error instead of a
 panic

---
 x_json_unmarshal.go | 77 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 68 insertions(+), 9 deletions(-)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 456a164..77e88d4 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -126,7 +126,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$maxKey":
 			return EC.MaxKey(in.Key()), nil
 		case "$numberDecimal":
-			val, err := types.ParseDecimal128(indoc.ElementAtIndex(0).Value().StringValue())
+			str, err := jsonStringValue(in.Key(), indoc.ElementAtIndex(0))
+			if err != nil {
+				return nil, err
+			}
+
+			val, err := types.ParseDecimal128(str)
 			if err != nil {
 				return nil, err
 			}
@@ -140,7 +145,11 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				ok  bool
 			)
 
-			tsDoc := indoc.ElementAtIndex(0).Value().Document()
+			tsDoc, err := jsonDocumentValue(in.Key(), indoc.ElementAtIndex(0))
+			if err != nil {
+				return nil, err
+			}
+
 			count := 0
 			for elem := range tsDoc.Iterator() {
 				if count >= 3 {
@@ -166,7 +175,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 
 			return EC.Timestamp(in.Key(), uint32(t), uint32(i)), nil
 		case "$symbol":
-			return EC.Symbol(in.Key(), indoc.ElementAtIndex(0).Value().StringValue()), nil
+			symbol, err := jsonStringValue(in.Key(), indoc.ElementAtIndex(0))
+			if err != nil {
+				return nil, err
+			}
+
+			return EC.Symbol(in.Key(), symbol), nil
 		case "$code":
 			js, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
 			if !ok {
@@ -181,7 +195,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 					return nil, err
 				}
 
-				return EC.CodeWithScope(in.Key(), js, scope.Value().MutableDocument()), nil
+				scopeDoc, ok := scope.Value().MutableDocumentOK()
+				if !ok {
+					return nil, fmt.Errorf("invalid scope in code with scope for %s", in.Key())
+				}
+
+				return EC.CodeWithScope(in.Key(), js, scopeDoc), nil
 			} else {
 				return nil, fmt.Errorf("invalid key '%s' in code with scope for %s", second, in.Key())
 			}
@@ -191,7 +210,11 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				oid string
 				ok  bool
 			)
-			debref := indoc.ElementAtIndex(0).Value().Document()
+			debref, err := jsonDocumentValue(in.Key(), indoc.ElementAtIndex(0))
+			if err != nil {
+				return nil, err
+			}
+
 			count := 0
 			for elem := range debref.Iterator() {
 				if count >= 2 {
@@ -228,7 +251,10 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				options string
 				ok      bool
 			)
-			rex := indoc.ElementAtIndex(0).Value().Document()
+			rex, err := jsonDocumentValue(in.Key(), indoc.ElementAtIndex(0))
+			if err != nil {
+				return nil, err
+			}
 
 			count := 0
 			for elem := range rex.Iterator() {
@@ -253,13 +279,23 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 
 			return EC.Regex(in.Key(), pattern, options), nil
 		case "$date":
-			date, err := time.Parse(time.RFC3339, indoc.ElementAtIndex(0).Value().StringValue())
+			str, err := jsonStringValue(in.Key(), indoc.ElementAtIndex(0))
+			if err != nil {
+				return nil, err
+			}
+
+			date, err := time.Parse(time.RFC3339, str)
 			if err != nil {
 				return nil, err
 			}
 			return EC.Time(in.Key(), date), nil
 		case "$oid":
-			oid, err := types.ObjectIDFromHex(indoc.ElementAtIndex(0).Value().StringValue())
+			str, err := jsonStringValue(in.Key(), indoc.ElementAtIndex(0))
+			if err != nil {
+				return nil, err
+			}
+
+			oid, err := types.ObjectIDFromHex(str)
 			if err != nil {
 				return nil, err
 			}
@@ -268,7 +304,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$undefined":
 			return EC.Undefined(in.Key()), nil
 		case "$binary":
-			return EC.Binary(in.Key(), []byte(indoc.ElementAtIndex(0).Value().StringValue())), nil
+			str, err := jsonStringValue(in.Key(), indoc.ElementAtIndex(0))
+			if err != nil {
+				return nil, err
+			}
+
+			return EC.Binary(in.Key(), []byte(str)), nil
 		default:
 			doc := DC.Make(indoc.Len())
 
@@ -302,3 +343,21 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		return nil, fmt.Errorf("unknown value type '%s' [%v]", inv.Type(), inv.Interface())
 	}
 }
+
+func jsonStringValue(key string, elem *jsonx.Element) (string, error) {
+	val, ok := elem.Value().StringValueOK()
+	if !ok {
+		return "", fmt.Errorf("value of '%s' at %q must be a string", elem.Key(), key)
+	}
+
+	return val, nil
+}
+
+func jsonDocumentValue(key string, elem *jsonx.Element) (*jsonx.Document, error) {
+	val, ok := elem.Value().DocumentOK()
+	if !ok {
+		return nil, fmt.Errorf("value of '%s' at %q must be an object", elem.Key(), key)
+	}
+
+	return val, nil
+}
-- 
2.43.0


From f73d041688785462008380f820aca910807df420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:15 +0000
Subject: [PATCH 14/49] fix: binary values survive a JSON round trip

---
 x_json_marshal.go   |  6 ++++--
 x_json_unmarshal.go | 33 +++++++++++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/x_json_marshal.go b/x_json_marshal.go
index 8b8aa46..c85c708 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -1,6 +1,8 @@
 package birch
 
 import (
+	"encoding/base64"
+	"fmt"
 	"time"
 
 	"github.com/tychoish/birch/bsontype"
@@ -55,8 +57,8 @@ func (v *Value) toJSON() *jsonx.Value {
 
 		return jsonx.VC.ObjectFromElements(
 			jsonx.EC.ObjectFromElements("$binary",
-				jsonx.EC.String("base64", string(t)),
-				jsonx.EC.String("subType", string(d)),
+				jsonx.EC.String("base64", base64.StdEncoding.EncodeToString(d)),
+				jsonx.EC.String("subType", fmt.Sprintf("%02x", t)),
 			),
 		)
 	case bsontype.Undefined:
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 77e88d4..8dac152 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -2,8 +2,10 @@ package birch
 
 import (
 	"context"
+	"encoding/base64"
 	"errors"
 	"fmt"
+	"strconv"
 	"time"
 
 	"github.com/tychoish/birch/jsonx"
@@ -304,12 +306,39 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$undefined":
 			return EC.Undefined(in.Key()), nil
 		case "$binary":
-			str, err := jsonStringValue(in.Key(), indoc.ElementAtIndex(0))
+			if str, ok := indoc.ElementAtIndex(0).Value().StringValueOK(); ok {
+				return EC.Binary(in.Key(), []byte(str)), nil
+			}
+
+			bindoc, err := jsonDocumentValue(in.Key(), indoc.ElementAtIndex(0))
 			if err != nil {
 				return nil, err
 			}
 
-			return EC.Binary(in.Key(), []byte(str)), nil
+			var (
+				data    []byte
+				subtype uint64
+			)
+
+			for elem := range bindoc.Iterator() {
+				str, err := jsonStringValue(in.Key(), elem)
+				if err != nil {
+					return nil, err
+				}
+
+				switch elem.Key() {
+				case "base64":
+					data, err = base64.StdEncoding.DecodeString(str)
+				case "subType":
+					subtype, err = strconv.ParseUint(str, 16, 8)
+				}
+
+				if err != nil {
+					return nil, fmt.Errorf("problem decoding binary at %q: %w", in.Key(), err)
+				}
+			}
+
+			return EC.BinaryWithSubtype(in.Key(), data, byte(subtype)), nil
 		default:
 			doc := DC.Make(indoc.Len())
 
-- 
2.43.0


From 7ee54d5552e8af2811d116a897fb7dfab2a3db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:25 +0000
Subject: [PATCH 15/49] fix: a JSON number needs a digit after its sign

---
 jsonx/internal/gjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonx/internal/gjson.go b/jsonx/internal/gjson.go
index 92e4e6a..9e4eaf5 100644
--- a/jsonx/internal/gjson.go
+++ b/jsonx/internal/gjson.go
@@ -1187,6 +1187,9 @@ func validnumber(data []byte, i int) (outi int, ok bool) {
 	if i == len(data) {
 		return i, false
 	}
+	if data[i] < '0' || data[i] > '9' {
+		return i, false
+	}
 	if data[i] == '0' {
 		i++
 	} else {
-- 
2.43.0


From 0ae2d5a03d2c6b3c1904ebe58f647a278ee47ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:33 +0000
Subject: [PATCH 16/49] fix: a JSON escape after an unpaired surrogate is not
 dropped

---
 jsonx/internal/gjson.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonx/internal/gjson.go b/jsonx/internal/gjson.go
index 9e4eaf5..52f7d94 100644
--- a/jsonx/internal/gjson.go
+++ b/jsonx/internal/gjson.go
@@ -871,9 +871,11 @@ func unescape(json string) string { //, error) {
 					// need another code
 					if len(json[i:]) >= 6 && json[i] == '\\' &&
 						json[i+1] == 'u' {
-						// we expect it to be correct so just consume it
 						r = utf16.DecodeRune(r, runeit(json[i+2:]))
-						i += 6
+						if r != utf8.RuneError {
+							// otherwise the second code stands for itself
+							i += 6
+						}
 					}
 				}
 				// provide enough space to encode the largest utf8 possible
-- 
2.43.0


From a11f028dc6d60e0c3cbcf4122a93940b7bcaeb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:29 +0000
Subject: [PATCH 17/49] fix: decimals outside the range of the format are
 refused however they are spelled

---
 types/decimal.go | 53 +++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/types/decimal.go b/types/decimal.go
index 64bcad2..17c3cba 100644
--- a/types/decimal.go
+++ b/types/decimal.go
@@ -147,6 +147,12 @@ var dNaN = Decimal128{0x1F << 58, 0}
 var dPosInf = Decimal128{0x1E << 58, 0}
 var dNegInf = Decimal128{0x3E << 58, 0}
 
+// the largest significand is 10^34-1.
+const (
+	maxCoefficientH = 0x1ed09bead87c0
+	maxCoefficientL = 0x378d8e63ffffffff
+)
+
 func dErr(s string) (Decimal128, error) {
 	return dNaN, fmt.Errorf("cannot parse %q as a decimal128", s)
 }
@@ -299,38 +305,35 @@ func ParseDecimal128(s string) (Decimal128, error) {
 		}
 
 		e += n
-		for e < -6176 {
-			// Subnormal.
-			var div uint32 = 1
-			for div < 1e9 && e < -6176 {
-				div *= 10
-				e++
-			}
-
-			var rem uint32
-			h, l, rem = divmod(h, l, div)
+	}
 
-			if rem > 0 {
-				return dErr(orig)
-			}
+	for e < -6176 {
+		// Subnormal.
+		var div uint32 = 1
+		for div < 1e9 && e < -6176 {
+			div *= 10
+			e++
 		}
 
-		for e > 6111 {
-			// Clamped.
-			var mul uint32 = 1
-			for mul < 1e9 && e > 6111 {
-				mul *= 10
-				e--
-			}
+		var rem uint32
+		h, l, rem = divmod(h, l, div)
 
-			h, l, ovr = muladd(h, l, mul, 0)
+		if rem > 0 {
+			return dErr(orig)
+		}
+	}
 
-			if ovr > 0 || h&((1<<15-1)<<49) > 0 {
-				return dErr(orig)
-			}
+	for e > 6111 {
+		// Clamped.
+		var mul uint32 = 1
+		for mul < 1e9 && e > 6111 {
+			mul *= 10
+			e--
 		}
 
-		if e < -6176 || e > 6111 {
+		h, l, ovr = muladd(h, l, mul, 0)
+
+		if ovr > 0 || h > maxCoefficientH || (h == maxCoefficientH && l > maxCoefficientL) {
 			return dErr(orig)
 		}
 	}
-- 
2.43.0


From 3598270bee459122d01dea25e60de996d559068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:34 +0000
Subject: [PATCH 18/49] fix: malformed wire protocol messages are errors
 instead of panics

---
 x/mrpc/mongowire/wire_kill_cursors.go |  4 +--
 x/mrpc/mongowire/wire_message.go      | 52 +++++++++++++++++++--------
 x/mrpc/mongowire/wire_query.go        |  4 +++
 x/mrpc/registry.go                    |  4 +++
 x/mrpc/shell/util.go                  |  3 ++
 5 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/x/mrpc/mongowire/wire_kill_cursors.go b/x/mrpc/mongowire/wire_kill_cursors.go
index 4bd457b..5fe8246 100644
--- a/x/mrpc/mongowire/wire_kill_cursors.go
+++ b/x/mrpc/mongowire/wire_kill_cursors.go
@@ -56,8 +56,8 @@ func (h *MessageHeader) parseKillCursorsMessage(buf []byte) (Message, error) {
 	m.NumCursors = readInt32(buf[loc:])
 	loc += 4
 
-	if len(buf[loc:]) < int(m.NumCursors)*8 {
-		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d is larger than number of cursors in message", m.NumCursors)
+	if m.NumCursors < 0 || len(buf[loc:]) < int(m.NumCursors)*8 {
+		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d does not match the number of cursors in message", m.NumCursors)
 	}
 
 	m.CursorIds = make([]int64, int(m.NumCursors))
diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index 413853f..e9213f7 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -29,7 +29,12 @@ type opMessagePayloadType0 struct {
 func (p *opMessagePayloadType0) Type() uint8 { return OpMessageSectionBody }
 
 func (p *opMessagePayloadType0) Name() string {
-	return p.Document.ElementAt(0).Key()
+	elem, ok := p.Document.ElementAtOK(0)
+	if !ok {
+		return ""
+	}
+
+	return elem.Key()
 }
 
 func (p *opMessagePayloadType0) DB() string {
@@ -195,37 +200,50 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 	loc += 4
 	checksumPresent := (msg.Flags & 1) == 1
 
-	for loc < len(body)-4 {
+	end := len(body)
+	if checksumPresent {
+		end -= 4
+	}
+
+	for loc < end {
 		kind := int32(body[loc])
 		loc++
 
-		var err error
 		switch kind {
 		case OpMessageSectionBody:
-			section := &opMessagePayloadType0{}
-			docSize := int(readInt32(body[loc:]))
-			section.Document, err = birch.ReadDocument(body[loc : loc+docSize])
-			loc += getDocSize(section.Document)
-			msg.Items = append(msg.Items, section)
+			doc, err := birch.ReadDocument(body[loc:end])
+			if err != nil {
+				return nil, fmt.Errorf("could not read body document: %w", err)
+			}
+			loc += getDocSize(doc)
+			msg.Items = append(msg.Items, &opMessagePayloadType0{Document: doc})
 		case OpMessageSectionDocumentSequence:
+			if end-loc < 4 {
+				return nil, errors.New("invalid op message - section length is too short")
+			}
 			section := &opMessagePayloadType1{}
 			section.Size = readInt32(body[loc:])
+
+			sectionEnd := loc - 1 + int(section.Size)
+			if section.Size < 5 || sectionEnd > end {
+				return nil, fmt.Errorf("invalid op message - section has invalid length %d", section.Size)
+			}
 			loc += 4
-			section.Identifier, err = readCString(body[loc:])
+
+			var err error
+			section.Identifier, err = readCString(body[loc:sectionEnd])
 			if err != nil {
 				return nil, fmt.Errorf("could not read identifier: %w", err)
 			}
 			loc += len(section.Identifier) + 1 // c string null terminator
 
-			for remaining := int(section.Size) - 1 - 4 - len(section.Identifier) - 1; remaining > 0; {
-				docSize := int(readInt32(body[loc:]))
-				doc, err := birch.ReadDocument(body[loc : loc+docSize])
+			for loc < sectionEnd {
+				doc, err := birch.ReadDocument(body[loc:sectionEnd])
 				if err != nil {
 					return nil, fmt.Errorf("could not read payload document: %w", err)
 				}
 				section.Payload = append(section.Payload, *doc.Copy())
-				remaining -= docSize
-				loc += docSize
+				loc += getDocSize(doc)
 			}
 			msg.Items = append(msg.Items, section)
 		default:
@@ -233,7 +251,11 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 		}
 	}
 
-	if checksumPresent && loc == len(body)-4 {
+	if loc > end {
+		return nil, errors.New("invalid op message - message length is too short")
+	}
+
+	if checksumPresent {
 		msg.Checksum = readInt32(body[loc:])
 		loc += 4
 	}
diff --git a/x/mrpc/mongowire/wire_query.go b/x/mrpc/mongowire/wire_query.go
index ff7510a..c35dedb 100644
--- a/x/mrpc/mongowire/wire_query.go
+++ b/x/mrpc/mongowire/wire_query.go
@@ -114,6 +114,10 @@ func (h *MessageHeader) parseQueryMessage(buf []byte) (Message, error) {
 	}
 
 	if NamespaceIsCommand(qm.Namespace) {
+		if qm.Query.Len() == 0 {
+			return nil, errors.New("invalid query message -- command document is empty")
+		}
+
 		return qm.convertToCommand(), nil
 	}
 
diff --git a/x/mrpc/registry.go b/x/mrpc/registry.go
index 1a9d0c2..e62b338 100644
--- a/x/mrpc/registry.go
+++ b/x/mrpc/registry.go
@@ -34,6 +34,10 @@ func (o *OperationRegistry) Add(op mongowire.OpScope, h HandlerFunc) error {
 }
 
 func (o *OperationRegistry) Get(scope *mongowire.OpScope) (HandlerFunc, bool) {
+	if scope == nil {
+		return nil, false
+	}
+
 	o.mu.RLock()
 	defer o.mu.RUnlock()
 
diff --git a/x/mrpc/shell/util.go b/x/mrpc/shell/util.go
index 753b58e..4a54ded 100644
--- a/x/mrpc/shell/util.go
+++ b/x/mrpc/shell/util.go
@@ -91,6 +91,9 @@ func RequestMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 // document.
 func ResponseMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 	if opReplyMsg, ok := msg.(*mongowire.ReplyMessage); ok {
+		if len(opReplyMsg.Docs) == 0 {
+			return nil, fmt.Errorf("%s response did not contain a document", mongowire.OP_REPLY.String())
+		}
 		return &opReplyMsg.Docs[0], nil
 	}
 	if opCmdReplyMsg, ok := msg.(*mongowire.CommandReplyMessage); ok {
-- 
2.43.0


From c9b41a4bbd660d8e2cedf29b74e97282a009eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 19/49] fix: reading a wire message takes exactly its bytes
 however the stream is fragmented

---
 x/mrpc/mongowire/sock.go | 90 ++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 60 deletions(-)

diff --git a/x/mrpc/mongowire/sock.go b/x/mrpc/mongowire/sock.go
index 0f7ccb0..c6ca472 100644
--- a/x/mrpc/mongowire/sock.go
+++ b/x/mrpc/mongowire/sock.go
@@ -1,47 +1,40 @@
 package mongowire
 
 import (
-	"bytes"
 	"context"
 	"fmt"
 	"io"
-
-	"errors"
 )
 
 const MaxInt32 = 2147483647
 
 func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
-	type readResult struct {
-		n   int
-		err error
-	}
-
-	// read header
-	sizeBuf := make([]byte, 4)
+	// the reader may return any part of the message at a time, and must
+	// not be read past the end of the message.
+	readFull := func(buf []byte) error {
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 
-	readFinished := make(chan readResult)
+		readFinished := make(chan error, 1)
 
-	go func() {
-		defer close(readFinished)
+		go func() {
+			_, err := io.ReadFull(reader, buf)
+			readFinished <- err
+		}()
 
-		n, err := reader.Read(sizeBuf)
 		select {
-		case readFinished <- readResult{n: n, err: err}:
 		case <-ctx.Done():
+			return ctx.Err()
+		case err := <-readFinished:
+			return err
 		}
-	}()
+	}
 
-	select {
-	case <-ctx.Done():
-		return nil, (ctx.Err())
-	case res := <-readFinished:
-		if res.err != nil {
-			return nil, (res.err)
-		}
-		if res.n != 4 {
-			return nil, fmt.Errorf("didn't read message size from socket, got %d", res.n)
-		}
+	// read header
+	sizeBuf := make([]byte, 4)
+	if err := readFull(sizeBuf); err != nil {
+		return nil, err
 	}
 
 	header := MessageHeader{}
@@ -52,45 +45,18 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 		}
 		return nil, fmt.Errorf("message too big %d", header.Size)
 	}
-	if header.Size < 0 || header.Size-4 > MaxInt32 {
-		return nil, errors.New("message header has invalid size")
+	if header.Size < 16 {
+		return nil, fmt.Errorf("message header has invalid size %d", header.Size)
 	}
 
-	restBuf := &bytes.Buffer{}
-	for read := 0; int32(read) < header.Size-4; {
-		readFinished = make(chan readResult)
-		tempBuf := make([]byte, header.Size-4)
-		go func() {
-			defer close(readFinished)
-			n, err := reader.Read(tempBuf)
-			select {
-			case readFinished <- readResult{n: n, err: err}:
-			case <-ctx.Done():
-			}
-		}()
-		select {
-		case <-ctx.Done():
-			return nil, (ctx.Err())
-		case res := <-readFinished:
-			if res.err == io.EOF {
-				read = int(header.Size - 4)
-				break
-			}
-			if res.err != nil {
-				return nil, (res.err)
-			}
-			if res.n == 0 {
-				break
-			}
-			read += res.n
-			restBuf.Write(tempBuf[:res.n])
+	buf := make([]byte, header.Size-4)
+	if err := readFull(buf); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
 		}
+		return nil, err
 	}
 
-	buf := restBuf.Bytes()
-	if len(buf) < 12 {
-		return nil, fmt.Errorf("invalid message header. either header.Size = %v is shorter than message length, or message is missing RequestId, ResponseTo, or OpCode fields.", header.Size)
-	}
 	header.RequestID = readInt32(buf)
 	header.ResponseTo = readInt32(buf[4:])
 	header.OpCode = OpType(readInt32(buf[8:]))
@@ -106,6 +72,10 @@ func SendMessage(ctx context.Context, m Message, writer io.Writer) error {
 		err error
 	}
 	for {
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+
 		writeFinished := make(chan writeRes)
 		go func() {
 			defer close(writeFinished)
-- 
2.43.0


From 772a9e7746cf6ce5e61e51de197d99eebb945905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:55 +0000
Subject: [PATCH 20/49] fix: OP_MSG messages keep their flags and checksum and
 follow the section layout of the protocol

---
 x/mrpc/mongowire/wire_message.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index e9213f7..97bb2e3 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -77,15 +77,14 @@ func (p *opMessagePayloadType1) DB() string { return "" }
 func (p *opMessagePayloadType1) Documents() []birch.Document { return p.Payload }
 
 func (p *opMessagePayloadType1) Serialize() []byte {
-	size := 1                     // kind
-	size += 4                     // size
+	size := 4                     // size (the kind byte is not included)
 	size += len(p.Identifier) + 1 // identifier
 	for _, doc := range p.Payload {
 		size += getDocSize(&doc)
 	}
 	p.Size = int32(size)
 
-	buf := bytes.NewBuffer(make([]byte, 0, size))
+	buf := bytes.NewBuffer(make([]byte, 0, 1+size))
 	buf.Write([]byte{p.Type()})
 	writeInt32(p.Size, buf)
 	writeCString(p.Identifier, buf)
@@ -131,10 +130,11 @@ func (m *OpMessage) Serialize() []byte {
 			size += 1 // kind // nolint
 			size += getDocSize(p.Document)
 		case *opMessagePayloadType1:
+			size += 1 // kind // nolint
 			size += int(p.Size)
 		}
 	}
-	if m.Checksum != 0 && (m.Flags&1) == 1 {
+	if (m.Flags & 1) == 1 {
 		size += 4
 	}
 	m.header.Size = int32(size)
@@ -144,7 +144,7 @@ func (m *OpMessage) Serialize() []byte {
 
 	buf.Write(sections)
 
-	if m.Checksum != 0 && (m.Flags&1) == 1 {
+	if (m.Flags & 1) == 1 {
 		writeInt32(m.Checksum, buf)
 	}
 
@@ -168,7 +168,7 @@ func NewOpMessage(moreToCome bool, documents []birch.Document, items ...model.Se
 	}
 
 	if moreToCome {
-		msg.Flags = msg.Flags & 1
+		msg.Flags |= 1 << 1
 	}
 
 	for idx := range items {
@@ -224,7 +224,7 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 			section := &opMessagePayloadType1{}
 			section.Size = readInt32(body[loc:])
 
-			sectionEnd := loc - 1 + int(section.Size)
+			sectionEnd := loc + int(section.Size)
 			if section.Size < 5 || sectionEnd > end {
 				return nil, fmt.Errorf("invalid op message - section has invalid length %d", section.Size)
 			}
@@ -260,7 +260,7 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 		loc += 4
 	}
 
-	msg.header.Size = int32(loc)
+	msg.header.Size = int32(16 + loc)
 
 	return msg, nil
 }
-- 
2.43.0


From 4277c1c2771c682e2d6afecb93402c24d5ac8032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:41 +0000
Subject: [PATCH 21/49] fix: models of wire messages report the flags of the
 protocol and cover OP_GET_MORE

---
 x/mrpc/mongowire/message.go | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/x/mrpc/mongowire/message.go b/x/mrpc/mongowire/message.go
index 1fd148d..a28c07a 100644
--- a/x/mrpc/mongowire/message.go
+++ b/x/mrpc/mongowire/message.go
@@ -143,15 +143,8 @@ func GetModel(msg Message) (any, OpType) {
 			Operation:  m.Operation,
 		}
 
-		switch m.Flags {
-		case 0:
-			op.Checksum = true
-		case 1:
-			op.MoreToCome = true
-		case 3:
-			op.Checksum = true
-			op.MoreToCome = true
-		}
+		op.Checksum = m.Flags&1 != 0
+		op.MoreToCome = m.Flags&2 != 0
 
 		for _, section := range m.Items {
 			op.Items = append(op.Items, model.SequenceItem{
@@ -166,6 +159,12 @@ func GetModel(msg Message) (any, OpType) {
 			Namespace: m.Namespace,
 			Filter:    m.Filter,
 		}, OP_DELETE
+	case *getMoreMessage:
+		return &model.GetMore{
+			Namespace: m.Namespace,
+			CursorID:  m.CursorId,
+			NReturn:   m.NReturn,
+		}, OP_GET_MORE
 	case *insertMessage:
 		return &model.Insert{
 			Namespace: m.Namespace,
@@ -186,15 +185,8 @@ func GetModel(msg Message) (any, OpType) {
 			Update:    m.Update,
 		}
 
-		switch m.Flags {
-		case 1:
-			update.Upsert = true
-		case 2:
-			update.Multi = true
-		case 3:
-			update.Upsert = true
-			update.Multi = true
-		}
+		update.Upsert = m.Flags&1 != 0
+		update.Multi = m.Flags&2 != 0
 
 		return update, OP_UPDATE
 	case *ReplyMessage:
@@ -204,12 +196,8 @@ func GetModel(msg Message) (any, OpType) {
 			Contents:     m.Docs,
 		}
 
-		switch m.Flags {
-		case 1:
-			reply.QueryFailure = true
-		case 0:
-			reply.CursorNotFound = true
-		}
+		reply.CursorNotFound = m.Flags&1 != 0
+		reply.QueryFailure = m.Flags&2 != 0
 
 		return reply, OP_REPLY
 	default:
-- 
2.43.0


From 170d0df230ccb4989f81bfb4c03467b9433058db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:27 +0000
Subject: [PATCH 22/49] fix: operations can be added to a zero-value registry

---
 x/mrpc/registry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/mrpc/registry.go b/x/mrpc/registry.go
index e62b338..2e8b228 100644
--- a/x/mrpc/registry.go
+++ b/x/mrpc/registry.go
@@ -28,6 +28,10 @@ func (o *OperationRegistry) Add(op mongowire.OpScope, h HandlerFunc) error {
 		return fmt.Errorf("operation '%+v' is already defined", op)
 	}
 
+	if o.ops == nil {
+		o.ops = make(map[mongowire.OpScope]HandlerFunc)
+	}
+
 	o.ops[op] = h
 
 	return nil
-- 
2.43.0


From 87aba6f2f66daab3a883068fb1d032ecdf286bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:16 +0000
Subject: [PATCH 23/49] fix: FTDC doubles are recorded so that they read back
 as the same values

---
 x/ftdc/bson_extract.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/bson_extract.go b/x/ftdc/bson_extract.go
index fcde3f2..5e28a0c 100644
--- a/x/ftdc/bson_extract.go
+++ b/x/ftdc/bson_extract.go
@@ -112,7 +112,8 @@ func extractMetricsFromValue(val *birch.Value) (extractedMetrics, error) {
 func extractDelta(current *birch.Value, previous *birch.Value) (int64, error) {
 	switch current.Type() {
 	case bsontype.Double:
-		return normalizeFloat(current.Double() - previous.Double()), nil
+		// series of doubles hold the values themselves
+		return normalizeFloat(current.Double()), nil
 	case bsontype.Int64:
 		return current.Int64() - previous.Int64(), nil
 	default:
-- 
2.43.0


From e975ea9f368249c5a38c55b1112cf0eab623ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:32 +0000
Subject: [PATCH 24/49] fix: FTDC timestamps read back in seconds

---
 x/ftdc/read.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index da942bb..3e83491 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -112,7 +112,17 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 
 			// now go back and populate the delta numbers
 			var nzeroes uint64
+			var isInc bool
 			for i, v := range metrics {
+				if v.originalType == bsontype.Timestamp {
+					// the seconds of timestamps start out as
+					// milliseconds, while their deltas are
+					// in seconds. The increment follows.
+					if !isInc {
+						v.startingValue /= 1000
+					}
+					isInc = !isInc
+				}
 				metrics[i].startingValue = v.startingValue
 				metrics[i].Values = make([]int64, ndeltas)
 
-- 
2.43.0


From cd24851fabc20d5cb6fbcfe663b588d2b080cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:48 +0000
Subject: [PATCH 25/49] fix: FTDC dates outside the range of nanoseconds keep
 their value

---
 x/ftdc/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 505e7cd..4167d21 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -111,7 +111,7 @@ func compressBuffer(input []byte) ([]byte, error) {
 
 func normalizeFloat(in float64) int64 { return int64(math.Float64bits(in)) }
 func restoreFloat(in int64) float64   { return math.Float64frombits(uint64(in)) }
-func epochMs(t time.Time) int64       { return t.UnixNano() / 1000000 }
+func epochMs(t time.Time) int64       { return t.UnixMilli() }
 func timeEpocMs(in int64) time.Time   { return time.Unix(in/1000, in%1000*1000000) }
 
 func isNum(num int, val *birch.Value) bool {
-- 
2.43.0


From 6a348e3ad3c81500732f0a957410771a95fb3c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:22 +0000
Subject: [PATCH 26/49] fix: FTDC metrics of deeply nested documents keep their
 full path

---
 x/ftdc/bson_metric.go | 15 +++------------
 x/ftdc/ftdc.go        |  3 ++-
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/x/ftdc/bson_metric.go b/x/ftdc/bson_metric.go
index 6512780..c655224 100644
--- a/x/ftdc/bson_metric.go
+++ b/x/ftdc/bson_metric.go
@@ -2,6 +2,7 @@ package ftdc
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/tychoish/birch"
 	"github.com/tychoish/birch/bsontype"
@@ -48,18 +49,8 @@ func metricForType(key string, path []string, val *birch.Value) []Metric {
 	case bsontype.Array:
 		return metricForArray(key, path, val.MutableArray())
 	case bsontype.EmbeddedDocument:
-		path = append(path, key)
-
-		o := []Metric{}
-		for _, ne := range metricForDocument(path, val.MutableDocument()) {
-			o = append(o, Metric{
-				ParentPath:    path,
-				KeyName:       ne.KeyName,
-				startingValue: ne.startingValue,
-				originalType:  ne.originalType,
-			})
-		}
-		return o
+		// metrics keep their paths, which must not share storage
+		return metricForDocument(append(slices.Clip(path), key), val.MutableDocument())
 	case bsontype.Boolean:
 		if val.Boolean() {
 			return []Metric{
diff --git a/x/ftdc/ftdc.go b/x/ftdc/ftdc.go
index b3829c7..98144ce 100644
--- a/x/ftdc/ftdc.go
+++ b/x/ftdc/ftdc.go
@@ -2,6 +2,7 @@ package ftdc
 
 import (
 	"io"
+	"slices"
 	"strings"
 	"time"
 
@@ -104,7 +105,7 @@ type Metric struct {
 }
 
 func (m *Metric) Key() string {
-	return strings.Join(append(m.ParentPath, m.KeyName), ".")
+	return strings.Join(append(slices.Clip(m.ParentPath), m.KeyName), ".")
 }
 
 func (m *Metric) getSeries() any {
-- 
2.43.0


From b27fe74b15023140ba22f69801a892102296a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:41 +0000
Subject: [PATCH 27/49] fix: dynamic FTDC collectors tell apart schemas that
 differ in nesting, types or order of change

---
 x/ftdc/bson_hash.go         | 48 ++++++++++++++++++++-----------------
 x/ftdc/collector_dynamic.go |  7 ++++--
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/x/ftdc/bson_hash.go b/x/ftdc/bson_hash.go
index 3976f0e..db341d6 100644
--- a/x/ftdc/bson_hash.go
+++ b/x/ftdc/bson_hash.go
@@ -4,64 +4,68 @@ import (
 	"fmt"
 	"hash"
 	"hash/fnv"
+	"strconv"
 
 	"github.com/tychoish/birch"
 	"github.com/tychoish/birch/bsontype"
 )
 
+// metricKeyHash identifies the schema of a document: the types and keys
+// of its metrics and how they are nested.
 func metricKeyHash(doc *birch.Document) (string, int) {
 	checksum := fnv.New64()
-	seen := metricKeyHashDocument(checksum, "", doc)
+	seen := metricKeyHashDocument(checksum, doc)
 	return fmt.Sprintf("%x", checksum.Sum(nil)), seen
 }
 
-func metricKeyHashDocument(checksum hash.Hash, key string, doc *birch.Document) int {
+func metricKeyHashDocument(checksum hash.Hash, doc *birch.Document) int {
 	seen := 0
 
 	for elem := range doc.Iterator() {
-		seen += metricKeyHashValue(checksum, fmt.Sprintf("%s.%s", key, elem.Key()), elem.Value())
+		seen += metricKeyHashValue(checksum, elem.Key(), elem.Value())
 	}
 
+	// no type is zero, so this ends the document
+	_, _ = checksum.Write([]byte{0})
+
 	return seen
 }
 
-func metricKeyHashArray(checksum hash.Hash, key string, array *birch.Array) int {
+func metricKeyHashArray(checksum hash.Hash, array *birch.Array) int {
 	seen := 0
 	idx := 0
 
 	for value := range array.Iterator() {
-		seen += metricKeyHashValue(checksum, fmt.Sprintf("%s.%d", key, idx), value)
+		seen += metricKeyHashValue(checksum, strconv.Itoa(idx), value)
 		idx++
 	}
 
+	_, _ = checksum.Write([]byte{0})
+
 	return seen
 }
 
 func metricKeyHashValue(checksum hash.Hash, key string, value *birch.Value) int {
 	switch value.Type() {
 	case bsontype.Array:
-		return metricKeyHashArray(checksum, key, value.MutableArray())
+		writeMetricKey(checksum, key, value)
+		return metricKeyHashArray(checksum, value.MutableArray())
 	case bsontype.EmbeddedDocument:
-		return metricKeyHashDocument(checksum, key, value.MutableDocument())
-	case bsontype.Boolean:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Double:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Int32:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Int64:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.DateTime:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value)
+		return metricKeyHashDocument(checksum, value.MutableDocument())
+	case bsontype.Boolean, bsontype.Double, bsontype.Int32, bsontype.Int64, bsontype.DateTime:
+		writeMetricKey(checksum, key, value)
 		return 1
 	case bsontype.Timestamp:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value)
 		return 2
 	default:
 		return 0
 	}
 }
+
+func writeMetricKey(checksum hash.Hash, key string, value *birch.Value) {
+	_, _ = checksum.Write([]byte{byte(value.Type())})
+	_, _ = checksum.Write([]byte(key))
+	_, _ = checksum.Write([]byte{0})
+}
diff --git a/x/ftdc/collector_dynamic.go b/x/ftdc/collector_dynamic.go
index 443cd93..26aeaa4 100644
--- a/x/ftdc/collector_dynamic.go
+++ b/x/ftdc/collector_dynamic.go
@@ -66,11 +66,14 @@ func (c *dynamicCollector) Add(in any) error {
 
 	lastChunk := c.chunks[len(c.chunks)-1]
 
-	docHash, _ := metricKeyHash(doc)
-	if c.hash == docHash {
+	docHash, num := metricKeyHash(doc)
+	if c.hash == docHash && c.currentNum == num {
 		return (lastChunk.Add(doc))
 	}
 
+	c.hash = docHash
+	c.currentNum = num
+
 	chunk := newBatchCollector(c.maxSamples)
 	c.chunks = append(c.chunks, chunk)
 
-- 
2.43.0


From 386e70d8237817ad8a0642f9c0463fa9b8f09022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:11 +0000
Subject: [PATCH 28/49] fix: streaming FTDC collectors keep their format and
 flush before they are overfull

---
 x/ftdc/collector_streaming.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index e2f22a2..f10d0bf 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -36,7 +36,7 @@ func newStreamingCollector(maxSamples int, writer io.Writer) *streamingCollector
 
 func (c *streamingCollector) Reset() { c.count = 0; c.Collector.Reset() }
 func (c *streamingCollector) Add(in any) error {
-	if c.count-1 >= c.maxSamples {
+	if c.count >= c.maxSamples && c.count > 0 {
 		if err := FlushCollector(c, c.output); err != nil {
 			return fmt.Errorf("problem flushing collector contents: %w", err)
 		}
@@ -96,7 +96,7 @@ func NewStreamingDynamicCollector(max int, writer io.Writer) Collector {
 }
 
 func (c *streamingDynamicCollector) Reset() {
-	c.streamingCollector = newStreamingCollector(c.streamingCollector.maxSamples, c.output)
+	c.streamingCollector.Reset()
 	c.metricCount = 0
 	c.hash = ""
 }
@@ -108,22 +108,14 @@ func (c *streamingDynamicCollector) Add(in any) error {
 	}
 
 	docHash, num := metricKeyHash(doc)
-	if c.hash == "" {
-		c.hash = docHash
-		c.metricCount = num
-		if c.streamingCollector.count > 0 {
-			if err := FlushCollector(c, c.output); err != nil {
-				return err
-			}
-		}
-		return (c.streamingCollector.Add(doc))
-	}
-
-	if c.metricCount != num || c.hash != docHash {
+	if c.hash != "" && (c.metricCount != num || c.hash != docHash) {
 		if err := FlushCollector(c, c.output); err != nil {
 			return err
 		}
 	}
 
+	c.hash = docHash
+	c.metricCount = num
+
 	return (c.streamingCollector.Add(doc))
 }
-- 
2.43.0


From 80b0b03d1e193f29c182b3461678be2edc318315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:46 +0000
Subject: [PATCH 29/49] fix: malformed FTDC chunks are errors instead of panics

---
 x/ftdc/read.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index 3e83491..f6d6008 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -71,7 +71,10 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			if zelem == nil {
 				return errors.New("data is not populated")
 			}
-			_, zBytes := zelem.Value().Binary()
+			_, zBytes, ok := zelem.Value().BinaryOK()
+			if !ok || len(zBytes) < 4 {
+				return errors.New("data is not a metrics chunk")
+			}
 
 			// the metrics chunk, after the first 4 bytes, is zlib
 			// compressed, so we make a reader for that. data
@@ -124,7 +127,8 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 					isInc = !isInc
 				}
 				metrics[i].startingValue = v.startingValue
-				metrics[i].Values = make([]int64, ndeltas)
+				// the number of deltas is not known to be true
+				metrics[i].Values = make([]int64, 0, min(ndeltas, 4096))
 
 				for j := 0; j < ndeltas; j++ {
 					var delta uint64
@@ -143,7 +147,7 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 							}
 						}
 					}
-					metrics[i].Values[j] = int64(delta)
+					metrics[i].Values = append(metrics[i].Values, int64(delta))
 				}
 				if metrics[i].originalType == bsontype.Double {
 					metrics[i].Values = undeltaFloats(v.startingValue, metrics[i].Values)
-- 
2.43.0


From 39a5f8d2aae7b17035d596642050774e45507a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:51 +0000
Subject: [PATCH 30/49] fix: errors of reading FTDC data are reported when
 iteration ends

---
 x/ftdc/iterator_chunk.go | 11 +++++++++--
 x/ftdc/read.go           |  5 +----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/x/ftdc/iterator_chunk.go b/x/ftdc/iterator_chunk.go
index 662cf4c..c816822 100644
--- a/x/ftdc/iterator_chunk.go
+++ b/x/ftdc/iterator_chunk.go
@@ -21,8 +21,15 @@ func ReadChunks(r io.Reader) *Iterator[*Chunk] {
 			ctx, cancel := context.WithCancel(context.Background())
 			defer cancel()
 
-			go func() { out.catcher.Push(readChunks(ctx, msi, ipc, pipe)) }()
-			go func() { out.catcher.Push(readDiagnostic(ctx, r, ipc)) }()
+			// errors are recorded before the iterator can end
+			go func() {
+				defer close(pipe)
+				out.catcher.Push(readChunks(ctx, msi, ipc, pipe))
+			}()
+			go func() {
+				defer close(ipc)
+				out.catcher.Push(readDiagnostic(ctx, r, ipc))
+			}()
 
 			for {
 				select {
diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index f6d6008..1218d5e 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -15,7 +15,6 @@ import (
 )
 
 func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document) error {
-	defer close(ch)
 	buf := bufio.NewReader(f)
 	for {
 		doc, err := readBufBSON(buf)
@@ -35,14 +34,12 @@ func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document)
 }
 
 func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Document, o chan<- *Chunk) error {
-	defer close(o)
-
 	var metadata *birch.Document
 
 	for {
 		select {
 		case <-ctx.Done():
-			return ctx.Err()
+			return nil
 		case doc, ok := <-ch:
 			if !ok {
 				return nil
-- 
2.43.0


From 2457f4a76feb1a858e732f4d950bbddb4710b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:26 +0000
Subject: [PATCH 31/49] fix: buffered FTDC collectors lose no samples and never
 panic

---
 x/ftdc/collector_buffered.go | 60 +++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/x/ftdc/collector_buffered.go b/x/ftdc/collector_buffered.go
index 7cf7ebb..fcdaae7 100644
--- a/x/ftdc/collector_buffered.go
+++ b/x/ftdc/collector_buffered.go
@@ -2,6 +2,7 @@ package ftdc
 
 import (
 	"context"
+	"sync"
 
 	"github.com/tychoish/fun/erc"
 )
@@ -11,8 +12,13 @@ type bufferedCollector struct {
 	pipe    chan any
 	catcher erc.Collector
 	ctx     context.Context
+	adding  sync.RWMutex
+	done    chan struct{}
 }
 
+// barrier passes through the buffer after the samples added before it.
+type barrier chan struct{}
+
 // NewBufferedCollector wraps an existing collector with a buffer to
 // normalize throughput to an underlying collector implementation.
 func NewBufferedCollector(ctx context.Context, size int, coll Collector) Collector {
@@ -20,29 +26,64 @@ func NewBufferedCollector(ctx context.Context, size int, coll Collector) Collect
 		Collector: coll,
 		pipe:      make(chan any, size),
 		ctx:       ctx,
+		done:      make(chan struct{}),
 	}
 
 	go func() {
+		defer close(c.done)
 		for {
 			select {
 			case <-ctx.Done():
-				close(c.pipe)
-				if len(c.pipe) != 0 {
-					for in := range c.pipe {
-						c.catcher.Push(c.Collector.Add(in))
+				// calls of Add that have not returned yet
+				// either give up or are in the buffer
+				c.adding.Lock()
+				defer c.adding.Unlock()
+				for {
+					select {
+					case in := <-c.pipe:
+						c.collect(in)
+					default:
+						return
 					}
 				}
-
-				return
 			case in := <-c.pipe:
-				c.catcher.Push(c.Collector.Add(in))
+				c.collect(in)
 			}
 		}
 	}()
 	return c
 }
 
+func (c *bufferedCollector) collect(in any) {
+	if b, ok := in.(barrier); ok {
+		close(b)
+		return
+	}
+	c.catcher.Push(c.Collector.Add(in))
+}
+
+// wait blocks until the samples that were added are in the underlying
+// collector.
+func (c *bufferedCollector) wait() {
+	b := make(barrier)
+	select {
+	case <-c.done:
+	case c.pipe <- b:
+		select {
+		case <-c.done:
+		case <-b:
+		}
+	}
+}
+
 func (c *bufferedCollector) Add(in any) error {
+	c.adding.RLock()
+	defer c.adding.RUnlock()
+
+	if err := c.ctx.Err(); err != nil {
+		return err
+	}
+
 	select {
 	case <-c.ctx.Done():
 		return c.ctx.Err()
@@ -51,7 +92,12 @@ func (c *bufferedCollector) Add(in any) error {
 	}
 }
 
+func (c *bufferedCollector) SetMetadata(in any) error { c.wait(); return c.Collector.SetMetadata(in) }
+func (c *bufferedCollector) Info() CollectorInfo      { c.wait(); return c.Collector.Info() }
+func (c *bufferedCollector) Reset()                   { c.wait(); c.Collector.Reset() }
+
 func (c *bufferedCollector) Resolve() ([]byte, error) {
+	c.wait()
 	if !c.catcher.Ok() {
 		return nil, c.catcher.Resolve()
 	}
-- 
2.43.0


From 8d7b3d982fe65f3db7dced22b122c83db9dc68b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:08 +0000
Subject: [PATCH 32/49] fix: FTDC writers keep no reference to the caller's
 buffer

---
 x/ftdc/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/writer.go b/x/ftdc/writer.go
index 1578f99..4040fa6 100644
--- a/x/ftdc/writer.go
+++ b/x/ftdc/writer.go
@@ -23,7 +23,8 @@ func NewWriterCollector(chunkSize int, writer io.WriteCloser) io.WriteCloser {
 }
 
 func (w *writerCollector) Write(in []byte) (int, error) {
-	doc, err := birch.ReadDocument(in)
+	// the caller may reuse the buffer after the call
+	doc, err := birch.ReadDocument(append([]byte{}, in...))
 	if err != nil {
 		return 0, fmt.Errorf("problem reading bson document: %w", err)
 	}
-- 
2.43.0


From 9aa435ac7b6551e643a53324fbf617ac0d3c0db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:08 +0000
Subject: [PATCH 33/49] fix: CSV conversions report errors and hold the values
 of doubles

---
 x/ftdc/csv.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/x/ftdc/csv.go b/x/ftdc/csv.go
index c27a89a..649d5c1 100644
--- a/x/ftdc/csv.go
+++ b/x/ftdc/csv.go
@@ -1,7 +1,6 @@
 package ftdc
 
 import (
-	"context"
 	"encoding/csv"
 	"errors"
 	"fmt"
@@ -27,7 +26,9 @@ func (c *Chunk) getRecord(i int) []string {
 	fields := make([]string, len(c.Metrics))
 	for idx, m := range c.Metrics {
 		switch m.originalType {
-		case bsontype.Double, bsontype.Int32, bsontype.Int64, bsontype.Boolean, bsontype.Timestamp:
+		case bsontype.Double:
+			fields[idx] = strconv.FormatFloat(restoreFloat(m.Values[i]), 'g', -1, 64)
+		case bsontype.Int32, bsontype.Int64, bsontype.Boolean, bsontype.Timestamp:
 			fields[idx] = strconv.FormatInt(m.Values[i], 10)
 		case bsontype.DateTime:
 			fields[idx] = time.Unix(m.Values[i]/1000, 0).Format(time.RFC3339)
@@ -153,7 +154,7 @@ func DumpCSV(seq iter.Seq[*Chunk], prefix string) error {
 // If the number of fields changes in the CSV fields, the first field
 // with the changed number of fields becomes the header for the
 // subsequent documents in the stream.
-func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
+func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) (err error) {
 	csvr := csv.NewReader(input)
 
 	header, err := csvr.Read()
@@ -164,8 +165,9 @@ func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
 	collector := NewStreamingDynamicCollector(bucketSize, output)
 
 	defer func() {
-		if err != nil && (!errors.Is(err, context.Canceled) || !errors.Is(err, context.DeadlineExceeded)) {
+		if err != nil {
 			err = fmt.Errorf("omitting final flush, because of prior error: %w", err)
+			return
 		}
 		err = FlushCollector(collector, output)
 	}()
@@ -193,12 +195,11 @@ func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
 
 		elems := make([]*birch.Element, 0, len(header))
 		for idx := range record {
-			var val int
-			val, err = strconv.Atoi(record[idx])
-			if err != nil {
-				continue
+			if val, err := strconv.ParseInt(record[idx], 10, 64); err == nil {
+				elems = append(elems, birch.EC.Int64(header[idx], val))
+			} else if val, err := strconv.ParseFloat(record[idx], 64); err == nil {
+				elems = append(elems, birch.EC.Double(header[idx], val))
 			}
-			elems = append(elems, birch.EC.Int64(header[idx], int64(val)))
 		}
 
 		if err = collector.Add(birch.DC.Elements(elems...)); err != nil {
-- 
2.43.0


From 1317cb3e14807156f42202efbba2fa2cc782b1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:10 +0000
Subject: [PATCH 34/49] fix: a nil unsets the metadata of an FTDC collector

---
 x/ftdc/collector_better.go       | 5 +++++
 x/ftdc/collector_uncompressed.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/x/ftdc/collector_better.go b/x/ftdc/collector_better.go
index cd00b69..11c43d5 100644
--- a/x/ftdc/collector_better.go
+++ b/x/ftdc/collector_better.go
@@ -33,6 +33,11 @@ func NewBaseCollector(maxSize int) Collector {
 }
 
 func (c *betterCollector) SetMetadata(in any) error {
+	if in == nil {
+		c.metadata = nil
+		return nil
+	}
+
 	doc, err := readDocument(in)
 	if err != nil {
 		return err
diff --git a/x/ftdc/collector_uncompressed.go b/x/ftdc/collector_uncompressed.go
index 5eb63b9..bce2eb8 100644
--- a/x/ftdc/collector_uncompressed.go
+++ b/x/ftdc/collector_uncompressed.go
@@ -156,6 +156,11 @@ func (c *uncompressedCollector) Info() CollectorInfo {
 }
 
 func (c *uncompressedCollector) SetMetadata(in any) error {
+	if in == nil {
+		c.metadata = nil
+		return nil
+	}
+
 	doc, err := readDocument(in)
 	if err != nil {
 		return err
-- 
2.43.0


From b32389b663073ee5145503af6899e3b758a2cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:37 +0000
Subject: [PATCH 35/49] fix: FTDC data that ends inside a document is an error

---
 x/ftdc/read.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index 1218d5e..9cde1d1 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -17,10 +17,14 @@ import (
 func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document) error {
 	buf := bufio.NewReader(f)
 	for {
+		// a stream ends between documents
+		if _, err := buf.Peek(1); err == io.EOF {
+			return nil
+		}
 		doc, err := readBufBSON(buf)
 		if err != nil {
 			if err == io.EOF {
-				err = nil
+				err = io.ErrUnexpectedEOF
 			}
 			return err
 		}
-- 
2.43.0


From f1fd3b88a14d7e56af63b9650a044a1706e6a7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:41 +0000
Subject: [PATCH 36/49] fix: performance events are restored with all their
 fields or refused

---
 x/ftdc/events/performance.go | 68 ++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 19 deletions(-)

diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 31cc8d4..7407791 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -13,6 +13,7 @@
 package events
 
 import (
+	"fmt"
 	"time"
 
 	"github.com/tychoish/birch"
@@ -87,39 +88,57 @@ func (p *Performance) MarshalDocument() (*birch.Document, error) {
 
 func (p *Performance) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		ok := true
 		switch elem.Key() {
 		case "ts":
-			p.Timestamp = elem.Value().Time()
+			p.Timestamp, ok = elem.Value().TimeOK()
 		case "id":
-		case "counters":
-			if err := p.Counters.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
-				return err
+			p.ID, ok = elem.Value().Int64OK()
+		case "counters", "timers", "gauges":
+			var sub *birch.Document
+			if sub, ok = elem.Value().MutableDocumentOK(); !ok {
+				break
 			}
-		case "timers":
-			if err := p.Timers.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
-				return err
+			var err error
+			switch elem.Key() {
+			case "counters":
+				err = p.Counters.UnmarshalDocument(sub)
+			case "timers":
+				err = p.Timers.UnmarshalDocument(sub)
+			case "gauges":
+				err = p.Gauges.UnmarshalDocument(sub)
 			}
-		case "gauges":
-			if err := p.Gauges.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
+			if err != nil {
 				return err
 			}
 		}
+		if !ok {
+			return unexpectedType(elem)
+		}
 	}
 
 	return nil
 }
 
+func unexpectedType(elem *birch.Element) error {
+	return fmt.Errorf("field %q of a performance event has unexpected type %s", elem.Key(), elem.Value().Type())
+}
+
 func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		ok := true
 		switch elem.Key() {
 		case "n":
-			p.Number = elem.Value().Int64()
-		case "opts":
-			p.Operations = elem.Value().Int64()
+			p.Number, ok = elem.Value().Int64OK()
+		case "ops":
+			p.Operations, ok = elem.Value().Int64OK()
 		case "size":
-			p.Size = elem.Value().Int64()
+			p.Size, ok = elem.Value().Int64OK()
 		case "errors":
-			p.Errors = elem.Value().Int64()
+			p.Errors, ok = elem.Value().Int64OK()
+		}
+		if !ok {
+			return unexpectedType(elem)
 		}
 	}
 
@@ -128,11 +147,18 @@ func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 
 func (p *PerformanceTimers) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		var val int64
+		ok := true
 		switch elem.Key() {
 		case "dur":
-			p.Duration = time.Duration(elem.Value().Int64())
+			val, ok = elem.Value().Int64OK()
+			p.Duration = time.Duration(val)
 		case "total":
-			p.Total = time.Duration(elem.Value().Int64())
+			val, ok = elem.Value().Int64OK()
+			p.Total = time.Duration(val)
+		}
+		if !ok {
+			return unexpectedType(elem)
 		}
 	}
 
@@ -141,13 +167,17 @@ func (p *PerformanceTimers) UnmarshalDocument(doc *birch.Document) error {
 
 func (p *PerformanceGauges) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		ok := true
 		switch elem.Key() {
 		case "state":
-			p.State = elem.Value().Int64()
+			p.State, ok = elem.Value().Int64OK()
 		case "workers":
-			p.Workers = elem.Value().Int64()
+			p.Workers, ok = elem.Value().Int64OK()
 		case "failed":
-			p.Failed = elem.Value().Boolean()
+			p.Failed, ok = elem.Value().BooleanOK()
+		}
+		if !ok {
+			return unexpectedType(elem)
 		}
 	}
 
-- 
2.43.0


From ed366dd287a2b8cf7f3b5b3043a924af57a183b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:42 +0000
Subject: [PATCH 37/49] fix: random sampling of events takes all of them at 100
 percent

---
 x/ftdc/events/collector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/events/collector.go b/x/ftdc/events/collector.go
index 876bdf8..ddac684 100644
--- a/x/ftdc/events/collector.go
+++ b/x/ftdc/events/collector.go
@@ -154,7 +154,7 @@ func (c *randSamplingCollector) AddEvent(in *Performance) error {
 }
 
 func (c *randSamplingCollector) shouldCollect() bool {
-	if c.percent > 100 {
+	if c.percent >= 100 {
 		return true
 	}
 
@@ -162,7 +162,7 @@ func (c *randSamplingCollector) shouldCollect() bool {
 		return false
 	}
 
-	return rand.Intn(101) < c.percent
+	return rand.Intn(100) < c.percent
 }
 
 type intervalSamplingCollector struct {
-- 
2.43.0


From af883c3ba8eb37691fd6f132397e31ac849f5184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:42 +0000
Subject: [PATCH 38/49] fix: collectors of events neither keep nor change the
 caller's events

---
 x/ftdc/events/collector.go | 40 +++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/x/ftdc/events/collector.go b/x/ftdc/events/collector.go
index ddac684..63720af 100644
--- a/x/ftdc/events/collector.go
+++ b/x/ftdc/events/collector.go
@@ -47,13 +47,21 @@ func (c *basicCumulativeCollector) AddEvent(in *Performance) error {
 	if in == nil {
 		return errors.New("cannot add nil performance event")
 	}
-	if c.current == nil {
-		c.current = in
-		return c.Collector.Add(c.current)
+	c.current = accumulate(c.current, in)
+	return c.Collector.Add(c.current)
+}
+
+// accumulate adds the event to the sum of those before it. The result is a new value: events belong
+// to the caller, and collectors may read the ones they were given later.
+func accumulate(current, in *Performance) *Performance {
+	event := *in
+	if current == nil {
+		return &event
 	}
 
-	c.current.Add(in)
-	return c.Collector.Add(c.current)
+	sum := *current
+	sum.Add(&event)
+	return &sum
 }
 
 type passthroughCollector struct {
@@ -101,11 +109,7 @@ func (c *samplingCollector) AddEvent(in *Performance) error {
 		return errors.New("cannot add nil performance event")
 	}
 
-	if c.current == nil {
-		c.current = in
-	} else {
-		c.current.Add(in)
-	}
+	c.current = accumulate(c.current, in)
 
 	shouldCollect := c.count%c.sample == 0
 	c.count++
@@ -141,11 +145,7 @@ func (c *randSamplingCollector) AddEvent(in *Performance) error {
 		return errors.New("cannot add nil performance event")
 	}
 
-	if c.current == nil {
-		c.current = in
-	} else {
-		c.current.Add(in)
-	}
+	c.current = accumulate(c.current, in)
 
 	if c.shouldCollect() {
 		return c.Collector.Add(c.current)
@@ -188,13 +188,9 @@ func (c *intervalSamplingCollector) AddEvent(in *Performance) error {
 		return errors.New("cannot add nil performance event")
 	}
 
-	if c.current == nil {
-		c.current = in
-		c.lastCollected = time.Now()
-		return c.Collector.Add(c.current)
-	}
-	c.current.Add(in)
-	if time.Since(c.lastCollected) >= c.dur {
+	first := c.current == nil
+	c.current = accumulate(c.current, in)
+	if first || time.Since(c.lastCollected) >= c.dur {
 		c.lastCollected = time.Now()
 		return c.Collector.Add(c.current)
 	}
-- 
2.43.0


From 7b69964d64d6ba0053cefa6f9df4706d21b0790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:42 +0000
Subject: [PATCH 39/49] fix: every type of custom points that is accepted can
 be recorded

---
 x/ftdc/events/custom.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/events/custom.go b/x/ftdc/events/custom.go
index b92ed9b..655db68 100644
--- a/x/ftdc/events/custom.go
+++ b/x/ftdc/events/custom.go
@@ -93,7 +93,7 @@ func (ps Custom) MarshalDocument() (*birch.Document, error) {
 	doc := birch.DC.Make(ps.Len())
 
 	for _, elem := range ps {
-		de, err := birch.ECE.Interface(elem.Name, elem.Value)
+		de, err := elem.element()
 		if err != nil {
 			return nil, err
 		}
@@ -102,3 +102,25 @@ func (ps Custom) MarshalDocument() (*birch.Document, error) {
 
 	return doc, nil
 }
+
+// element converts the point, including the slices that have no element constructor.
+func (p CustomPoint) element() (*birch.Element, error) {
+	switch vals := p.Value.(type) {
+	case []bool:
+		return birch.ECE.SliceInterface(p.Name, toInterfaces(vals))
+	case []uint32:
+		return birch.ECE.SliceInterface(p.Name, toInterfaces(vals))
+	case []uint64:
+		return birch.ECE.SliceInterface(p.Name, toInterfaces(vals))
+	default:
+		return birch.ECE.Interface(p.Name, p.Value)
+	}
+}
+
+func toInterfaces[T any](in []T) []any {
+	out := make([]any, len(in))
+	for idx := range in {
+		out[idx] = in[idx]
+	}
+	return out
+}
-- 
2.43.0


From f0b10d62fab6a3c6c1a80dd63ba1cd6381b4db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 40/49] fix: recorders report the errors of their collector
 when a test ends

---
 x/ftdc/events/recorder_histogram.go            | 5 +++--
 x/ftdc/events/recorder_histogram_grouped.go    | 5 +++--
 x/ftdc/events/recorder_histogram_interval.go   | 5 +++--
 x/ftdc/events/recorder_histogram_single.go     | 5 +++--
 x/ftdc/events/recorder_performance_grouped.go  | 5 +++--
 x/ftdc/events/recorder_performance_interval.go | 5 +++--
 x/ftdc/events/recorder_performance_raw.go      | 5 +++--
 7 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/x/ftdc/events/recorder_histogram.go b/x/ftdc/events/recorder_histogram.go
index b44dd4e..4f4f881 100644
--- a/x/ftdc/events/recorder_histogram.go
+++ b/x/ftdc/events/recorder_histogram.go
@@ -11,7 +11,7 @@ type histogramStream struct {
 	point     *PerformanceHDR
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 }
 
 // NewHistogramRecorder collects data and stores them with a histogram format.
@@ -29,6 +29,7 @@ func NewHistogramRecorder(collector ftdc.Collector) Recorder {
 	return &histogramStream{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		catcher:   &erc.Collector{},
 	}
 }
 
@@ -85,7 +86,7 @@ func (r *histogramStream) EndTest() error {
 }
 
 func (r *histogramStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.started = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index 46ae3a3..57e7530 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -13,7 +13,7 @@ type histogramGroupedStream struct {
 	started       time.Time
 	interval      time.Duration
 	collector     ftdc.Collector
-	catcher       erc.Collector
+	catcher       *erc.Collector
 }
 
 // NewHistogramGroupedRecorder captures data and stores them with a
@@ -32,6 +32,7 @@ func NewHistogramGroupedRecorder(collector ftdc.Collector, interval time.Duratio
 	return &histogramGroupedStream{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		catcher:   &erc.Collector{},
 	}
 }
 
@@ -95,7 +96,7 @@ func (r *histogramGroupedStream) EndTest() error {
 }
 
 func (r *histogramGroupedStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.lastCollected = time.Time{}
 	r.started = time.Time{}
diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index cadc7f8..ea87fba 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -13,7 +13,7 @@ type intervalHistogramStream struct {
 	point     *PerformanceHDR
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 	sync.Mutex
 
 	interval time.Duration
@@ -32,6 +32,7 @@ type intervalHistogramStream struct {
 func NewIntervalHistogramRecorder(ctx context.Context, collector ftdc.Collector, interval time.Duration) Recorder {
 	return &intervalHistogramStream{
 		collector: collector,
+		catcher:   &erc.Collector{},
 		rootCtx:   ctx,
 		interval:  interval,
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
@@ -143,7 +144,7 @@ func (r *intervalHistogramStream) reset() {
 		r.canceler()
 		r.canceler = nil
 	}
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.started = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_histogram_single.go b/x/ftdc/events/recorder_histogram_single.go
index 0d3f9f8..26ccc13 100644
--- a/x/ftdc/events/recorder_histogram_single.go
+++ b/x/ftdc/events/recorder_histogram_single.go
@@ -11,7 +11,7 @@ type histogramSingle struct {
 	point     *PerformanceHDR
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 }
 
 // NewSingleHistogramRecorder collects data and stores them with a histogram
@@ -29,6 +29,7 @@ func NewSingleHistogramRecorder(collector ftdc.Collector) Recorder {
 	return &histogramSingle{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		catcher:   &erc.Collector{},
 	}
 }
 
@@ -82,7 +83,7 @@ func (r *histogramSingle) EndTest() error {
 }
 
 func (r *histogramSingle) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.started = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_performance_grouped.go b/x/ftdc/events/recorder_performance_grouped.go
index 77d460f..37ff3cd 100644
--- a/x/ftdc/events/recorder_performance_grouped.go
+++ b/x/ftdc/events/recorder_performance_grouped.go
@@ -13,7 +13,7 @@ type groupStream struct {
 	interval      time.Duration
 	point         *Performance
 	collector     ftdc.Collector
-	catcher       erc.Collector
+	catcher       *erc.Collector
 }
 
 // NewGroupedRecorder blends the single and the interval recorders, but it
@@ -25,6 +25,7 @@ type groupStream struct {
 func NewGroupedRecorder(collector ftdc.Collector, interval time.Duration) Recorder {
 	return &groupStream{
 		collector:     collector,
+		catcher:       &erc.Collector{},
 		point:         &Performance{Timestamp: time.Time{}},
 		interval:      interval,
 		lastCollected: time.Now(),
@@ -69,7 +70,7 @@ func (r *groupStream) EndTest() error {
 }
 
 func (r *groupStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 2d121ba..76de1aa 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -13,7 +13,7 @@ type intervalStream struct {
 	point     *Performance
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 	sync.Mutex
 
 	interval time.Duration
@@ -32,6 +32,7 @@ type intervalStream struct {
 func NewIntervalRecorder(ctx context.Context, collector ftdc.Collector, interval time.Duration) Recorder {
 	return &intervalStream{
 		collector: collector,
+		catcher:   &erc.Collector{},
 		rootCtx:   ctx,
 		point:     &Performance{Timestamp: time.Time{}},
 		interval:  interval,
@@ -129,7 +130,7 @@ func (r *intervalStream) reset() {
 		r.canceler()
 		r.canceler = nil
 	}
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
diff --git a/x/ftdc/events/recorder_performance_raw.go b/x/ftdc/events/recorder_performance_raw.go
index f3c086a..58806d8 100644
--- a/x/ftdc/events/recorder_performance_raw.go
+++ b/x/ftdc/events/recorder_performance_raw.go
@@ -11,7 +11,7 @@ type rawStream struct {
 	started   time.Time
 	point     *Performance
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 }
 
 // NewRawRecorder records a new event every time that the EndIteration method
@@ -22,6 +22,7 @@ type rawStream struct {
 func NewRawRecorder(collector ftdc.Collector) Recorder {
 	return &rawStream{
 		collector: collector,
+		catcher:   &erc.Collector{},
 		point:     &Performance{Timestamp: time.Time{}},
 	}
 }
@@ -60,7 +61,7 @@ func (r *rawStream) EndTest() error {
 }
 
 func (r *rawStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
-- 
2.43.0


From 73d3c354fd5ea4eac180400d72896a1ae1f50b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 41/49] fix: interval recorders do not keep their lock when a
 test ends

---
 x/ftdc/events/recorder_histogram_interval.go   | 1 +
 x/ftdc/events/recorder_performance_interval.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index ea87fba..08dd786 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -53,6 +53,7 @@ func (r *intervalHistogramStream) worker(ctx context.Context, interval time.Dura
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 76de1aa..376cc1d 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -53,6 +53,7 @@ func (r *intervalStream) worker(ctx context.Context, interval time.Duration) {
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
-- 
2.43.0


From 83970007902fa62d0438df2366eec7491f298eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 42/49] fix: recorders persist every operation once, at its own
 time and interval

---
 x/ftdc/events/recorder_histogram.go           | 18 +++++++++++++++---
 x/ftdc/events/recorder_histogram_grouped.go   | 19 ++++++++++++++++---
 x/ftdc/events/recorder_histogram_interval.go  |  1 +
 x/ftdc/events/recorder_performance_grouped.go | 13 ++++++++++---
 .../events/recorder_performance_interval.go   |  7 ++++++-
 x/ftdc/events/recorder_performance_raw.go     | 10 +++++++++-
 6 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/x/ftdc/events/recorder_histogram.go b/x/ftdc/events/recorder_histogram.go
index 4f4f881..0a7ba5e 100644
--- a/x/ftdc/events/recorder_histogram.go
+++ b/x/ftdc/events/recorder_histogram.go
@@ -8,6 +8,7 @@ import (
 )
 
 type histogramStream struct {
+	persisted bool
 	point     *PerformanceHDR
 	started   time.Time
 	collector ftdc.Collector
@@ -49,8 +50,17 @@ func (r *histogramStream) IncError(val int64) {
 	r.catcher.Push(r.point.Counters.Errors.RecordValue(val))
 }
 
-func (r *histogramStream) EndIteration(dur time.Duration) {
+// setTimestamp gives the point a time: the time of a point that was already persisted is not kept.
+func (r *histogramStream) setTimestamp() {
+	if r.persisted {
+		r.point.Timestamp = time.Time{}
+		r.persisted = false
+	}
 	r.point.setTimestamp(r.started)
+}
+
+func (r *histogramStream) EndIteration(dur time.Duration) {
+	r.setTimestamp()
 	r.catcher.Push(r.point.Counters.Number.RecordValue(1))
 	r.catcher.Push(r.point.Timers.Duration.RecordValue(int64(dur)))
 	if !r.started.IsZero() {
@@ -59,6 +69,7 @@ func (r *histogramStream) EndIteration(dur time.Duration) {
 	}
 
 	r.catcher.Push(r.collector.Add(r.point))
+	r.persisted = true
 }
 
 func (r *histogramStream) SetDuration(dur time.Duration) {
@@ -73,8 +84,8 @@ func (r *histogramStream) IncIterations(val int64) {
 	r.catcher.Push(r.point.Counters.Number.RecordValue(val))
 }
 
-func (r *histogramStream) SetTime(t time.Time) { r.point.Timestamp = t }
-func (r *histogramStream) BeginIteration()     { r.started = time.Now(); r.point.setTimestamp(r.started) }
+func (r *histogramStream) SetTime(t time.Time) { r.point.Timestamp = t; r.persisted = false }
+func (r *histogramStream) BeginIteration()     { r.started = time.Now(); r.setTimestamp() }
 
 func (r *histogramStream) EndTest() error {
 	if !r.point.Timestamp.IsZero() {
@@ -89,4 +100,5 @@ func (r *histogramStream) Reset() {
 	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.started = time.Time{}
+	r.persisted = false
 }
diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index 57e7530..e21ad29 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -8,6 +8,7 @@ import (
 )
 
 type histogramGroupedStream struct {
+	persisted     bool
 	point         *PerformanceHDR
 	lastCollected time.Time
 	started       time.Time
@@ -33,6 +34,7 @@ func NewHistogramGroupedRecorder(collector ftdc.Collector, interval time.Duratio
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
 		catcher:   &erc.Collector{},
+		interval:  interval,
 	}
 }
 
@@ -52,8 +54,17 @@ func (r *histogramGroupedStream) IncError(val int64) {
 	r.catcher.Push(r.point.Counters.Errors.RecordValue(val))
 }
 
-func (r *histogramGroupedStream) EndIteration(dur time.Duration) {
+// setTimestamp gives the point a time: the time of a point that was already persisted is not kept.
+func (r *histogramGroupedStream) setTimestamp() {
+	if r.persisted {
+		r.point.Timestamp = time.Time{}
+		r.persisted = false
+	}
 	r.point.setTimestamp(r.started)
+}
+
+func (r *histogramGroupedStream) EndIteration(dur time.Duration) {
+	r.setTimestamp()
 	r.catcher.Push(r.point.Counters.Number.RecordValue(1))
 	r.catcher.Push(r.point.Timers.Duration.RecordValue(int64(dur)))
 
@@ -65,6 +76,7 @@ func (r *histogramGroupedStream) EndIteration(dur time.Duration) {
 	if time.Since(r.lastCollected) >= r.interval {
 		r.catcher.Push(r.collector.Add(r.point))
 		r.lastCollected = time.Now()
+		r.persisted = true
 	}
 }
 
@@ -80,10 +92,10 @@ func (r *histogramGroupedStream) IncIterations(val int64) {
 	r.catcher.Push(r.point.Counters.Number.RecordValue(val))
 }
 
-func (r *histogramGroupedStream) SetTime(t time.Time) { r.point.Timestamp = t }
+func (r *histogramGroupedStream) SetTime(t time.Time) { r.point.Timestamp = t; r.persisted = false }
 func (r *histogramGroupedStream) BeginIteration() {
 	r.started = time.Now()
-	r.point.setTimestamp(r.started)
+	r.setTimestamp()
 }
 
 func (r *histogramGroupedStream) EndTest() error {
@@ -100,4 +112,5 @@ func (r *histogramGroupedStream) Reset() {
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.lastCollected = time.Time{}
 	r.started = time.Time{}
+	r.persisted = false
 }
diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index 08dd786..b8b7d07 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -88,6 +88,7 @@ func (r *intervalHistogramStream) EndIteration(dur time.Duration) {
 
 	if !r.started.IsZero() {
 		r.catcher.Push(r.point.Timers.Total.RecordValue(int64(time.Since(r.started))))
+		r.started = time.Time{}
 	}
 
 	r.Unlock()
diff --git a/x/ftdc/events/recorder_performance_grouped.go b/x/ftdc/events/recorder_performance_grouped.go
index 37ff3cd..e351d25 100644
--- a/x/ftdc/events/recorder_performance_grouped.go
+++ b/x/ftdc/events/recorder_performance_grouped.go
@@ -9,6 +9,7 @@ import (
 
 type groupStream struct {
 	started       time.Time
+	persisted     Performance
 	lastCollected time.Time
 	interval      time.Duration
 	point         *Performance
@@ -50,18 +51,23 @@ func (r *groupStream) EndIteration(dur time.Duration) {
 		r.point.Timers.Total += time.Since(r.started)
 	}
 	r.point.Timers.Duration += dur
+	r.point.setTimestamp(r.started)
 
 	if time.Since(r.lastCollected) >= r.interval {
-		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.collector.Add(r.point))
 		r.lastCollected = time.Now()
-		r.point.Timestamp = time.Time{}
+		// the next event has a time of its own, and the collector may read this one later
+		r.persisted = *r.point
+		r.persisted.Timestamp = time.Time{}
+		next := r.persisted
+		r.point = &next
 	}
 	r.started = time.Time{}
 }
 
 func (r *groupStream) EndTest() error {
-	if !r.point.Timestamp.IsZero() {
+	if *r.point != r.persisted {
+		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.collector.Add(r.point))
 	}
 	err := r.catcher.Resolve()
@@ -74,6 +80,7 @@ func (r *groupStream) Reset() {
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
+	r.persisted = *r.point
 	r.started = time.Time{}
 	r.lastCollected = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 376cc1d..e554b09 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -11,6 +11,7 @@ import (
 
 type intervalStream struct {
 	point     *Performance
+	persisted Performance
 	started   time.Time
 	collector ftdc.Collector
 	catcher   *erc.Collector
@@ -61,6 +62,7 @@ func (r *intervalStream) worker(ctx context.Context, interval time.Duration) {
 			r.point = &Performance{
 				Gauges: r.point.Gauges,
 			}
+			r.persisted = *r.point
 			r.Unlock()
 		}
 	}
@@ -97,6 +99,7 @@ func (r *intervalStream) EndIteration(dur time.Duration) {
 	r.Lock()
 
 	r.point.setTimestamp(r.started)
+	r.point.Counters.Number++
 	if !r.started.IsZero() {
 		r.point.Timers.Total += time.Since(r.started)
 		r.started = time.Time{}
@@ -109,7 +112,8 @@ func (r *intervalStream) EndIteration(dur time.Duration) {
 func (r *intervalStream) EndTest() error {
 	r.Lock()
 
-	if !r.point.Timestamp.IsZero() {
+	if *r.point != r.persisted {
+		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.collector.Add(r.point))
 	}
 	err := r.catcher.Resolve()
@@ -135,6 +139,7 @@ func (r *intervalStream) reset() {
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
+	r.persisted = *r.point
 	r.started = time.Time{}
 }
 
diff --git a/x/ftdc/events/recorder_performance_raw.go b/x/ftdc/events/recorder_performance_raw.go
index 58806d8..b1461ff 100644
--- a/x/ftdc/events/recorder_performance_raw.go
+++ b/x/ftdc/events/recorder_performance_raw.go
@@ -8,6 +8,7 @@ import (
 )
 
 type rawStream struct {
+	persisted Performance
 	started   time.Time
 	point     *Performance
 	collector ftdc.Collector
@@ -48,11 +49,17 @@ func (r *rawStream) EndIteration(dur time.Duration) {
 	r.point.setTimestamp(r.started)
 	r.point.Timers.Duration += dur
 	r.catcher.Push(r.collector.Add(r.point))
+	// the next event has a time of its own, and the collector may read this one later
+	r.persisted = *r.point
+	r.persisted.Timestamp = time.Time{}
+	next := r.persisted
+	r.point = &next
 	r.started = time.Time{}
 }
 
 func (r *rawStream) EndTest() error {
-	if !r.point.Timestamp.IsZero() {
+	if *r.point != r.persisted {
+		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.collector.Add(r.point))
 	}
 	err := r.catcher.Resolve()
@@ -65,5 +72,6 @@ func (r *rawStream) Reset() {
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
+	r.persisted = *r.point
 	r.started = time.Time{}
 }
-- 
2.43.0


From 98f7857a8f1cfd15d90aa83118edf88958985263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 43/49] fix: linked documents have a length and take elements
 that are new

---
 x/blist/blist.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/blist/blist.go b/x/blist/blist.go
index a935837..0800328 100644
--- a/x/blist/blist.go
+++ b/x/blist/blist.go
@@ -10,7 +10,7 @@ type Document struct {
 	dt.List[*birch.Element]
 }
 
-func (d *Document) Len() int { return d.Len() }
+func (d *Document) Len() int { return d.List.Len() }
 func (d *Document) Append(elems ...*birch.Element) *Document {
 	for idx := range elems {
 		if elems[idx] == nil {
@@ -41,13 +41,18 @@ func (d *Document) Prepend(elems ...*birch.Element) *Document {
 }
 
 func (d *Document) Set(elem *birch.Element) *Document {
+	if elem == nil {
+		panic(bsonerr.NilElement)
+	}
+
 	for e := d.Front(); e.Ok(); e = e.Next() {
 		if e.Value().Key() != elem.Key() {
 			continue
 		}
 		e.Set(elem)
-		break
+		return d
 	}
+	d.PushBack(elem)
 	return d
 }
 
-- 
2.43.0


From aabe0865ffad2696e50725c057e28b19f24a82d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 44/49] fix: parallel metrics collectors finish and report
 panics

---
 x/ftdc/metrics/metrics.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index 13937b8..d63e3c0 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -110,12 +110,12 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		wg.Add(1)
 
 		go func() {
+			defer wg.Done()
 			defer func() {
 				if p := recover(); p != nil {
 					catcher.Push(fmt.Errorf("ftdc metrics collector panic: %v", p))
 				}
 			}()
-			defer wg.Done()
 
 			for collector := range collectors {
 				elems <- birch.EC.SubDocument(collector.Name, collector.Operation(ctx))
@@ -123,6 +123,7 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		}()
 	}
 	wg.Wait()
+	close(elems)
 
 	for elem := range elems {
 		doc.Append(elem)
-- 
2.43.0


From 910ee11d7454a12279db0d1cc49e85204754bb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 45/49] fix: collecting a JSON stream keeps the samples before
 its end and reports how it ended

---
 x/ftdc/metrics/json.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 027914a..0180948 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -50,12 +50,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 	switch {
 	case opts.InputSource != nil:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 
 			stream := bufio.NewScanner(opts.InputSource)
 
@@ -71,17 +71,25 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 					return
 				}
 
-				out <- doc
+				select {
+				case out <- doc:
+				case <-ctx.Done():
+					errs <- ctx.Err()
+					return
+				}
+			}
+			if err := stream.Err(); err != nil {
+				errs <- err
 			}
 		}()
 	case opts.FileName != "" && !opts.Follow:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 			f, err := os.Open(opts.FileName)
 			if err != nil {
 				errs <- fmt.Errorf("problem opening data file %s: %w", opts.FileName, err)
@@ -106,17 +114,22 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 				select {
 				case out <- doc:
 				case <-ctx.Done():
+					errs <- ctx.Err()
+					return
 				}
 			}
+			if err := stream.Err(); err != nil {
+				errs <- err
+			}
 		}()
 	case opts.FileName != "" && opts.Follow:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 
 			if err := follow(ctx, opts.FileName, func(in string) error {
 				jd, err := jsonx.DCE.Bytes([]byte(in))
@@ -198,12 +211,13 @@ func CollectJSONStream(ctx context.Context, opts CollectJSONOptions) error {
 	for {
 		select {
 		case <-ctx.Done():
+			if err := flusher(); err != nil {
+				return fmt.Errorf("problem flushing: %w", err)
+			}
 			return errors.New("operation aborted")
 		case err := <-errs:
-			if err == nil || errors.Is(err, io.EOF) {
-				if err := flusher(); err != nil {
-					return fmt.Errorf("problem flushing: %w", err)
-				}
+			if err := flusher(); err != nil {
+				return fmt.Errorf("problem flushing: %w", err)
 			}
 			return err
 		case doc := <-docs:
-- 
2.43.0


From f13b2b574744618a720d4d36799cc8acfbc8ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 46/49] fix: runtime collection keeps the samples before a
 failing collector and closes its files

---
 x/ftdc/metrics/metrics.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index d63e3c0..027e7fd 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -190,6 +190,8 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 		return fmt.Errorf("problem creating initial file: %w", err)
 	}
 
+	defer func() { _ = file.Close() }()
+
 	collector := ftdc.NewStreamingCollector(opts.SampleCount, file)
 	collectTimer := time.NewTimer(0)
 	flushTimer := time.NewTimer(opts.FlushInterval)
@@ -228,7 +230,7 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 		case <-collectTimer.C:
 			payload, err := opts.generate(ctx, collectCount)
 			if err != nil {
-				return fmt.Errorf("problem collecting results: %w", err)
+				return fmt.Errorf("problem collecting results: %w", errors.Join(err, flusher()))
 			}
 			if err := collector.Add(payload); err != nil {
 				return fmt.Errorf("problem saving results: %w", err)
-- 
2.43.0


From 2220206e9540160c37f5bed62701511991826ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 47/49] fix: services stop listening when their context ends

---
 x/mrpc/service.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/x/mrpc/service.go b/x/mrpc/service.go
index 05c88fc..3989265 100644
--- a/x/mrpc/service.go
+++ b/x/mrpc/service.go
@@ -60,6 +60,7 @@ func (s *basicService) Run(ctx context.Context) error {
 		return fmt.Errorf("problem listening on %s: %w", s.addr, err)
 	}
 	defer func() { _ = l.Close() }()
+	defer context.AfterFunc(ctx, func() { _ = l.Close() })()
 
 	for {
 		if ctx.Err() != nil {
@@ -67,9 +68,10 @@ func (s *basicService) Run(ctx context.Context) error {
 		}
 
 		conn, err := l.Accept()
-		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
-			return nil
-		} else if err != nil {
+		if err != nil {
+			if ctx.Err() != nil {
+				return nil
+			}
 			s.handleError(fmt.Errorf("accepting connection: %w", err))
 			continue
 		}
-- 
2.43.0


From c76640139e3a9a48dae3649d4159c963158d81ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 48/49] fix: services survive panics of handlers and let them
 respond before closing a connection

---
 x/mrpc/service.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/x/mrpc/service.go b/x/mrpc/service.go
index 3989265..19ed325 100644
--- a/x/mrpc/service.go
+++ b/x/mrpc/service.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"sync"
 
 	"errors"
 
@@ -80,17 +81,24 @@ func (s *basicService) Run(ctx context.Context) error {
 	}
 }
 
+func (s *basicService) handlePanic() {
+	if p := recover(); p != nil {
+		s.handleError(fmt.Errorf("panic responding to request: %v", p))
+	}
+}
+
 func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
+	handlers := &sync.WaitGroup{}
 	defer func() {
-		if p := recover(); p != nil {
-			s.handleError(fmt.Errorf("panic responding to request: %v", p))
-		}
+		// the responses to the requests before must not be cut off
+		handlers.Wait()
 
 		if err := conn.Close(); err != nil {
 			s.handleError(fmt.Errorf("error closing connection from %q: %w", conn.RemoteAddr(), err))
 			return
 		}
 	}()
+	defer s.handlePanic()
 
 	if c, ok := conn.(*tls.Conn); ok {
 		// we do this here so that we can get the SNI server name
@@ -122,6 +130,11 @@ func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
 			return
 		}
 
-		go handler(ctx, conn, m)
+		handlers.Add(1)
+		go func() {
+			defer handlers.Done()
+			defer s.handlePanic()
+			handler(ctx, conn, m)
+		}()
 	}
 }
-- 
2.43.0


From 0aa2200f9faedee64ae82abc03af6fff0f5fefb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:17 +0000
Subject: [PATCH 49/49] fix: refuse JSON numbers beyond the range of a double

---
 jsonx/unmarshal.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonx/unmarshal.go b/jsonx/unmarshal.go
index 5f36b47..4ec9fea 100644
--- a/jsonx/unmarshal.go
+++ b/jsonx/unmarshal.go
@@ -3,6 +3,7 @@ package jsonx
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 
 	"errors"
 
@@ -93,11 +94,11 @@ func getValueForResult(value internal.Result) (*Value, error) {
 		num := json.Number(value.String())
 		if igr, err := num.Int64(); err == nil {
 			return VC.Int(int(igr)), nil
-		} else if df, err := num.Float64(); err == nil {
+		} else if df, err := num.Float64(); err == nil && !math.IsInf(df, 0) {
 			return VC.Float64(df), nil
 		}
 
-		return nil, fmt.Errorf("number value [%s] is invalid [%+v]", value.Str, value)
+		return nil, fmt.Errorf("number value [%s] is invalid [%+v]", value.Raw, value)
 	case value.IsArray():
 		source := value.Array()
 		array := AC.Make(len(source))
-- 
2.43.0

