// Package core holds the harnesses for the BSON document library itself. They use the public API only.
package core

import (
	"encoding/binary"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"verif/harness/sym"
)

func le32(b []byte) int { return int(int32(binary.LittleEndian.Uint32(b))) }

func put32(v int) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

// docOf wraps a body (elements) with header and terminator.
func docOf(body ...byte) []byte {
	out := put32(len(body) + 5)
	out = append(out, body...)
	return append(out, 0)
}

// elemOf is a raw element.
func elemOf(t byte, key string, payload ...byte) []byte {
	out := append([]byte{t}, key...)
	out = append(out, 0)
	return append(out, payload...)
}

// exactBytes compares without branching per byte.
func same(a, b []byte) bool {
	return string(a) == string(b)
}

// walkValue reads a value through every accessor that suits its type.
func walkValue(v *birch.Value, depth int) {
	if v == nil || depth <= 0 {
		return
	}
	switch v.Type() {
	case bsontype.Double:
		_ = v.Double()
	case bsontype.String:
		_ = v.StringValue()
	case bsontype.EmbeddedDocument:
		_ = v.ReaderDocument()
		walkDoc(v.MutableDocument(), depth-1)
	case bsontype.Array:
		_ = v.ReaderArray()
		for e := range v.MutableArray().Iterator() {
			walkValue(e, depth-1)
		}
	case bsontype.Binary:
		_, _ = v.Binary()
	case bsontype.ObjectID:
		_ = v.ObjectID()
	case bsontype.Boolean:
		_ = v.Boolean()
	case bsontype.DateTime:
		_ = v.DateTime()
		_ = v.Time()
	case bsontype.Regex:
		_, _ = v.Regex()
	case bsontype.DBPointer:
		_, _ = v.DBPointer()
	case bsontype.JavaScript:
		_ = v.JavaScript()
	case bsontype.Symbol:
		_ = v.Symbol()
	case bsontype.CodeWithScope:
		_, _ = v.ReaderJavaScriptWithScope()
		_, d := v.MutableJavaScriptWithScope()
		walkDoc(d, depth-1)
	case bsontype.Int32:
		_ = v.Int32()
		_ = v.Int()
	case bsontype.Timestamp:
		_, _ = v.Timestamp()
	case bsontype.Int64:
		_ = v.Int64()
		_ = v.Int()
	case bsontype.Decimal128:
		_ = v.Decimal128()
	}
	_ = v.Interface()
	_ = v.IsEmpty()
}

func walkDoc(d *birch.Document, depth int) {
	for e := range d.Iterator() {
		_ = e.Key()
		walkValue(e.Value(), depth)
	}
}

// okWalk uses only the accessors documented to return a flag instead of panicking.
func okWalk(v *birch.Value) {
	_, _ = v.DoubleOK()
	_, _ = v.StringValueOK()
	_, _ = v.ReaderDocumentOK()
	_, _ = v.MutableDocumentOK()
	_, _ = v.ReaderArrayOK()
	_, _ = v.MutableArrayOK()
	_, _, _ = v.BinaryOK()
	_, _ = v.ObjectIDOK()
	_, _ = v.BooleanOK()
	_, _ = v.DateTimeOK()
	_, _ = v.TimeOK()
	_, _, _ = v.DBPointerOK()
	_, _ = v.JavaScriptOK()
	_, _, _ = v.ReaderJavaScriptWithScopeOK()
	_, _, _ = v.MutableJavaScriptWithScopeOK()
	_, _ = v.Int32OK()
	_, _, _ = v.TimestampOK()
	_, _ = v.Int64OK()
	_, _ = v.IntOK()
	_, _ = v.Decimal128OK()
}

var elemTypes = []byte{0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x0F, 0x10, 0x11, 0x12, 0x13, 0x7F, 0xFF}

// pickType is one BSON type byte.
func pickType(name string) byte { return elemTypes[sym.Choose(name, len(elemTypes))] }
