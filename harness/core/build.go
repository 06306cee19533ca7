package core

import (
	"math"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/types"
	"verif/harness/sym"
)

func put64(v uint64) []byte {
	out := make([]byte, 8)
	for i := range out {
		out[i] = byte(v >> (8 * i))
	}
	return out
}

func oidOf(name string) (o types.ObjectID) {
	copy(o[:], sym.Bytes(name, 12))
	return o
}

func noNul(s string) string {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != 0)
	}
	return s
}

func bstr(s string) []byte { return append(append(put32(len(s)+1), s...), 0) }

// sizes are lengths of texts on both sides of where the representation of a length could change.
var sizes = []int{127, 256, 70, 128, 255, 257, 64, 1023, 4096, 33000, 65536, 70000}

// text is any text of up to n bytes or, if n is negative, one of the first -n sizes, long texts with an arbitrary byte at
// the start, in the middle and at the end.
func text(name string, n int) string {
	if n >= 0 {
		return sym.StringUpTo(name, 0, n)
	}
	l := sizes[sym.Choose(name+".size", -n)]
	b := make([]byte, l)
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	x := sym.Bytes(name, 3)
	b[0], b[l/2], b[l-1] = x[0], x[1], x[2]
	return string(b)
}

// sample is a value made by the constructors with what it must encode to and how it must read back.
type sample struct {
	t    byte
	ec   func(key string) *birch.Element
	vc   func() *birch.Value
	wire []byte
	read func(v *birch.Value) bool
}

var (
	EC = birch.EC
	VC = birch.VC
	DC = birch.DC
)

// anyValue builds one value of an arbitrary type with arbitrary contents.
func anyValue(name string, n int) sample {
	kinds := 21
	switch sym.Choose(name+".kind", kinds) {
	case 0:
		bits := sym.Uint64(name)
		f := math.Float64frombits(bits)
		return sample{0x01, func(k string) *birch.Element { return EC.Double(k, f) }, func() *birch.Value { return VC.Double(f) }, put64(bits),
			func(v *birch.Value) bool { return math.Float64bits(v.Double()) == bits }}
	case 1:
		s := text(name, n)
		return sample{0x02, func(k string) *birch.Element { return EC.String(k, s) }, func() *birch.Value { return VC.String(s) }, bstr(s),
			func(v *birch.Value) bool { return v.StringValue() == s }}
	case 2:
		i := sym.Int32(name)
		mk := func() *birch.Document { return DC.Elements(EC.Int32("i", i), EC.Null("n")) }
		wire := docOf(append(elemOf(0x10, "i", put32(int(i))...), elemOf(0x0A, "n")...)...)
		return sample{0x03, func(k string) *birch.Element { return EC.SubDocument(k, mk()) }, func() *birch.Value { return VC.Document(mk()) }, wire,
			func(v *birch.Value) bool {
				d := v.MutableDocument()
				return d.Len() == 2 && d.Lookup("i").Int32() == i && d.Lookup("n").Type() == bsontype.Null && same(v.ReaderDocument(), wire)
			}}
	case 3:
		i := sym.Int32(name)
		wire := docOf(append(elemOf(0x10, "0", put32(int(i))...), elemOf(0x08, "1", 1)...)...)
		mk := func() *birch.Array { return birch.NewArray(VC.Int32(i), VC.Boolean(true)) }
		return sample{0x04, func(k string) *birch.Element { return EC.Array(k, mk()) }, func() *birch.Value { return VC.Array(mk()) }, wire,
			func(v *birch.Value) bool {
				a := v.MutableArray()
				x, err := a.Lookup(0)
				y, err2 := a.Lookup(1)
				return a.Len() == 2 && err == nil && err2 == nil && x.Int32() == i && y.Boolean()
			}}
	case 4:
		b := []byte(text(name, n))
		return sample{0x05, func(k string) *birch.Element { return EC.Binary(k, b) }, func() *birch.Value { return VC.Binary(b) },
			append(append(put32(len(b)), 0), b...),
			func(v *birch.Value) bool { st, x := v.Binary(); return st == 0 && same(x, b) }}
	case 5:
		b := []byte(text(name, n))
		st := sym.Uint8(name + ".sub")
		sym.Assume(sym.Or(st <= 5, st >= 0x80))
		wire := append(append(put32(len(b)), st), b...)
		if st == 2 {
			wire = append(append(append(put32(len(b)+4), st), put32(len(b))...), b...)
		}
		return sample{0x05, func(k string) *birch.Element { return EC.BinaryWithSubtype(k, b, st) }, func() *birch.Value { return VC.BinaryWithSubtype(b, st) }, wire,
			func(v *birch.Value) bool { s, x := v.Binary(); return s == st && same(x, b) }}
	case 6:
		return sample{0x06, EC.Undefined, VC.Undefined, nil, func(v *birch.Value) bool { return v.Type() == bsontype.Undefined }}
	case 7:
		o := oidOf(name)
		return sample{0x07, func(k string) *birch.Element { return EC.ObjectID(k, o) }, func() *birch.Value { return VC.ObjectID(o) }, append([]byte(nil), o[:]...),
			func(v *birch.Value) bool { x := v.ObjectID(); return same(x[:], o[:]) }}
	case 8:
		b := sym.Bool(name)
		w := []byte{0}
		if b {
			w[0] = 1
		}
		return sample{0x08, func(k string) *birch.Element { return EC.Boolean(k, b) }, func() *birch.Value { return VC.Boolean(b) }, w,
			func(v *birch.Value) bool { return v.Boolean() == b }}
	case 9:
		i := sym.Int64(name)
		return sample{0x09, func(k string) *birch.Element { return EC.DateTime(k, i) }, func() *birch.Value { return VC.DateTime(i) }, put64(uint64(i)),
			func(v *birch.Value) bool { return v.DateTime() == i }}
	case 10:
		return sample{0x0A, EC.Null, VC.Null, nil, func(v *birch.Value) bool { return v.Type() == bsontype.Null }}
	case 11:
		p, o := noNul(text(name+".p", n)), noNul(text(name+".o", max(n, -2)))
		return sample{0x0B, func(k string) *birch.Element { return EC.Regex(k, p, o) }, func() *birch.Value { return VC.Regex(p, o) }, []byte(p + "\x00" + o + "\x00"),
			func(v *birch.Value) bool { a, b := v.Regex(); return a == p && b == o }}
	case 12:
		ns := text(name, n)
		o := oidOf(name + ".oid")
		return sample{0x0C, func(k string) *birch.Element { return EC.DBPointer(k, ns, o) }, func() *birch.Value { return VC.DBPointer(ns, o) }, append(bstr(ns), o[:]...),
			func(v *birch.Value) bool { a, b := v.DBPointer(); return a == ns && same(b[:], o[:]) }}
	case 13:
		s := text(name, n)
		return sample{0x0D, func(k string) *birch.Element { return EC.JavaScript(k, s) }, func() *birch.Value { return VC.JavaScript(s) }, bstr(s),
			func(v *birch.Value) bool { return v.JavaScript() == s }}
	case 14:
		s := text(name, n)
		return sample{0x0E, func(k string) *birch.Element { return EC.Symbol(k, s) }, func() *birch.Value { return VC.Symbol(s) }, bstr(s),
			func(v *birch.Value) bool { return v.Symbol() == s }}
	case 15:
		s := text(name, n)
		i := sym.Int64(name + ".i")
		scope := docOf(elemOf(0x12, "i", put64(uint64(i))...)...)
		body := append(bstr(s), scope...)
		mk := func() *birch.Document { return DC.Elements(EC.Int64("i", i)) }
		return sample{0x0F, func(k string) *birch.Element { return EC.CodeWithScope(k, s, mk()) }, func() *birch.Value { return VC.CodeWithScope(s, mk()) },
			append(put32(len(body)+4), body...),
			func(v *birch.Value) bool {
				c, d := v.MutableJavaScriptWithScope()
				c2, r := v.ReaderJavaScriptWithScope()
				return c == s && c2 == s && d.Lookup("i").Int64() == i && same(r, scope)
			}}
	case 16:
		i := sym.Int32(name)
		return sample{0x10, func(k string) *birch.Element { return EC.Int32(k, i) }, func() *birch.Value { return VC.Int32(i) }, put32(int(i)),
			func(v *birch.Value) bool { return v.Int32() == i && v.Int() == int(i) }}
	case 17:
		t, i := sym.Uint32(name+".t"), sym.Uint32(name+".i")
		return sample{0x11, func(k string) *birch.Element { return EC.Timestamp(k, t, i) }, func() *birch.Value { return VC.Timestamp(t, i) },
			put64(uint64(t)<<32 | uint64(i)),
			func(v *birch.Value) bool { a, b := v.Timestamp(); return a == t && b == i }}
	case 18:
		i := sym.Int64(name)
		return sample{0x12, func(k string) *birch.Element { return EC.Int64(k, i) }, func() *birch.Value { return VC.Int64(i) }, put64(uint64(i)),
			func(v *birch.Value) bool { return v.Int64() == i && v.Int() == int(i) }}
	case 19:
		h, l := sym.Uint64(name+".h"), sym.Uint64(name+".l")
		d := types.NewDecimal128(h, l)
		return sample{0x13, func(k string) *birch.Element { return EC.Decimal128(k, d) }, func() *birch.Value { return VC.Decimal128(d) },
			append(put64(l), put64(h)...),
			func(v *birch.Value) bool { a, b := v.Decimal128().GetBytes(); return a == h && b == l }}
	default:
		if sym.Bool(name + ".max") {
			return sample{0x7F, EC.MaxKey, VC.MaxKey, nil, func(v *birch.Value) bool { return v.Type() == bsontype.MaxKey }}
		}
		return sample{0xFF, EC.MinKey, VC.MinKey, nil, func(v *birch.Value) bool { return v.Type() == bsontype.MinKey }}
	}
}

// BuildOne: each constructor, an arbitrary key and arbitrary contents.
func BuildOne() {
	key := noNul(text("key", sym.Param("K", 2)))
	s := anyValue("v", sym.Param("N", 4))
	e := s.ec(key)
	sym.Assert("key", e.Key() == key)
	sym.Assert("type", byte(e.Value().Type()) == s.t)
	sym.Assert("reads-back", s.read(e.Value()))
	wantElem := elemOf(s.t, key, s.wire...)
	n, err := e.Validate()
	sym.Assert("element-valid", err == nil)
	sym.Assert("element-size", int(n) == len(wantElem))
	raw, err := e.MarshalBSON()
	sym.Assert("element-encodes", err == nil)
	sym.Assert("element-bytes", same(raw, wantElem))

	v := s.vc()
	sym.Assert("value-type", byte(v.Type()) == s.t)
	sym.Assert("value-reads-back", s.read(v))
	sym.Assert("value-valid", v.Validate() == nil)
	e2 := EC.Value(key, v)
	sym.Assert("value-as-element-key", e2.Key() == key)
	raw2, err := e2.MarshalBSON()
	sym.Assert("value-as-element", err == nil && same(raw2, wantElem))

	d := DC.Elements(s.ec(key), EC.Value("t", v))
	want := docOf(append(append([]byte(nil), wantElem...), elemOf(s.t, "t", s.wire...)...)...)
	size, err := d.Validate()
	sym.Assert("document-valid", err == nil)
	sym.Assert("document-size", int(size) == len(want))
	out, err := d.MarshalBSON()
	sym.Assert("document-encodes", err == nil)
	sym.Assert("document-bytes", same(out, want))
	r, err := birch.ReadDocument(out)
	sym.Assert("decodes", err == nil)
	sym.Assert("decoded-len", r.Len() == 2)
	sym.Assert("decoded-key", r.ElementAt(0).Key() == key)
	sym.Assert("decoded-value", s.read(r.ElementAt(0).Value()))
	sym.Assert("decoded-value-2", s.read(r.ElementAt(1).Value()))
	again, err := d.MarshalBSON()
	sym.Assert("encoding-repeatable", err == nil && same(again, want))
	sym.Reach("end")
}

// BuildNested: values of any type inside a subdocument inside an array.
func BuildNested() {
	s := anyValue("v", sym.Param("N", 2))
	d := DC.Elements(EC.SubDocumentFromElements("d", EC.Array("a", birch.NewArray(s.vc(), VC.DocumentFromElements(s.ec("k"))))), EC.Boolean("end", true))
	inner := docOf(elemOf(s.t, "k", s.wire...)...)
	arr := docOf(append(elemOf(s.t, "0", s.wire...), elemOf(0x03, "1", inner...)...)...)
	want := docOf(append(elemOf(0x03, "d", docOf(elemOf(0x04, "a", arr...)...)...), elemOf(0x08, "end", 1)...)...)
	out, err := d.MarshalBSON()
	sym.Assert("encodes", err == nil)
	sym.Assert("bytes", same(out, want))
	size, err := d.Validate()
	sym.Assert("size", err == nil && int(size) == len(want))
	r, err := birch.ReadDocument(out)
	sym.Assert("decodes", err == nil)
	sd := r.Lookup("d").MutableDocument()
	a := sd.Lookup("a").MutableArray()
	sym.Assert("array-len", a.Len() == 2)
	v0, err := a.Lookup(0)
	sym.Assert("array-0", err == nil && s.read(v0))
	v1, err := a.Lookup(1)
	sym.Assert("array-1", err == nil && s.read(v1.MutableDocument().Lookup("k")))
	out2, err := r.MarshalBSON()
	sym.Assert("re-encodes", err == nil && same(out2, want))
	sym.Reach("end")
}

// NulKey: a key with a null byte never yields an accepted encoding that reads back differently.
func NulKey() {
	key := sym.StringUpTo("key", 1, 3)
	d := DC.Elements(EC.Int32(key, sym.Int32("i")))
	out, err := d.MarshalBSON()
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	r, err := birch.ReadDocument(out)
	sym.Assert("decodes", err == nil)
	sym.Assert("key-preserved", r.Len() == 1 && r.ElementAt(0).Key() == key)
}

// Times: date-times keep millisecond precision through the time constructors.
func Times() {
	ms := sym.Int64("ms")
	sym.Assume(sym.And(ms > -(1<<52), ms < 1<<52))
	e := EC.DateTime("t", ms)
	tm := e.Value().Time()
	sym.Assert("time-unix", tm.UnixMilli() == ms)
	sec, ms2 := sym.Int64("sec"), sym.Int64("frac")
	sym.Assume(sym.And(sec > -(1<<40), sec < 1<<40, ms2 >= 0, ms2 < 1000))
	t2 := time.Unix(sec, ms2*1000000)
	sym.Assert("time-to-datetime", EC.Time("t", t2).Value().DateTime() == sec*1000+ms2)
	sym.Assert("time-value", VC.Time(t2).DateTime() == sec*1000+ms2)
	sym.Reach("end")
}
