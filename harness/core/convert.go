package core

import (
	"math"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/types"
	"verif/harness/sym"
)

// isInt says that v holds exactly the integer i, in the narrow or the wide type.
func isInt(v *birch.Value, i int64) bool {
	x, ok := v.IntOK()
	if !ok {
		return false
	}
	if v.Type() == bsontype.Int32 {
		return sym.And(int64(x) == i, i >= math.MinInt32, i <= math.MaxInt32)
	}
	return int64(x) == i
}

// Ints: every Go integer converts to the same number.
func Ints() {
	i := sym.Int64("i")
	u := sym.Uint64("u")
	check := func(label string, v *birch.Value, want int64) {
		sym.Assert(label, isInt(v, want))
	}
	switch sym.Choose("kind", 15) {
	case 0:
		check("int8", EC.Interface("k", int8(i)).Value(), int64(int8(i)))
	case 1:
		check("int16", EC.Interface("k", int16(i)).Value(), int64(int16(i)))
	case 2:
		check("int32", EC.Interface("k", int32(i)).Value(), int64(int32(i)))
	case 3:
		check("int64", EC.Interface("k", i).Value(), i)
	case 4:
		check("int", EC.Interface("k", int(i)).Value(), i)
	case 5:
		check("uint8", EC.Interface("k", uint8(u)).Value(), int64(uint8(u)))
	case 6:
		check("uint16", EC.Interface("k", uint16(u)).Value(), int64(uint16(u)))
	case 7:
		check("uint32", EC.Interface("k", uint32(u)).Value(), int64(uint32(u)))
	case 8:
		v := EC.Interface("k", u).Value()
		if u > math.MaxInt64 {
			sym.Assert("uint64-too-large-not-mangled", v.Type() == bsontype.Null)
		} else {
			check("uint64", v, int64(u))
		}
	case 9:
		v := EC.Interface("k", uint(u)).Value()
		if u > math.MaxInt64 {
			sym.Assert("uint-too-large-not-mangled", v.Type() == bsontype.Null)
		} else {
			check("uint", v, int64(u))
		}
	case 10:
		check("ec-int", EC.Int("k", int(i)).Value(), i)
		check("vc-int", VC.Int(int(i)), i)
	case 11:
		a := EC.SliceInt("k", []int{int(i), 7}).Value().MutableArray()
		v, err := a.Lookup(0)
		sym.Assert("slice-int", err == nil && a.Len() == 2 && isInt(v, i))
	case 12:
		a := EC.SliceInt64("k", []int64{7, i}).Value().MutableArray()
		v, err := a.Lookup(1)
		sym.Assert("slice-int64", err == nil && a.Len() == 2 && isInt(v, i))
		a = EC.SliceInt32("k", []int32{int32(i)}).Value().MutableArray()
		v, err = a.Lookup(0)
		sym.Assert("slice-int32", err == nil && isInt(v, int64(int32(i))))
	case 13:
		v := EC.Duration("k", time.Duration(i)).Value()
		check("duration", v, i)
		a := EC.SliceDuration("k", []time.Duration{time.Duration(i)}).Value().MutableArray()
		x, err := a.Lookup(0)
		sym.Assert("slice-duration", err == nil && isInt(x, i))
	case 14:
		check("vc-interface", VC.Interface(int(i)), i)
		e, err := birch.ECE.Interface("k", int(i))
		sym.Assert("ece-interface", err == nil && isInt(e.Value(), i))
		d := DC.MapInterface(map[string]any{"a": int(i)})
		sym.Assert("map-interface", d.Len() == 1 && isInt(d.Lookup("a"), i))
	}
	sym.Reach("end")
}

// GoValues: other Go values keep their kind and contents through the generic conversion and back.
func GoValues() {
	n := sym.Param("N", 3)
	switch sym.Choose("kind", 12) {
	case 0:
		b := sym.Bool("b")
		e := EC.Interface("k", b)
		sym.Assert("bool", e.Value().Boolean() == b && e.Value().Interface() == any(b))
	case 1:
		bits := sym.Uint64("f")
		f := math.Float64frombits(bits)
		e := EC.Interface("k", f)
		sym.Assert("float64", math.Float64bits(e.Value().Double()) == bits)
		g, ok := e.Value().Interface().(float64)
		sym.Assert("float64-back", ok && math.Float64bits(g) == bits)
	case 2:
		s := sym.StringUpTo("s", 0, n)
		e := EC.Interface("k", s)
		sym.Assert("string", e.Value().StringValue() == s)
		g, ok := e.Value().Interface().(string)
		sym.Assert("string-back", ok && g == s)
	case 3:
		t, i := sym.Uint32("t"), sym.Uint32("i")
		e := EC.Interface("k", types.Timestamp{T: t, I: i})
		g, ok := e.Value().Interface().(types.Timestamp)
		sym.Assert("timestamp", ok && g.T == t && g.I == i)
	case 4:
		s := sym.StringUpTo("s", 0, n)
		k := noNul(sym.StringUpTo("key", 0, 2))
		d := DC.MapString(map[string]string{k: s})
		sym.Assert("map-string", d.Len() == 1 && d.Lookup(k).StringValue() == s)
		out := map[string]string{}
		sym.Assert("unmarshal-map-string", d.Unmarshal(out) == nil && len(out) == 1 && out[k] == s)
	case 5:
		i, s := sym.Int64("i"), sym.StringUpTo("s", 0, n)
		in := map[string]any{"a": i, "b": s, "c": map[string]any{"d": []any{i, s, nil}}}
		d := DC.MapInterface(in)
		sym.Assert("map-len", d.Len() == 3)
		out := map[string]any{}
		sym.Assert("unmarshal-map", d.Unmarshal(out) == nil && len(out) == 3)
		a, ok := out["a"].(int64)
		sym.Assert("map-int", ok && a == i)
		b, ok := out["b"].(string)
		sym.Assert("map-str", ok && b == s)
		c, ok := out["c"].(map[string]any)
		sym.Assert("map-sub", ok && len(c) == 1)
		l, ok := c["d"].([]any)
		sym.Assert("map-slice", ok && len(l) == 3)
		x, ok := l[0].(int64)
		sym.Assert("slice-int", ok && x == i)
		y, ok := l[1].(string)
		sym.Assert("slice-str", ok && y == s && l[2] == nil)
		ex := d.ExportMap()
		z, ok := ex["a"].(int64)
		sym.Assert("export", ok && len(ex) == 3 && z == i)
	case 6:
		s1, s2 := sym.StringUpTo("s1", 0, n), sym.StringUpTo("s2", 0, n)
		a := EC.Interface("k", []string{s1, s2}).Value().MutableArray()
		x, e1 := a.Lookup(0)
		y, e2 := a.Lookup(1)
		sym.Assert("slice-string", a.Len() == 2 && e1 == nil && e2 == nil && x.StringValue() == s1 && y.StringValue() == s2)
	case 7:
		f := sym.Uint64("f")
		a := EC.Interface("k", []float64{math.Float64frombits(f), 1.5}).Value().MutableArray()
		x, e1 := a.Lookup(0)
		sym.Assert("slice-float64", a.Len() == 2 && e1 == nil && math.Float64bits(x.Double()) == f)
	case 8:
		i := sym.Int32("i")
		r, err := DC.Elements(EC.Int32("q", i)).MarshalBSON()
		sym.Assert("marshal", err == nil)
		e := EC.Interface("k", birch.Reader(r))
		sym.Assert("reader", e.Value().MutableDocument().Lookup("q").Int32() == i)
		e = EC.SubDocumentFromReader("k", birch.Reader(r))
		sym.Assert("subdocument-from-reader", e.Value().MutableDocument().Lookup("q").Int32() == i && e.Key() == "k")
		sym.Assert("dc-reader", DC.Reader(birch.Reader(r)).Lookup("q").Int32() == i)
	case 9:
		i := sym.Int32("i")
		e := EC.Interface("k", []*birch.Element{EC.Int32("q", i)})
		sym.Assert("elements", e.Value().MutableDocument().Lookup("q").Int32() == i)
		e = EC.Interface("k", []*birch.Value{VC.Int32(i), VC.Null()})
		x, err := e.Value().MutableArray().Lookup(0)
		sym.Assert("values", err == nil && x.Int32() == i && e.Value().MutableArray().Len() == 2)
		e = EC.Interface("k", VC.Int32(i))
		sym.Assert("value", e.Key() == "k" && e.Value().Int32() == i)
		e = EC.Interface("k", DC.Elements(EC.Int32("q", i)))
		sym.Assert("document", e.Value().MutableDocument().Lookup("q").Int32() == i)
	case 10:
		i := sym.Int64("i")
		out := map[any]any{}
		d := DC.Elements(EC.Int64("a", i), EC.Boolean("b", true))
		sym.Assert("unmarshal-any", d.Unmarshal(out) == nil && len(out) == 2)
		x, ok := out["a"].(int64)
		sym.Assert("unmarshal-any-int", ok && x == i && out["b"] == any(true))
		d2 := DC.MapInterfaceInterface(map[any]any{"a": i})
		sym.Assert("map-any", d2.Len() == 1 && isInt(d2.Lookup("a"), i))
	case 11:
		o := oidOf("o")
		x, ok := EC.ObjectID("k", o).Value().Interface().(types.ObjectID)
		sym.Assert("oid-back", ok && same(x[:], o[:]))
		h, l := sym.Uint64("h"), sym.Uint64("l")
		y, ok := EC.Decimal128("k", types.NewDecimal128(h, l)).Value().Interface().(types.Decimal128)
		yh, yl := y.GetBytes()
		sym.Assert("decimal-back", ok && yh == h && yl == l)
		bb := sym.BytesUpTo("bin", 0, 2)
		z, ok := EC.Binary("k", bb).Value().Interface().([]byte)
		sym.Assert("binary-back", ok && same(z, bb))
	}
	sym.Reach("end")
}

// Accessors: for any value, the flag-returning accessors say true exactly for their own type and agree with
// the panicking ones, which panic exactly otherwise.
func Accessors() {
	s := anyValue("v", sym.Param("N", 1))
	v := s.vc()
	if sym.Bool("decoded") {
		b, err := DC.Elements(EC.Value("k", v)).MarshalBSON()
		sym.Assert("marshal", err == nil)
		d, err := birch.ReadDocument(b)
		sym.Assert("unmarshal", err == nil)
		v = d.ElementAt(0).Value()
	}
	t := s.t
	chk := func(label string, want bool, ok bool, f func()) {
		sym.Assert(label+"-flag", ok == want)
		sym.Assert(label+"-panic", sym.Panics(f) == !want)
	}
	{
		x, ok := v.DoubleOK()
		chk("double", t == 0x01, ok, func() {
			sym.Assert("double-agrees", math.Float64bits(v.Double()) == math.Float64bits(x))
		})
	}
	{
		x, ok := v.StringValueOK()
		chk("string", t == 0x02, ok, func() { sym.Assert("string-agrees", v.StringValue() == x) })
	}
	{
		x, ok := v.ReaderDocumentOK()
		chk("reader-document", t == 0x03, ok, func() { sym.Assert("reader-document-agrees", same(v.ReaderDocument(), x)) })
		_, ok = v.MutableDocumentOK()
		chk("document", t == 0x03, ok, func() { _ = v.MutableDocument() })
	}
	{
		x, ok := v.ReaderArrayOK()
		chk("reader-array", t == 0x04, ok, func() { sym.Assert("reader-array-agrees", same(v.ReaderArray(), x)) })
		_, ok = v.MutableArrayOK()
		chk("array", t == 0x04, ok, func() { _ = v.MutableArray() })
	}
	{
		st, x, ok := v.BinaryOK()
		chk("binary", t == 0x05, ok, func() { a, b := v.Binary(); sym.Assert("binary-agrees", a == st && same(b, x)) })
	}
	{
		x, ok := v.ObjectIDOK()
		chk("oid", t == 0x07, ok, func() { y := v.ObjectID(); sym.Assert("oid-agrees", same(x[:], y[:])) })
	}
	{
		x, ok := v.BooleanOK()
		chk("bool", t == 0x08, ok, func() { sym.Assert("bool-agrees", v.Boolean() == x) })
	}
	{
		x, ok := v.DateTimeOK()
		chk("datetime", t == 0x09, ok, func() { sym.Assert("datetime-agrees", v.DateTime() == x) })
	}
	{
		ns, o, ok := v.DBPointerOK()
		chk("dbpointer", t == 0x0C, ok, func() { a, b := v.DBPointer(); sym.Assert("dbpointer-agrees", a == ns && same(b[:], o[:])) })
	}
	{
		x, ok := v.JavaScriptOK()
		chk("javascript", t == 0x0D, ok, func() { sym.Assert("javascript-agrees", v.JavaScript() == x) })
	}
	{
		c, r, ok := v.ReaderJavaScriptWithScopeOK()
		chk("code-reader", t == 0x0F, ok, func() {
			a, b := v.ReaderJavaScriptWithScope()
			sym.Assert("code-reader-agrees", a == c && same(b, r))
		})
		c, _, ok = v.MutableJavaScriptWithScopeOK()
		chk("code", t == 0x0F, ok, func() { a, _ := v.MutableJavaScriptWithScope(); sym.Assert("code-agrees", a == c) })
	}
	{
		x, ok := v.Int32OK()
		chk("int32", t == 0x10, ok, func() { sym.Assert("int32-agrees", v.Int32() == x) })
	}
	{
		a, b, ok := v.TimestampOK()
		chk("timestamp", t == 0x11, ok, func() { c, d := v.Timestamp(); sym.Assert("timestamp-agrees", a == c && b == d) })
	}
	{
		x, ok := v.Int64OK()
		chk("int64", t == 0x12, ok, func() { sym.Assert("int64-agrees", v.Int64() == x) })
		y, ok := v.IntOK()
		chk("int", t == 0x10 || t == 0x12, ok, func() { sym.Assert("int-agrees", v.Int() == y) })
	}
	{
		x, ok := v.Decimal128OK()
		chk("decimal", t == 0x13, ok, func() { sym.Assert("decimal-agrees", v.Decimal128() == x) })
	}
	chk("regex", t == 0x0B, t == 0x0B, func() { _, _ = v.Regex() })
	chk("symbol", t == 0x0E, t == 0x0E, func() { _ = v.Symbol() })
	sym.Reach("end")
}

// NilAccessors: the flag-returning accessors of an absent value say false.
func NilAccessors() {
	var v *birch.Value
	if sym.Bool("empty") {
		v = &birch.Value{}
	}
	sym.NoPanic("absent-ok-accessors", func() {
		okWalk(v)
	})
	_, a := v.StringValueOK()
	_, b := v.IntOK()
	_, c := v.MutableDocumentOK()
	_, d := v.Int64OK()
	sym.Assert("absent-false", !a && !b && !c && !d)
	sym.Reach("end")
}
