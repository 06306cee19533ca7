package js

import (
	"math"
	"strconv"
	"strings"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/types"
	"verif/harness/sym"
)

var (
	EC = birch.EC
	VC = birch.VC
	DC = birch.DC
)

var wide = []int64{math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, -1<<53 - 1, 1 << 31, -1<<31 - 1, 1 << 32, 0, 1234567890123456789}

var doubles = []float64{0, 1, -1, 0.1, -2.5, 1.0 / 3, 1e21, 123456789.123456789, 5e-324, math.MaxFloat64, -1e-7, 9007199254740993, 1e100}

var sizes = []int{32, 64, 127, 255, 256, 1000, 5000}

// text is any text of up to n bytes or, if n is negative, of one of the first -n sizes with two arbitrary bytes anywhere.
func text(name string, n int) string {
	if n >= 0 {
		return sym.StringUpTo(name, 0, n)
	}
	b := long(sizes[sym.Choose(name+".size", -n)])
	at := []int{0, 1, len(b) / 2, len(b) - 3, len(b) - 2}[sym.Choose(name+".at", 5)]
	copy(b[at:], sym.Bytes(name, 2))
	return string(b)
}

func long(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "some text, \u00e9\n and \"more\" of it / "[i%34]
	}
	return b
}

// value is any value that JSON output can carry.
func value(name string, n int) (v *birch.Value, plain string) {
	switch sym.Choose(name+".kind", 17) {
	case 0:
		s := text(name, n)
		return VC.String(s), s
	case 1:
		i := sym.Int32(name)
		sym.Assume(sym.And(i > -100, i < 1000))
		return VC.Int32(i), ""
	case 2: // wide integers: the decimal conversion of arbitrary ones is too hard for the solver
		return VC.Int64(wide[sym.Choose(name+".wide", len(wide))]), ""
	case 3:
		return VC.Boolean(sym.Bool(name)), ""
	case 4:
		return VC.Null(), ""
	case 5:
		return VC.Undefined(), ""
	case 6:
		return VC.MinKey(), ""
	case 7:
		return VC.MaxKey(), ""
	case 8:
		return VC.Double(doubles[sym.Choose(name+".f", len(doubles))]), ""
	case 9:
		var o types.ObjectID
		copy(o[5:], sym.Bytes(name, 2))
		return VC.ObjectID(o), ""
	case 10:
		return VC.Symbol(text(name, n)), ""
	case 11:
		return VC.JavaScript(text(name, n)), ""
	case 12:
		return VC.CodeWithScope(sym.StringUpTo(name, 0, 1), DC.Elements(EC.String("x", sym.StringUpTo(name+".x", 0, 1)))), ""
	case 13:
		p, o := sym.StringUpTo(name, 0, 1), sym.StringUpTo(name+".o", 0, 1)
		return VC.Regex(noNul(p), noNul(o)), ""
	case 14:
		st := []byte{0, 2, 4, 0x80, 0xff}[sym.Choose(name+".st", 5)]
		return VC.BinaryWithSubtype([]byte(text(name, n)), st), ""
	case 15:
		i := sym.Uint32(name)
		sym.Assume(i < 10)
		t := uint32(i)
		if k := sym.Choose(name+".t", 4); k > 0 {
			t = []uint32{0, math.MaxInt32, 1 << 31, math.MaxUint32}[k]
		}
		if sym.Bool(name + ".swap") {
			t, i = i, t
		}
		return VC.Timestamp(t, i), ""
	}
	var o types.ObjectID
	copy(o[:], sym.Bytes(name, 1))
	return VC.DBPointer("n"+sym.StringUpTo(name+".ns", 0, 1), o), ""
}

func noNul(s string) string {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != 0)
	}
	return s
}

func equalDocs(a, b *birch.Document) bool {
	if a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		x, y := a.ElementAt(uint(i)), b.ElementAt(uint(i))
		if x.Key() != y.Key() || !equalVals(x.Value(), y.Value()) {
			return false
		}
	}
	return true
}

// equalVals: the same value, where a number may come back in another numeric type.
func equalVals(x, y *birch.Value) bool {
	if f, ok := x.DoubleOK(); ok {
		if g, ok := y.DoubleOK(); ok {
			return f == g
		}
		i, ok := y.IntOK()
		return ok && float64(i) == f
	}
	if i, ok := x.IntOK(); ok {
		j, ok := y.IntOK()
		return ok && i == j
	}
	return x.Equal(y)
}

// Output: a document becomes one valid JSON object with the same keys in order, which reads back
// as the same document.
func Output() {
	n := sym.Param("N", 2)
	key := noNul(sym.StringUpTo("key", 0, sym.Param("K", 2)))
	v, plain := value("a", n)
	d := DC.Elements(EC.Value(key, v), EC.Boolean("z", true))
	b, err := d.MarshalJSON()
	sym.Assert("marshals", err == nil)
	if err != nil {
		return
	}
	ref, ok := parseRef(b)
	sym.Assert("valid-json", ok && ref.kind == 'o')
	if !ok || ref.kind != 'o' {
		return
	}
	sym.Assert("keys", len(ref.keys) == 2 && ref.keys[0] == key && ref.keys[1] == "z")
	if len(ref.kids) > 0 && plain != "" {
		sym.Assert("string", ref.kids[0].kind == 's' && ref.kids[0].str == plain)
	}
	if len(key) > 0 && key[0] == '$' {
		return // a document whose first key is a type wrapper is extended JSON
	}
	back := DC.New()
	err = back.UnmarshalJSON(b)
	sym.Assert("reads-back", err == nil)
	if err == nil {
		sym.Assert("same-document", equalDocs(d, back))
	}
	sym.Reach("done")
}

// OutputNested: the same inside arrays and documents.
func OutputNested() {
	v, _ := value("a", 1)
	key := noNul(sym.StringUpTo("key", 0, 1))
	sym.Assume(key != "$")
	arr := birch.NewArray(VC.Int32(1), v, VC.Document(DC.Elements(EC.Value(key, v.Copy()))))
	d := DC.Elements(EC.Array("arr", arr), EC.SubDocument("sub", DC.Elements(EC.Value(key, v), EC.Array("e", birch.NewArray()))), EC.SubDocument("", DC.New()))
	b, err := d.MarshalJSON()
	sym.Assert("marshals", err == nil)
	if err != nil {
		return
	}
	_, ok := parseRef(b)
	sym.Assert("valid-json", ok)
	back := DC.New()
	err = back.UnmarshalJSON(b)
	sym.Assert("reads-back", err == nil)
	if err != nil {
		return
	}
	sym.Assert("len", back.Len() == 3)
	a2, ok := back.Lookup("arr").MutableArrayOK()
	sym.Assert("array", ok && a2.Len() == 3)
	if ok && a2.Len() == 3 {
		x, _ := a2.Lookup(1)
		sym.Assert("array-value", equalVals(v, x))
		y, _ := a2.Lookup(2)
		dd, ok := y.MutableDocumentOK()
		sym.Assert("array-document", ok && dd.Len() == 1 && equalVals(v, dd.Lookup(key)))
	}
	s2, ok := back.Lookup("sub").MutableDocumentOK()
	sym.Assert("sub", ok && s2.Len() == 2 && equalVals(v, s2.Lookup(key)))
	e2, ok := back.Lookup("").MutableDocumentOK()
	sym.Assert("empty", ok && e2.Len() == 0)
	ab, err := arr.MarshalJSON()
	sym.Assert("array-marshals", err == nil)
	arr2 := birch.NewArray()
	sym.Assert("array-reads-back", err == nil && arr2.UnmarshalJSON(ab) == nil && arr2.Len() == 3)
	sym.Reach("done")
}

// OutputIntegers: integers around every power of two and of ten are written with all their digits.
func OutputIntegers() {
	var i int64
	k := sym.Choose("k", 63)
	if sym.Bool("ten") {
		sym.Assume(k < 19)
		i = 1
		for ; k > 0; k-- {
			i *= 10
		}
	} else {
		i = 1 << k
	}
	i += int64(sym.Choose("d", 5)) - 2
	if sym.Bool("neg") {
		i = -i
	}
	if sym.Bool("flip") { // the other end
		i ^= math.MaxInt64
	}
	d := DC.Elements(EC.Int64("i", i), EC.Int32("j", int32(i)), EC.Array("a", birch.NewArray(VC.Int64(i), VC.Int32(int32(i)))))
	b, err := d.MarshalJSON()
	sym.Assert("marshals", err == nil)
	n, m := strconv.FormatInt(i, 10), strconv.FormatInt(int64(int32(i)), 10)
	sym.Assert("digits", strings.ReplaceAll(string(b), " ", "") == `{"i":`+n+`,"j":`+m+`,"a":[`+n+`,`+m+`]}`)
	sym.Reach("done")
}

// OutputDates: instants to the millisecond within four-digit years.
func OutputDates() {
	base := []int64{0, 1700000000000, -62135596800000, 253402300799000, -1000, 951782400000}[sym.Choose("base", 6)]
	ms := sym.Choose("ms", 5)
	t := base + []int64{0, 1, 10, 123, 999}[ms]
	d := DC.Elements(EC.DateTime("t", t))
	b, err := d.MarshalJSON()
	sym.Assert("marshals", err == nil)
	_, ok := parseRef(b)
	sym.Assert("valid-json", ok)
	back := DC.New()
	sym.Assert("reads-back", back.UnmarshalJSON(b) == nil && back.Len() == 1 && back.Lookup("t").DateTime() == t)
	sym.Reach("done")
}

// NotNumbers: what JSON cannot express is an error, not malformed output.
func NotNumbers() {
	f := sym.Float64("f")
	sym.Assume(sym.Or(math.IsNaN(f), math.IsInf(f, 0)))
	if math.IsInf(f, 1) {
		f = math.Inf(1)
	} else if math.IsInf(f, -1) {
		f = math.Inf(-1)
	} else {
		f = math.NaN()
	}
	b, err := DC.Elements(EC.Double("f", f)).MarshalJSON()
	if err == nil {
		_, ok := parseRef(b)
		sym.Assert("valid-json", ok)
	}
	sym.Reach("done")
}

var wrappers = []string{"$minKey", "$maxKey", "$numberDecimal", "$timestamp", "$symbol", "$code", "$dbPointer", "$regularExpression", "$date", "$oid", "$undefined", "$binary"}

var junk = []string{`1`, `-1`, `1.5`, `"x"`, `""`, `true`, `null`, `[]`, `{}`, `[1]`, `{"t":"x"}`, `{"t":1,"i":-1}`, `{"i":1.5}`, `{"$ref":1}`, `{"$ref":"a","$id":"b"}`,
	`{"$id":"0123456789abcdef01234567","$ref":"n"}`, `{"pattern":1}`, `{"options":null}`, `{"base64":1}`, `{"base64":"!"}`, `{"subType":"zz"}`, `{"base64":"","subType":"100"}`,
	`{"$date":{"$date":1}}`, `99999999999999999999`}

// Extended: malformed extended JSON is an error or a value, never a panic.
func Extended() {
	w := wrappers[sym.Choose("wrapper", len(wrappers))]
	var val string
	switch k := sym.Choose("form", 3); k {
	case 0:
		val = junk[sym.Choose("junk", len(junk))]
	case 1: // any short string
		s := sym.StringUpTo("s", 0, sym.Param("N", 3))
		for i := 0; i < len(s); i++ {
			sym.Assume(sym.And(s[i] >= ' ', s[i] != '"', s[i] != '\\'))
		}
		val = `"` + s + `"`
	case 2:
		inner := wrappers[sym.Choose("inner", len(wrappers))]
		val = `{"` + inner + `":` + junk[sym.Choose("junk", len(junk))] + `}`
	}
	text := `{"a":{"` + w + `":` + val
	switch sym.Choose("more", 4) {
	case 1:
		text += `,"$scope":` + junk[sym.Choose("scope", len(junk))]
	case 2:
		text += `,"":1`
	case 3:
		text += `,"i":{}`
	}
	text += `}}`
	d := DC.New()
	if err := d.UnmarshalJSON([]byte(text)); err == nil {
		sym.Assert("one-element", d.Len() == 1)
		_, err := d.MarshalBSON()
		sym.Assert("encodes", err == nil)
		_, _ = d.MarshalJSON()
	}
	sym.Reach("done")
}
