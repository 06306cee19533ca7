package js

import (
	"math"
	"strconv"
	"strings"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"verif/harness/sym"
)

const sampleText = "{\"k\": [1, -20, {\"a b\": \"x\\n\\u00e9\\\\y\"}, null] ,\"t\":true,\n\"f\":false,\"e\":{},\"o\":{\"n\":{\"m\":[[],[12]]}},\"s\":\"\\ud83d\\ude00\\/\"}"

// Damaged: a text with all parts of the grammar, in which any byte was changed, removed or inserted, or that was cut.
func Damaged() {
	b := []byte(sampleText)
	at := sym.Choose("at", len(b))
	switch sym.Choose("how", 4) {
	case 0:
		b = b[:at]
	case 1:
		b = append(b[:at], b[at+1:]...)
	case 2:
		copy(b[at:], sym.Bytes("with", 1))
	case 3:
		b = append(append(append([]byte(nil), b[:at]...), sym.Bytes("new", 1)...), b[at:]...)
	}
	judge(b)
	sym.Reach("done")
}

// Long: long strings and keys, many members and deep nesting, with an arbitrary byte.
func Long() {
	var b []byte
	switch sym.Choose("shape", 4) {
	case 0: // the byte is anywhere in a string whose parts need escapes
		t := strings.Repeat("0123456789", []int{7, 26, 103}[sym.Choose("n", 3)])
		at := []int{0, 31, len(t) / 2, len(t) - 1}[sym.Choose("at", 4)]
		b = []byte("{\"a\":\"" + t[:at])
		b = append(b, sym.Bytes("x", 1)...)
		b = append(b, "n"+t[at:]+"\",\""+t+"\":1}"...)
	case 1:
		n := []int{12, 100, 300}[sym.Choose("n", 3)]
		mix := []int{1, 5}[sym.Choose("mix", 2)]
		b = []byte("{")
		for i := 0; i < n; i++ {
			b = append(b, "\"k"+strconv.Itoa(i)+"\":"+[]string{strconv.Itoa(i * i * i), "null", "[null]", "false", "{}"}[i%mix]+","...)
		}
		b = append(b, "\"last\":"...)
		b = append(append(b, sym.Bytes("x", 2)...), '}')
	case 2:
		n := []int{12, 100, 300}[sym.Choose("n", 3)]
		mix := []int{1, 6}[sym.Choose("mix", 2)]
		b = []byte("[")
		for i := 0; i < n; i++ {
			b = append(b, []string{" " + strconv.Itoa(-i) + " ,", "null,", `{"a":null},`, "true,", `"x",`, "[],"}[i%mix]...)
		}
		b = append(append(b, sym.Bytes("x", 2)...), ']')
	case 3:
		n := []int{9, 40, 150}[sym.Choose("n", 3)]
		b = append(b, strings.Repeat("{\"a\":[", n)...)
		b = append(b, sym.Bytes("x", 1)...)
		b = append(b, strings.Repeat("]}", n-sym.Choose("missing", 2))...)
	}
	judge(b)
	sym.Reach("done")
}

// Integers: integers near a limit are read exactly, or, when it needs more than 64 bits, as a number close to it.
func Integers() {
	base := []string{"214748", "-214748", "922337203685477", "-922337203685477", "900719925474", "1844674407370955", "99999999999999", "10000"}[sym.Choose("base", 8)]
	digits := []byte{"35"[sym.Choose("d0", 2)], "68"[sym.Choose("d1", 2)], '0' + byte(sym.Choose("d2", 10)), '0' + byte(sym.Choose("d3", 10))}
	t := base + string(digits)
	d := DC.New()
	err := d.UnmarshalJSON([]byte("{\"i\":" + t + "}"))
	if want, werr := strconv.ParseInt(t, 10, 64); werr == nil {
		i, ok := d.Lookup("i").IntOK()
		sym.Assert("exact", err == nil && ok && int64(i) == want)
		if i != int(int32(i)) {
			sym.Assert("wide", d.Lookup("i").Type() == bsontype.Int64)
		}
		out, err := d.MarshalJSON()
		sym.Assert("writes", err == nil && strings.ReplaceAll(string(out), " ", "") == "{\"i\":"+t+"}")

	}
	sym.Reach("done")
}

var fractions = []string{"0.5", "-0.0", "1e3", "1E-3", "12.25e2", "0.1", "123456.789", "1.7976931348623157e308", "5e-324", "2.2250738585072011e-308", "9007199254740993.0", "-1e-400", "0e5", "100000000000000000000", "18446744073709551616", "-9223372036854775809", "9223372036854775808",
	"0.30000000000000004", "1.0"}

// Fractions: numbers with fractions and exponents are those that strconv reads.
func Fractions() {
	t := fractions[sym.Choose("t", len(fractions))]
	d := DC.New()
	err := d.UnmarshalJSON([]byte("{\"f\":[" + t + "]}"))
	want, werr := strconv.ParseFloat(t, 64)
	sym.Assert("accepted", err == nil && werr == nil)
	if err != nil {
		return
	}
	a := d.Lookup("f").MutableArray()
	v, err := a.Lookup(0)
	sym.Assert("number", err == nil)
	if f, ok := v.DoubleOK(); ok {
		sym.Assert("double", f == want && (f != 0 || math.Signbit(f) == math.Signbit(want)))
	} else {
		i, ok := v.IntOK()
		sym.Assert("integer", ok && float64(i) == want && want == math.Trunc(want))
	}
	sym.Reach("done")
}

// OutputLong: documents of many members, and nested deeply, with long texts.
func OutputLong() {
	x := sym.Int32("x")
	sym.Assume(sym.And(x >= 0, x < 10))
	n := []int{12, 100, 300}[sym.Choose("n", 3)]
	d := DC.New()
	var v *birch.Value = VC.Int32(x)
	switch sym.Choose("shape", 3) {
	case 0:
		for i := 0; i < n; i++ {
			d.Append(EC.Int32("k"+strconv.Itoa(i), int32(i)))
		}
		d.Append(EC.Value("x", v))
	case 1:
		a := birch.NewArray()
		for i := 0; i < n; i++ {
			a.Append(VC.String("v" + strconv.Itoa(i)))
		}
		a.Append(v)
		d.Append(EC.Array("a", a))
	case 2:
		for i := 0; i < n/2; i++ {
			v = VC.Array(birch.NewArray(v, VC.Document(DC.Elements(EC.Value("d", v)))))
			if i > 3 {
				v = VC.Document(DC.Elements(EC.Null("n"), EC.Value("d", VC.Int32(int32(i))), EC.Array("a", birch.NewArray(VC.Int32(x)))))
			}
		}
		for i := 0; i < n/4; i++ {
			v = VC.Array(birch.NewArray(VC.Document(DC.Elements(EC.Value("d", v)))))
		}
		d.Append(EC.Value("x", v))
	}
	b, err := d.MarshalJSON()
	sym.Assert("marshals", err == nil)
	_, ok := parseRef(b)
	sym.Assert("valid-json", ok)
	back := DC.New()
	sym.Assert("reads-back", back.UnmarshalJSON(b) == nil)
	one, err1 := d.MarshalBSON()
	two, err2 := back.MarshalBSON()
	sym.Assert("same", err1 == nil && err2 == nil && string(one) == string(two))
	sym.Reach("done")
}

// Overflow: a number that no type can hold is refused wherever it is.
func Overflow() {
	n := []string{"1e309", "-1e400", "1e99999", strings.Repeat("9", 400), "-" + strings.Repeat("9", 310) + ".5", "123456789e301"}[sym.Choose("n", 6)]
	in := n
	for i := sym.Choose("depth", 4); i > 0; i-- {
		if sym.Bool("array") {
			in = "[1," + in + ",null]"
		} else {
			in = `{"a":true,"b":` + in + `,"c":2}`
		}
	}
	if sym.Bool("top-array") {
		a := birch.NewArray()
		sym.Assert("refused", a.UnmarshalJSON([]byte("["+in+"]")) != nil)
		sym.Reach("done")
		return
	}
	d := DC.New()
	err := d.UnmarshalJSON([]byte(`{"x":0,"y":` + in + `}`))
	sym.Assert("refused", err != nil)
	sym.Reach("done")
}
