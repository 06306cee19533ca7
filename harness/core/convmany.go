package core

import (
	"errors"
	"math"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/types"
	"verif/harness/sym"
)

var (
	ECE = birch.ECE
	VCE = birch.VCE
	DCE = birch.DCE
)

// entries lists the values of an array.
func entries(v *birch.Value) (out []*birch.Value) {
	a := v.MutableArray()
	for i := 0; i < a.Len(); i++ {
		x, err := a.Lookup(uint(i))
		sym.Assert("lookup", err == nil)
		out = append(out, x)
	}
	return out
}

// elementRoutes converts in by one of the ways there are; nil where the conversion was refused.
func elementRoutes(in any) *birch.Value {
	switch sym.Choose("route", 8) {
	case 0:
		e := EC.Interface("k", in)
		sym.Assert("key", e.Key() == "k")
		return e.Value()
	case 1:
		return VC.Interface(in)
	case 2:
		e, err := ECE.Interface("k", in)
		if err != nil {
			return nil
		}
		sym.Assert("key", e.Key() == "k")
		return e.Value()
	case 3:
		v, err := VCE.Interface(in)
		if err != nil {
			return nil
		}
		return v
	case 4:
		return DC.MapInterface(map[string]any{"k": in}).Lookup("k")
	case 5:
		d, err := DCE.MapInterface(map[string]any{"k": in})
		if err != nil {
			return nil
		}
		return d.Lookup("k")
	case 6:
		return entries(VC.SliceInterface([]any{in}))[0]
	}
	v, err := VCE.SliceInterface([]any{in})
	if err != nil {
		return nil
	}
	return entries(v)[0]
}

// GoSlices: slices of any length and every element type keep each element in its place.
func GoSlices() {
	lens := []int{0, 1, 9, 65, 300}
	n := lens[sym.Choose("n", sym.Param("NS", 4))]
	x := sym.Int64("x")
	at := func(i int) int64 { return x ^ int64(i) }
	// one wide or narrow number anywhere decides nothing about its neighbours
	some := func(i int) int64 {
		if i == n-1 || i == 7 {
			return x
		}
		return int64(i)<<(i%40) - 3
	}
	var in any
	var direct *birch.Value
	var want func(v *birch.Value, i int) bool
	special := sym.Choose("type", 10)
	switch special {
	case 0:
		s := make([]int, n)
		for i := range s {
			s[i] = int(some(i))
		}
		in, direct = s, VC.SliceInt(s)
		want = func(v *birch.Value, i int) bool { return isInt(v, some(i)) }
	case 1:
		s := make([]int64, n)
		for i := range s {
			s[i] = at(i)
		}
		in, direct = s, VC.SliceInt64(s)
		want = func(v *birch.Value, i int) bool { return v.Int64() == at(i) }
	case 2:
		s := make([]int32, n)
		for i := range s {
			s[i] = int32(at(i))
		}
		in, direct = s, VC.SliceInt32(s)
		want = func(v *birch.Value, i int) bool { return v.Int32() == int32(at(i)) }
	case 3:
		s := make([]float64, n)
		for i := range s {
			s[i] = math.Float64frombits(uint64(at(i)))
		}
		in, direct = s, VC.SliceFloat64(s)
		want = func(v *birch.Value, i int) bool { return math.Float64bits(v.Double()) == uint64(at(i)) }
	case 4:
		s := make([]float32, n)
		for i := range s {
			s[i] = float32(i) + 0.5
		}
		in, direct = s, VC.SliceFloat32(s)
		want = func(v *birch.Value, i int) bool { return v.Double() == float64(i)+0.5 }
	case 5:
		s := make([]string, n)
		one := sym.String("s", 1)
		for i := range s {
			s[i] = one + itoa(i)
		}
		in, direct = s, VC.SliceString(s)
		want = func(v *birch.Value, i int) bool { return v.StringValue() == s[i] }
	case 6:
		s := make([]time.Duration, n)
		for i := range s {
			s[i] = time.Duration(at(i))
		}
		in, direct = s, VC.SliceDuration(s)
		want = func(v *birch.Value, i int) bool { return isInt(v, at(i)) }
	case 7:
		s := make([]time.Time, n)
		sym.Assume(x > -(1<<40) && x < 1<<40)
		ms := func(i int) int64 {
			if i == n/2 {
				return x
			}
			return int64(i) * 86399999
		}
		for i := range s {
			s[i] = time.UnixMilli(ms(i))
		}
		in, direct = s, VC.SliceTime(s)
		want = func(v *birch.Value, i int) bool { return v.DateTime() == ms(i) }
	case 8:
		s := make([]any, n)
		for i := range s {
			switch i % 4 {
			case 0:
				s[i] = some(i)
			case 1:
				s[i] = "s" + itoa(i)
			case 2:
				s[i] = []any{some(i)}
			case 3:
				s[i] = nil
			}
		}
		in, direct = s, VC.SliceInterface(s)
		want = func(v *birch.Value, i int) bool {
			switch i % 4 {
			case 0:
				return isInt(v, some(i))
			case 1:
				return v.StringValue() == "s"+itoa(i)
			case 2:
				sub := entries(v)
				return len(sub) == 1 && isInt(sub[0], some(i))
			}
			return v.Type() == bsontype.Null
		}
	case 9:
		s := make([]*birch.Value, n)
		for i := range s {
			s[i] = VC.Int64(at(i))
		}
		in, direct = s, EC.Interface("", s).Value()
		want = func(v *birch.Value, i int) bool { return v.Int64() == at(i) }
	}
	v := direct
	if sym.Bool("generic") {
		v = elementRoutes(in)
		sym.Assert("accepted", v != nil)
	}
	a, ok := v.MutableArrayOK()
	sym.Assert("array", ok && a.Len() == n)
	els := entries(v)
	sym.Assert("elements", len(els) == n)
	for i := range els {
		sym.Assert("entry", want(els[i], i))
	}
	// and back
	back, ok := v.Interface().([]any)
	sym.Assert("back", ok && len(back) == n)
	for i := range back {
		switch special {
		case 1, 6:
			y, ok := back[i].(int64)
			sym.Assert("entry-back", ok && y == at(i))
		case 2:
			y, ok := back[i].(int32)
			sym.Assert("entry-back", ok && y == int32(at(i)))
		case 3:
			y, ok := back[i].(float64)
			sym.Assert("entry-back", ok && math.Float64bits(y) == uint64(at(i)))
		}
	}
	sym.Reach("done")
}

// GoMaps: maps with any number of entries become documents with exactly these entries, and back.
func GoMaps() {
	lens := []int{0, 1, 9, 65, 300}
	n := lens[sym.Choose("n", sym.Param("NS", 4))]
	x := sym.Int64("x")
	at := func(i int) int64 { return x ^ int64(i) }
	var d *birch.Document
	var in any
	kind := sym.Choose("kind", 4)
	switch kind {
	case 0:
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m["k"+itoa(i)] = at(i)
		}
		in = m
		d = DC.MapInterface(m)
	case 1:
		m := map[string]string{}
		for i := 0; i < n; i++ {
			m["k"+itoa(i)] = "v" + itoa(i)
		}
		in = m
		d = DC.MapString(m)
	case 2:
		m := map[any]any{}
		for i := 0; i < n; i++ {
			m["k"+itoa(i)] = at(i)
		}
		in = m
		d = DC.MapInterfaceInterface(m)
	case 3:
		m := map[any]any{}
		for i := 0; i < n; i++ {
			m[i] = at(i)
		}
		in = m
		d = DC.MapInterfaceInterface(m)
	}
	if sym.Bool("generic") {
		var err error
		switch sym.Choose("how", 3) {
		case 0:
			d = DC.Interface(in)
		case 1:
			d, err = DCE.Interface(in)
		case 2:
			d = elementRoutes(in).MutableDocument()
		}
		sym.Assert("accepted", err == nil && d != nil)
	}
	prefix := "k"
	if kind == 3 {
		prefix = ""
	}
	sym.Assert("len", d.Len() == n)
	for i := 0; i < n; i++ {
		v, err := d.LookupErr(prefix + itoa(i))
		sym.Assert("present", err == nil)
		if kind == 1 {
			sym.Assert("entry", v.StringValue() == "v"+itoa(i))
		} else {
			sym.Assert("entry", isInt(v, at(i)))
		}
	}
	ex := d.ExportMap()
	sym.Assert("export", len(ex) == n)
	into, ints, strs := map[string]any{}, map[string]int64{}, map[string]string{}
	sym.Assert("into", d.Unmarshal(into) == nil && len(into) == n)
	sym.Assert("into-ints-refused", d.Unmarshal(ints) != nil && len(ints) == 0)
	strsWant := 0
	if kind == 1 {
		strsWant = n
	}
	sym.Assert("into-strings", d.Unmarshal(strs) == nil && len(strs) == strsWant)
	for i := 0; i < n; i++ {
		k := prefix + itoa(i)
		if kind == 1 {
			s := "v" + itoa(i)
			sym.Assert("back", ex[k] == any(s) && into[k] == any(s) && strs[k] == s)
		} else {
			a, ok1 := ex[k].(int64)
			b, ok2 := into[k].(int64)
			sym.Assert("back", ok1 && ok2 && a == at(i) && b == at(i))
		}
	}
	sym.Reach("done")
}

type docMarshaler struct {
	d   *birch.Document
	err error
}

func (m docMarshaler) MarshalDocument() (*birch.Document, error) { return m.d, m.err }

type marshaler struct {
	d   *birch.Document
	err error
}

func (m marshaler) MarshalBSON() ([]byte, error) {
	if m.err != nil {
		return nil, m.err
	}
	return m.d.MarshalBSON()
}

// GoMarshalers: a value that encodes itself becomes that document; one that fails, or one of a type that has no
// conversion, becomes null or an error, according to the variant, and nothing else.
func GoMarshalers() {
	x := sym.Int32("x")
	var err error
	if sym.Bool("fails") {
		err = errors.New("nope")
	}
	d := DC.Elements(EC.Int32("q", x))
	var in any
	fails := err != nil
	kind := sym.Choose("kind", 5)
	switch kind {
	case 0:
		in = docMarshaler{d, err}
	case 1:
		in = marshaler{d, err}
	case 2:
		in = struct{ A int32 }{x}
		fails = true
	case 3:
		in = make(chan int)
		fails = true
	case 4:
		u := sym.Uint64("u")
		sym.Assume(u > math.MaxInt64)
		in = u
		fails = true
	}
	switch sym.Choose("into", 3) {
	case 0:
		isErr := false
		var v *birch.Value
		switch sym.Choose("route", 8) {
		case 0:
			v = EC.Interface("k", in).Value()
		case 1:
			v = VC.Interface(in)
		case 2:
			e, err := ECE.Interface("k", in)
			isErr = err != nil
			sym.Assert("err-result", isErr == (e == nil))
			if !isErr {
				v = e.Value()
			}
			sym.Assert("reported", isErr == fails)
		case 3:
			v, err = VCE.Interface(in)
			isErr = err != nil
			sym.Assert("reported", isErr == fails)
		case 4:
			v = DC.MapInterface(map[string]any{"k": in}).Lookup("k")
		case 5:
			d, err := DCE.MapInterface(map[string]any{"k": in})
			isErr = err != nil
			sym.Assert("reported", isErr == fails)
			if !isErr {
				v = d.Lookup("k")
			}
		case 6:
			a := entries(VC.SliceInterface([]any{in, x}))
			sym.Assert("slice-len", len(a) == 2)
			v = a[0]
			sym.Assert("next", a[1].Int32() == x)
		case 7:
			v, err = VCE.SliceInterface([]any{in, x})
			isErr = err != nil
			sym.Assert("reported", isErr == fails)
			if !isErr {
				a := entries(v)
				sym.Assert("slice-len", len(a) == 2)
				sym.Assert("next", a[1].Int32() == x)
				v = a[0]
			}
		}
		if isErr {
			return
		}
		sym.Assert("null", (v.Type() == bsontype.Null) == fails)
		if !fails {
			sub := v.MutableDocument()
			sym.Assert("content", sub.Len() == 1 && sub.Lookup("q").Int32() == x)
		}
	case 1:
		got := DC.Interface(in)
		sym.Assert("document", got != nil)
		if fails {
			sym.Assert("empty", got.Len() == 0)
		} else {
			sym.Assert("content", got.Len() == 1 && got.Lookup("q").Int32() == x)
		}
	case 2:
		got, err := DCE.Interface(in)
		sym.Assert("reported", (err != nil) == fails)
		if !fails {
			sym.Assert("content", got.Len() == 1 && got.Lookup("q").Int32() == x)
		}
	}
	sym.Reach("done")
}

// GoScalars: every scalar comes through every route as itself; what does not fit is null or refused.
func GoScalars() {
	i, u := sym.Int64("i"), sym.Uint64("u")
	var in any
	var want func(v *birch.Value) bool
	integer := func(x any, n int64) { in, want = x, func(v *birch.Value) bool { return isInt(v, n) } }
	refused := false
	switch sym.Choose("kind", 20) {
	case 0:
		integer(int8(i), int64(int8(i)))
	case 1:
		integer(int16(i), int64(int16(i)))
	case 2:
		integer(int32(i), int64(int32(i)))
	case 3:
		integer(i, i)
	case 4:
		integer(int(i), i)
	case 5:
		integer(uint8(u), int64(uint8(u)))
	case 6:
		integer(uint16(u), int64(uint16(u)))
	case 7:
		integer(uint32(u), int64(uint32(u)))
	case 8:
		integer(u, int64(u))
		refused = u > math.MaxInt64
	case 9:
		integer(uint(u), int64(u))
		refused = u > math.MaxInt64
	case 10:
		in, want = i > 3, func(v *birch.Value) bool { return v.Boolean() == (i > 3) }
	case 11:
		in, want = math.Float64frombits(u), func(v *birch.Value) bool { return math.Float64bits(v.Double()) == u }
	case 12:
		f := []float32{0, 1.5, -2.25, 3.4028234663852886e38, 1e-45, float32(math.Inf(-1))}[sym.Choose("f", 6)]
		in, want = f, func(v *birch.Value) bool { return v.Double() == float64(f) }
	case 13:
		s := sym.StringUpTo("s", 0, 3)
		in, want = s, func(v *birch.Value) bool { return v.StringValue() == s }
	case 14:
		sym.Assume(i > -(1<<40) && i < 1<<40)
		in, want = time.UnixMilli(i), func(v *birch.Value) bool { return v.DateTime() == i }
	case 15:
		in, want = types.Timestamp{T: uint32(u), I: uint32(i)}, func(v *birch.Value) bool {
			t, n := v.Timestamp()
			return t == uint32(u) && n == uint32(i)
		}
	case 16:
		in, want = VC.Int64(i), func(v *birch.Value) bool { return v.Int64() == i }
	case 17:
		in, want = DC.Elements(EC.Int64("q", i)), func(v *birch.Value) bool { return v.MutableDocument().Lookup("q").Int64() == i }
	case 18:
		r, err := DC.Elements(EC.Int64("q", i)).MarshalBSON()
		sym.Assert("marshal", err == nil)
		in, want = birch.Reader(r), func(v *birch.Value) bool { return v.MutableDocument().Lookup("q").Int64() == i }
	case 19:
		in, want = nil, func(v *birch.Value) bool { return v.Type() == bsontype.Null }
	}
	v := elementRoutes(in)
	if refused {
		sym.Assert("refused", v == nil || v.Type() == bsontype.Null)
	} else {
		sym.Assert("accepted", v != nil)
		sym.Assert("value", want(v))
	}
	sym.Reach("done")
}
