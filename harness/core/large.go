package core

import (
	"io"

	"github.com/tychoish/birch"
	"verif/harness/sym"
)

// template is a well-formed document that holds every type, with strings of some length, nested three levels.
func template() []byte {
	inner := docOf(append(elemOf(0x12, "i", put64(77)...), elemOf(0x02, "s", bstr("a longer text")...)...)...)
	arr := docOf(append(elemOf(0x03, "0", inner...), elemOf(0x05, "1", 3, 0, 0, 0, 0x80, 1, 2, 3)...)...)
	code := append(bstr("f()"), inner...)
	oid := []byte("twelve bytes")
	var b []byte
	add := func(t byte, k string, p ...byte) { b = append(b, elemOf(t, k, p...)...) }
	add(0x01, "double", put64(0x3ff8000000000000)...)
	add(0x02, "string", bstr("some text")...)
	add(0x03, "doc", inner...)
	add(0x04, "array", arr...)
	add(0x05, "bin", append([]byte{8, 0, 0, 0, 2, 4, 0, 0, 0}, 9, 8, 7, 6)...)
	add(0x07, "oid", oid...)
	add(0x08, "bool", 1)
	add(0x0B, "regex", []byte("ab*\x00ix\x00")...)
	add(0x0C, "ptr", append(bstr("db.c"), oid...)...)
	add(0x0D, "js", bstr("x")...)
	add(0x0F, "code", append(put32(len(code)+4), code...)...)
	add(0x10, "int", put32(-5)...)
	add(0x13, "decimal", append(put64(3), put64(4)...)...)
	add(0x0A, "null")
	return docOf(b...)
}

// place is any position below n, which may be more than a choice can hold.
func place(n int) int {
	if n <= 250 {
		return sym.Choose("at", n)
	}
	hi := sym.Choose("at.hi", (n+99)/100)
	return hi*100 + sym.Choose("at.lo", min(100, n-hi*100))
}

// damagedTemplate is the template cut at any place, or with any M bytes in any place.
func damagedTemplate() []byte {
	b := template()
	if sym.Bool("cut") {
		b = b[:place(len(b))]
		if len(b) >= 4 && sym.Bool("fix") {
			copy(b, put32(len(b)))
		}
		return b
	}
	m := sym.Param("M", 1)
	copy(b[place(len(b)-m+1):], sym.Bytes("with", m))
	return b
}

// DamagedDocument: reading a document that was damaged anywhere ends in an error or in a document that is written back.
func DamagedDocument() {
	b := damagedTemplate()
	readAndWalk(append([]byte(nil), b...))
	judgeRoundTrip(b)
	sym.Reach("done")
}

// DamagedReader: the same for the lazy reader, and lookups.
func DamagedReader() {
	b := damagedTemplate()
	readerOps(b)
	sym.NoPanic("lookup", func() {
		_, _ = birch.Reader(b).RecursiveLookup("array", "0", "s")
		_, _ = birch.Reader(b).RecursiveLookup("code", "i")
		_, _ = birch.Reader(b).RecursiveLookup("null")
	})
	sym.Reach("done")
}

func numbered(i int) string {
	if i%10 == 3 {
		return "dup"
	}
	return "k" + itoa(i)
}

// LargeDoc: documents of many elements behave as lists too.
func LargeDoc() {
	n := []int{11, 40, 130}[sym.Choose("n", sym.Param("NS", 2))]
	base := sym.Int32("base")
	d := birch.DC.Make(sym.Choose("cap", 2) * 8)
	var m []pair
	for i := 0; i < n; i++ {
		p := pair{numbered(i), base + int32(i)}
		m = append(m, p)
		d.Append(mkElem(p))
	}
	if sym.Bool("decoded") {
		b, err := d.MarshalBSON()
		sym.Assert("encodes", err == nil)
		if d, err = birch.ReadDocument(b); err != nil {
			sym.Assert("decodes", false)
			return
		}
	}
	if sym.Bool("map") {
		_ = d.Map()
	}
	at := []int{0, 3, 9, n / 2, n - 1, n}[sym.Choose("at", 6)]
	k := numbered(at)
	x := sym.Int32("x")
	switch sym.Choose("op", 4) {
	case 0:
		m = modelSet(m, pair{k, x})
		d.Set(mkElem(pair{k, x}))
	case 1:
		var gone *pair
		m, gone = modelDel(m, k)
		e := d.Delete(k)
		sym.Assert("deleted", (e == nil) == (gone == nil) && (e == nil || e.Value().Int32() == gone.val))
	case 2:
		m = append(m, pair{k, x})
		d.Append(mkElem(pair{k, x}))
	case 3:
		c := d.Copy()
		c.Set(mkElem(pair{k, x}))
		sameDoc("copy", c, modelSet(append([]pair(nil), m...), pair{k, x}), []string{k})
	}
	sameDoc("doc", d, m, []string{k, "dup", "k0", "k" + itoa(n)})
	sym.Reach("done")
}

// LargeArray: arrays of many values, keys up to four digits.
func LargeArray() {
	n := []int{11, 101, 1001}[sym.Choose("n", sym.Param("NS", 2))]
	base := sym.Int32("base")
	a := birch.MakeArray(sym.Choose("cap", 2) * 8)
	m := make([]int32, n)
	for i := range m {
		m[i] = base + int32(i)
		a.Append(VC.Int32(m[i]))
	}
	edge := func(name string) int {
		return []int{0, 1, 9, 10, n / 2, n - 1, n, n + 1}[sym.Choose(name, 8)]
	}
	at := edge("at")
	x := sym.Int32("x")
	switch sym.Choose("op", 3) {
	case 0:
		sym.Assert("set", sym.Panics(func() { a.Set(uint(at), VC.Int32(x)) }) == (at >= n))
		if at < n {
			m[at] = x
		}
	case 1:
		v := a.Delete(uint(at))
		sym.Assert("delete", (v != nil) == (at < n))
		if at < n {
			m = append(append([]int32(nil), m[:at]...), m[at+1:]...)
		}
	case 2:
		a.Append(VC.Int32(x))
		m = append(m, x)
	}
	sym.Assert("len", a.Len() == len(m))
	var body []byte
	for i, v := range m {
		body = append(body, elemOf(0x10, itoa(i), put32(int(v))...)...)
	}
	i := 0
	for v := range a.Iterator() {
		sym.Assert("order", i < len(m) && v.Int32() == m[i])
		i++
	}
	sym.Assert("all", i == len(m))
	b, err := DC.Elements(EC.Array("a", a)).MarshalBSON()
	sym.Assert("encodes", err == nil && same(b, docOf(elemOf(0x04, "a", docOf(body...)...)...)))
	d, err := birch.ReadDocument(b)
	sym.Assert("reads", err == nil)
	if err != nil {
		return
	}
	look := edge("look")
	v, err := a.Lookup(uint(look))
	sym.Assert("lookup", (err == nil) == (look < len(m)) && (err != nil || v.Int32() == m[look]))
	e, err := d.Search("a", itoa(look))
	sym.Assert("search", (err == nil) == (look < len(m)) && (err != nil || e.Value().Int32() == m[look]))
	e, err = birch.Reader(b).RecursiveLookup("a", itoa(look))
	sym.Assert("raw-lookup", (err == nil) == (look < len(m)) && (err != nil || e.Value().Int32() == m[look]))
	sym.Reach("done")
}

// Deep: documents and arrays nested many levels are encoded, decoded, compared, copied and searched as well.
func Deep() {
	depth := []int{6, 33, 100}[sym.Choose("depth", sym.Param("NS", 3))]
	x := sym.Int32("x")
	d := DC.Elements(EC.Int32("x", x))
	wire := docOf(elemOf(0x10, "x", put32(int(x))...)...)
	path := []string{"x"}
	arrays := sym.Bool("arrays")
	for i := 0; i < depth; i++ {
		if arrays && i%2 == 1 {
			d = DC.Elements(EC.Array("a", birch.NewArray(VC.Document(d))))
			wire = docOf(elemOf(0x04, "a", docOf(elemOf(0x03, "0", wire...)...)...)...)
			path = append([]string{"a", "0"}, path...)
		} else {
			d = DC.Elements(EC.Null("n"), EC.SubDocument("d", d))
			wire = docOf(append(elemOf(0x0A, "n"), elemOf(0x03, "d", wire...)...)...)
			path = append([]string{"d"}, path...)
		}
	}
	b, err := d.MarshalBSON()
	sym.Assert("encodes", err == nil && same(b, wire))
	n, err := birch.Reader(wire).Validate()
	sym.Assert("validates", err == nil && int(n) == len(wire))
	r, err := birch.ReadDocument(wire)
	sym.Assert("decodes", err == nil)
	if err != nil {
		return
	}
	sym.Assert("equal", r.ElementAt(0).Equal(d.ElementAt(0)))
	for _, dd := range []*birch.Document{d, r} {
		e, err := dd.Search(path...)
		sym.Assert("search", err == nil && e.Value().Int32() == x)
		b, err = dd.MarshalBSON()
		sym.Assert("again", err == nil && same(b, wire))
	}
	e, err := birch.Reader(wire).RecursiveLookup(path...)
	sym.Assert("raw", err == nil && e.Value().Int32() == x)
	sym.Reach("done")
}

// SortedLong: documents long enough for every stage of a sorting algorithm, where few keys and values differ.
func SortedLong() {
	n := sym.Param("N", 30)
	mod := 2 + sym.Choose("mod", 3)
	x := sym.Int32("x")
	var es []*birch.Element
	at := sym.Choose("at", n)
	for i := 0; i < n; i++ {
		v := int32((i * 7) % mod)
		k := "k" + itoa((i*5)%3)
		switch {
		case i == at:
			es = append(es, EC.Int32(k, x))
		case i%4 == 3:
			es = append(es, EC.Boolean(k, i%8 == 3))
		default:
			es = append(es, EC.Int32(k, v))
		}
	}
	sortedOf(es)
	sym.Reach("done")
}

// RoundTripMany: documents of many elements are read and written back.
func RoundTripMany() {
	n := []int{9, 127, 128, 129, 300}[sym.Choose("n", 5)]
	x := sym.Int32("x")
	var body []byte
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 0:
			body = append(body, elemOf(0x10, "k"+itoa(i), put32(int(x))...)...)
		case 1:
			body = append(body, elemOf(0x0A, "k"+itoa(i))...)
		case 2:
			body = append(body, elemOf(0x03, "k"+itoa(i), docOf(elemOf(0x08, "b", 1)...)...)...)
		case 3:
			body = append(body, elemOf(0x02, "k"+itoa(i), bstr("value "+itoa(i))...)...)
		}
	}
	judgeRoundTrip(docOf(body...))
	sym.Reach("done")
}

// KeptEncodings: what was encoded stays as it was when other things are encoded, printed and read.
func KeptEncodings() {
	n := []int{1, 12, 65}[sym.Choose("n", 3)]
	x, y := sym.Int32("x"), sym.Int32("y")
	build := func(v int32) (*birch.Document, *birch.Array) {
		d, a := DC.Make(n), birch.MakeArray(n)
		for i := 0; i < n; i++ {
			d.Append(EC.Int32("k"+itoa(i), v))
			a.Append(VC.Int32(v))
		}
		return d, a
	}
	encode := func(v int32) (out [][]byte) {
		d, a := build(v)
		keep := func(b []byte, err error) {
			sym.Assert("encodes", err == nil)
			out = append(out, b)
		}
		keep(d.MarshalBSON())
		keep(a.MarshalBSON())
		keep(EC.SubDocument("d", d).MarshalBSON())
		keep(EC.Array("a", a).MarshalBSON())
		s := &sink{}
		_, err := d.WriteTo(s)
		keep(s.b, err)
		return out
	}
	one := encode(x)
	var copies []string
	for _, b := range one {
		copies = append(copies, string(b))
	}
	d, a := build(y)
	r := DC.New()
	_, err := r.ReadFrom(&chunks{data: one[0]})
	sym.Assert("reads", err == nil)
	_ = encode(y)
	for i := 0; i < 3; i++ {
		_, _ = DC.New().ReadFrom(&chunks{data: encode(y)[0]})
		_, _ = birch.NewFromIOReader(&chunks{data: encode(y)[0]})
	}
	_ = d.String() + a.String()
	_, _ = d.MarshalJSON()
	for i, b := range one {
		sym.Assert("kept", string(b) == copies[i])
	}
	b, err := r.MarshalBSON()
	sym.Assert("read-kept", err == nil && string(b) == copies[0])
	sym.Reach("done")
}

// StreamLarge: documents of any size come off a stream one at a time, in whatever pieces.
func StreamLarge() {
	l := sizes[sym.Choose("size", sym.Param("NS", 9))]
	x := sym.Int32("x")
	pad := make([]byte, l)
	for i := range pad {
		pad[i] = byte('a' + i%26)
	}
	a := docOf(append(elemOf(0x02, "pad", bstr(string(pad))...), elemOf(0x10, "x", put32(int(x))...)...)...)
	b := docOf(append(elemOf(0x10, "y", put32(int(x)+1)...), elemOf(0x05, "z", append(put32(l/2), make([]byte, l/2+1)...)...)...)...)
	all := append(append([]byte(nil), a...), b...)
	cut := len(all)
	if sym.Bool("cut") {
		cut = []int{3, 4, 5, 4096, len(a) - 1, len(a), len(a) + 2, len(all) - 1}[sym.Choose("at", 8)]
		sym.Assume(cut < len(all))
	}
	src := &chunks{data: all[:cut], end: io.EOF, early: sym.Bool("early"), stalls: 1, free: 2}
	how := sym.Choose("how", 3)
	read := func(src io.Reader) (func() []byte, error) {
		var d *birch.Document
		var err error
		switch how {
		case 0:
			d = DC.New()
			_, err = d.ReadFrom(src)
		case 1:
			d, err = birch.DCE.ReadFrom(src)
		default:
			r, err := birch.NewFromIOReader(src)
			return func() []byte { return r }, err
		}
		return func() []byte {
			b, err := d.MarshalBSON()
			sym.Assert("encodes", err == nil)
			return b
		}, err
	}
	one, err := read(src)
	sym.Assert("first", (err == nil) == (cut >= len(a)) && (err != nil || string(one()) == string(a)))
	if err != nil {
		return
	}
	sym.Assert("takes-its-own", src.off == len(a))
	two, err := read(src)
	full := err == nil
	sym.Assert("second", full == (cut >= len(all)) && (err != nil || string(two()) == string(b)))
	sym.Assert("first-kept", string(one()) == string(a))
	_, err = read(src)
	sym.Assert("end", err != nil)
	for i := 0; i < 3; i++ {
		_, err = read(&chunks{data: b, end: io.EOF})
		sym.Assert("more", err == nil)
	}
	sym.Assert("first-kept-longer", string(one()) == string(a))
	sym.Assert("second-kept", !full || string(two()) == string(b))
	sym.Reach("done")
}
