package core

import (
	"math"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"verif/harness/sym"
)

// A model of a document: an ordered list of keys and integers.
type pair struct {
	key string
	val int32
}

func mkElem(p pair) *birch.Element { return EC.Int32(p.key, p.val) }

// sameDoc compares everything one can observe about a document with the model.
func sameDoc(where string, d *birch.Document, m []pair, keys []string) {
	sym.Assert(where+":len", d.Len() == len(m))
	i := 0
	for e := range d.Iterator() {
		if i < len(m) {
			sym.Assert(where+":order", sym.And(e.Key() == m[i].key, e.Value().Int32() == m[i].val))
		}
		i++
	}
	sym.Assert(where+":iterated-all", i == len(m))
	for i := range m {
		e, ok := d.ElementAtOK(uint(i))
		sym.Assert(where+":element-at", ok && e.Key() == m[i].key)
	}
	_, ok := d.ElementAtOK(uint(len(m)))
	sym.Assert(where+":element-at-end", !ok)

	mp := d.Map()
	distinct := 0
	for i := range m {
		first := true
		for j := 0; j < i; j++ {
			if m[j].key == m[i].key {
				first = false
			}
		}
		if !first {
			continue
		}
		distinct++
		e, ok := mp[m[i].key]
		sym.Assert(where+":map-has", ok)
		if ok {
			sym.Assert(where+":map-first", e.Value().Int32() == m[i].val)
		}
	}
	sym.Assert(where+":map-len", len(mp) == distinct)

	for _, k := range keys {
		var want *pair
		for i := range m {
			if m[i].key == k {
				want = &m[i]
				break
			}
		}
		v := d.Lookup(k)
		v2, err := d.LookupErr(k)
		e := d.LookupElement(k)
		e2, err2 := d.LookupElementErr(k)
		e3, err3 := d.Search(k)
		if want == nil {
			sym.Assert(where+":absent", v == nil && v2 == nil && err != nil && e == nil && e2 == nil && err2 != nil && e3 == nil && err3 != nil)
			continue
		}
		found := v != nil && v2 != nil && err == nil && e != nil && e2 != nil && err2 == nil && e3 != nil && err3 == nil
		sym.Assert(where+":present", found)
		if found {
			sym.Assert(where+":first", sym.And(v.Int32() == want.val, v2.Int32() == want.val, e.Value().Int32() == want.val,
				e2.Value().Int32() == want.val, e3.Value().Int32() == want.val))
		}
	}
	// the encoding is exactly that of the list
	var body []byte
	for _, p := range m {
		body = append(body, elemOf(0x10, p.key, put32(int(p.val))...)...)
	}
	b, err := d.MarshalBSON()
	sym.Assert(where+":encodes", err == nil && same(b, docOf(body...)))
}

func modelSet(m []pair, p pair) []pair {
	for i := range m {
		if m[i].key == p.key {
			m[i].val = p.val
			return m
		}
	}
	return append(m, p)
}

func modelDel(m []pair, k string) ([]pair, *pair) {
	for i := range m {
		if m[i].key == k {
			p := m[i]
			return append(append([]pair(nil), m[:i]...), m[i+1:]...), &p
		}
	}
	return m, nil
}

// DocHistory: after any sequence of operations a document is the ordered list the operations describe.
func DocHistory() {
	steps := sym.Param("STEPS", 3)
	keys := []string{sym.String("k0", 1), sym.String("k1", 1)}
	for _, k := range keys {
		sym.Assume(k[0] != 0)
	}
	d := DC.New()
	var m []pair
	if sym.Choose("start", 2) == 1 { // a document read from bytes
		m = []pair{{keys[0], sym.Int32("s0")}, {keys[1], sym.Int32("s1")}}
		var body []byte
		for _, p := range m {
			body = append(body, elemOf(0x10, p.key, put32(int(p.val))...)...)
		}
		var err error
		d, err = birch.ReadDocument(docOf(body...))
		sym.Assert("reads", err == nil)
	}
	touched := sym.Choose("look-first", 2) == 1
	for s := 0; s < steps; s++ {
		if touched {
			_ = d.Map()
		}
		p := pair{keys[sym.Choose("key", 2)], sym.Int32("v")}
		switch sym.Choose("op", 9) {
		case 0:
			d.Append(mkElem(p))
			m = append(m, p)
		case 1:
			d.Set(mkElem(p))
			m = modelSet(m, p)
		case 2:
			e := d.Delete(p.key)
			var q *pair
			m, q = modelDel(m, p.key)
			sym.Assert("delete-returns", (e == nil) == (q == nil))
			if e != nil && q != nil {
				sym.Assert("delete-returns-value", sym.And(e.Value().Int32() == q.val, e.Key() == q.key))
			}
		case 3:
			d.Reset()
			m = nil
		case 4: // omit empty
			d.AppendOmitEmpty(mkElem(p), EC.Int32("e", 0), nil, EC.Null("nn").Copy())
			if p.val != 0 {
				m = append(m, p)
			}
			n := d.Delete("nn") // null is a value
			sym.Assert("null-kept", n != nil)
		case 5: // a copy does not follow its source, nor the source the copy
			c := d.Copy()
			cm := append([]pair(nil), m...)
			q := pair{keys[1], 11}
			change := func(x *birch.Document, xm []pair) []pair {
				x.Set(mkElem(q))
				x.Append(mkElem(p))
				x.Delete(keys[0])
				xm = append(modelSet(xm, q), p)
				xm, _ = modelDel(xm, keys[0])
				return xm
			}
			if sym.Choose("which", 2) == 0 {
				cm = change(c, cm)
			} else {
				m = change(d, m)
			}
			sameDoc("copy", c, cm, keys)
		case 6:
			q := pair{keys[0], 7}
			src := DC.Elements(mkElem(p), mkElem(q))
			d.Extend(src)
			m = append(m, p, q)
			d.Set(mkElem(pair{keys[0], 8}))
			m = modelSet(m, pair{keys[0], 8})
			sameDoc("extended-from", src, []pair{p, q}, keys)
		case 7: // two at once
			q := pair{keys[1], 9}
			d.Append(mkElem(p), mkElem(q))
			m = append(m, p, q)
		case 8: // reading replaces the content
			err := d.UnmarshalBSON(docOf(elemOf(0x10, p.key, put32(int(p.val))...)...))
			sym.Assert("re-reads", err == nil)
			m = []pair{p}
		}
		sym.Reach("op")
	}
	sameDoc("end", d, m, append(keys, "zz"))
}

// MapViewIsCopy: changing a map view does not change the document or later views.
func MapViewIsCopy() {
	k := sym.StringUpTo("k", 0, 2)
	noNul(k)
	if sym.Bool("long") {
		k = text("k", -2) + k
		noNul(k)
	}
	d := DC.Elements(EC.Int32(k, 1), EC.Int32("b", 2))
	extra := []int{0, 9, 40}[sym.Choose("extra", 3)]
	for i := 0; i < extra; i++ {
		d.Append(EC.Int32("another one "+itoa(i), int32(i)))
	}
	mv := d.Map()
	delete(mv, k)
	mv["new"] = EC.Int32("new", 3)
	mv2 := d.Map()
	_, has := mv2[k]
	_, no := mv2["new"]
	sym.Assert("view-is-copy", has && !no && d.Len() == 2+extra)
	c := mv2.Copy()
	delete(c, "b")
	if k != "b" {
		_, has = mv2["b"]
		sym.Assert("copy-of-view", has)
	}
	doc, err := mv2.MarshalDocument()
	sym.Assert("view-document", err == nil && doc.Len() == len(mv2))
	for _, key := range []string{k, "b"} {
		if doc != nil && k != "b" {
			sym.Assert("view-document-values", doc.Lookup(key) != nil && doc.Lookup(key).Int32() == d.Lookup(key).Int32())
		}
	}
	sym.Assert("view-valid", mv2.Validate() == nil)
	b, err := mv2.MarshalBSON()
	sym.Assert("view-encodes", err == nil && wellFormed(b))
	d2, err := birch.ReadDocument(b)
	sym.Assert("view-decodes", err == nil && d2.Len() == len(mv2))
	into, into2 := birch.DocumentMap{"old": EC.Null("old")}, birch.DocumentMap{}
	sym.Assert("view-unmarshals", into.UnmarshalDocument(d) == nil && into2.UnmarshalBSON(b) == nil)
	_, old := into["old"]
	sym.Assert("view-unmarshals-all", len(into2) == len(mv2) && (old || k == "old"))
	for key, e := range mv2 {
		x, ok := into[key]
		y, ok2 := into2[key]
		sym.Assert("view-unmarshals-keys", ok && ok2)
		if ok && ok2 && k != "b" {
			sym.Assert("view-unmarshals-values", x.Equal(e) && y.Equal(e))
		}
	}
}

// EmptyValues: a value is dropped as empty exactly when it is the zero value of its type.
func EmptyValues() {
	s := anyValue("a", 1)
	d := DC.New().AppendOmitEmpty(s.ec("k"))
	zero := true
	switch s.t {
	case 0x01:
		zero = s.vc().Double() == 0
	case 0x05:
		_, b := s.vc().Binary()
		zero = len(b) == 0
	case 0x02, 0x0D, 0x0E, 0x0C, 0x0F:
		zero = s.wire[0] == 1 && s.wire[1] == 0
		if s.t == 0x0F {
			c, _ := s.vc().MutableJavaScriptWithScope()
			zero = c == ""
		}
	case 0x0B:
		zero = s.wire[0] == 0
	case 0x06:
		zero = true
	case 0x0A, 0x7F, 0xFF, 0x03, 0x04:
		zero = false
	default:
		for _, c := range s.wire {
			if c != 0 {
				zero = false
				break
			}
		}
	}
	sym.Assert("omitted-iff-zero", (d.Len() == 0) == zero)
	sym.Reach("done")
}

// ArrayHistory: after any sequence of operations an array is the list the operations describe, with keys 0..n-1.
func ArrayHistory() {
	steps := sym.Param("STEPS", 3)
	a := birch.NewArray()
	var m []int32
	if sym.Choose("start", 2) == 1 {
		x, y := sym.Int32("s0"), sym.Int32("s1")
		m = []int32{x, y}
		key := sym.String("rawkey", 1) // keys as read do not matter
		sym.Assume(key[0] != 0)
		raw := docOf(elemOf(0x04, "a", docOf(append(elemOf(0x10, "0", put32(int(x))...), elemOf(0x10, key, put32(int(y))...)...)...)...)...)
		d, err := birch.ReadDocument(raw)
		sym.Assert("reads", err == nil)
		a = d.Lookup("a").MutableArray()
	}
	for s := 0; s < steps; s++ {
		v := sym.Int32("v")
		switch sym.Choose("op", 7) {
		case 0:
			a.Append(VC.Int32(v))
			m = append(m, v)
		case 1:
			a.Append(VC.Int32(v), VC.Int32(5))
			m = append(m, v, 5)
		case 2:
			i := sym.Choose("i", 3)
			if i < len(m) {
				a.Set(uint(i), VC.Int32(v))
				m[i] = v
			} else {
				sym.Assert("set-out-of-range-panics", sym.Panics(func() { a.Set(uint(i), VC.Int32(v)) }))
			}
		case 3:
			i := sym.Choose("i", 3)
			x := a.Delete(uint(i))
			sym.Assert("delete-in-range", (x != nil) == (i < len(m)))
			if i < len(m) && x != nil {
				sym.Assert("delete-returns", x.Int32() == m[i])
				m = append(append([]int32(nil), m[:i]...), m[i+1:]...)
			}
		case 4:
			a.Reset()
			m = nil
		case 5:
			b := birch.NewArray(VC.Int32(v), VC.Int32(6))
			a.Extend(b)
			m = append(m, v, 6)
			a.Set(uint(len(m)-2), VC.Int32(4))
			m[len(m)-2] = 4
			x, err := b.Lookup(0)
			sym.Assert("extend-leaves-source", b.Len() == 2 && err == nil && x.Int32() == v)
		case 6:
			a.ExtendFromDocument(DC.Elements(EC.Int32("zz", v), EC.Int32("y", 8)))
			m = append(m, v, 8)
		}
	}
	sym.Assert("len", a.Len() == len(m))
	i := 0
	for v := range a.Iterator() {
		sym.Assert("order", i < len(m) && v.Int32() == m[i])
		i++
	}
	sym.Assert("iterated-all", i == len(m))
	idx := sym.Uint64("idx")
	v, err := a.Lookup(uint(idx))
	sym.Assert("lookup-in-range", (err == nil) == (idx < uint64(len(m))))
	if err == nil {
		sym.Assert("lookup-value", v.Int32() == m[sym.Concrete(int(idx))])
	}
	d := DC.Elements(EC.Array("a", a))
	var body []byte
	for i, x := range m {
		body = append(body, elemOf(0x10, itoa(i), put32(int(x))...)...)
	}
	b, err := d.MarshalBSON()
	sym.Assert("encodes", err == nil && same(b, docOf(elemOf(0x04, "a", docOf(body...)...)...)))
	b2, err := a.MarshalBSON()
	sym.Assert("encodes-alone", err == nil && same(b2, docOf(body...)))
	sym.Reach("done")
}

// ArrayLong: index keys past one digit.
func ArrayLong() {
	n := sym.Choose("n", 4)*4 + 9 // 9 13 17 21
	v := sym.Int32("v")
	a := birch.MakeArray(2)
	var body []byte
	for i := 0; i < n; i++ {
		a.Append(VC.Int32(v + int32(i)))
		body = append(body, elemOf(0x10, itoa(i), put32(int(v+int32(i)))...)...)
	}
	b, err := DC.Elements(EC.Array("", a)).MarshalBSON()
	sym.Assert("encodes", err == nil && same(b, docOf(elemOf(0x04, "", docOf(body...)...)...)))
	d, err := birch.ReadDocument(b)
	sym.Assert("reads", err == nil)
	if err != nil {
		return
	}
	i := sym.Choose("i", 22)
	e, err := d.Search("", itoa(i))
	sym.Assert("search-index", (err == nil) == (i < n))
	if err == nil {
		sym.Assert("search-value", e.Value().Int32() == v+int32(i))
	}
	sym.Reach("done")
}

func itoa(i int) string {
	if i >= 10 {
		return itoa(i/10) + itoa(i%10)
	}
	return string([]byte{byte('0' + i)})
}

// Equality: values are equal exactly when type and encoded content are, in whichever form they are held.
func Equality() {
	n := sym.Param("N", 1)
	a, b := anyValue("a", n), anyValue("b", n)
	if n < 0 {
		sym.Assume(a.t == b.t)
	}
	va, vb := a.vc(), b.vc()
	if sym.Choose("parsed", 2) == 1 {
		d, err := birch.ReadDocument(docOf(elemOf(b.t, "k", b.wire...)...))
		sym.Assert("reads", err == nil)
		if err != nil {
			return
		}
		vb = d.Lookup("k")
		if sym.Choose("opened", 2) == 1 {
			okWalk(vb)
		}
	}
	want := sym.And(a.t == b.t, same(a.wire, b.wire))
	sym.Assert("equal", va.Equal(vb) == want)
	sym.Assert("symmetric", vb.Equal(va) == want)
	sym.Assert("reflexive", va.Equal(va) && vb.Equal(vb))
	sym.Assert("nil", !va.Equal(nil) && (*birch.Value)(nil).Equal(nil))
	sym.Reach("done")
}

// ElementEquality adds the key.
func ElementEquality() {
	ka, kb := noNul(sym.StringUpTo("ka", 0, 2)), noNul(sym.StringUpTo("kb", 0, 2))
	x, y := sym.Int64("x"), sym.Int64("y")
	a, b := EC.Int64(ka, x), EC.Int64(kb, y)
	want := sym.And(ka == kb, x == y)
	sym.Assert("equal", a.Equal(b) == want)
	sym.Assert("symmetric", b.Equal(a) == want)
	sym.Assert("nil", !a.Equal(nil) && (*birch.Element)(nil).Equal(nil))
	c := a.Copy()
	sym.Assert("copy-equal", a.Equal(c) && c.Key() == ka)
}

// orderable is a value of a type the library orders.
func orderable(name string, key string) (*birch.Element, byte) {
	kind := sym.Choose(name+".k", 7)
	if p := sym.Param("KIND", -1); p >= 0 {
		sym.Assume(kind == p)
	}
	switch kind {
	case 0:
		f := sym.Float64(name)
		sym.Assume(!math.IsNaN(f))
		return EC.Double(key, f), 0x01
	case 1:
		return EC.String(key, sym.StringUpTo(name, 0, 2)), 0x02
	case 2:
		return EC.Int32(key, sym.Int32(name)), 0x10
	case 3:
		return EC.Int64(key, sym.Int64(name)), 0x12
	case 4:
		// relating two symbolic instants through their seconds is hard for the solver: one is
		// arbitrary, the other one of several near every kind of boundary
		fixed := []int64{0, -1, 1000, -1000, 1700000000123, -1700000000123}
		var t int64
		if name != "a" {
			t = fixed[sym.Choose(name+".fixed", len(fixed))]
		} else {
			t = sym.Int64(name)
			sym.Assume(sym.And(t > -1<<42, t < 1<<42))
		}
		return EC.DateTime(key, t), 0x09
	case 5:
		return EC.Boolean(key, sym.Bool(name)), 0x08
	}
	o := oidOf(name)
	for i := 0; i < 10; i++ {
		o[i] = 7
	}
	return EC.ObjectID(key, o), 0x07
}

// refLess is the documented order: key, type, value.
func refLess(a, b *birch.Element) bool {
	if a.Key() != b.Key() {
		return a.Key() < b.Key()
	}
	if a.Value().Type() != b.Value().Type() {
		return a.Value().Type() < b.Value().Type()
	}
	x, y := a.Value(), b.Value()
	switch x.Type() {
	case bsontype.Double:
		return x.Double() < y.Double()
	case bsontype.String:
		return x.StringValue() < y.StringValue()
	case bsontype.Int32:
		return x.Int32() < y.Int32()
	case bsontype.Int64:
		return x.Int64() < y.Int64()
	case bsontype.DateTime:
		return x.DateTime() < y.DateTime()
	case bsontype.ObjectID:
		p, q := x.ObjectID(), y.ObjectID()
		return string(p[:]) < string(q[:])
	}
	return false
}

// LessPairs: the order of two elements is by key, then type, then value.
func LessPairs() {
	ka, kb := noNul(sym.StringUpTo("ka", 0, 1)), noNul(sym.StringUpTo("kb", 0, 1))
	a, _ := orderable("a", ka)
	b, _ := orderable("b", kb)
	es := birch.Elements{a, b}
	want := refLess(a, b)
	sym.Assert("less", es.Less(0, 1) == want)
	sym.Assert("asymmetric", !(es.Less(0, 1) && es.Less(1, 0)))
	sym.Assert("irreflexive", !es.Less(0, 0))
	s := DC.Elements(a, b).Sorted()
	first, second := a, b
	if refLess(b, a) {
		first, second = b, a
	}
	sym.Assert("sorted", s.Len() == 2 && s.ElementAt(0) == first && s.ElementAt(1) == second)
	sym.Reach("done")
}

// SortedDocs: sorting is a stable, ordered permutation that leaves its source alone.
func SortedDocs() {
	n := sym.Param("N", 3)
	var es []*birch.Element
	for i := 0; i < n; i++ {
		k := "a"
		if sym.Choose("same-key", 2) == 1 {
			k = sym.String("key", 1)
			sym.Assume(k[0] != 0)
		}
		if sym.Choose("t", 2) == 0 {
			es = append(es, EC.Int32(k, sym.Int32("i")))
		} else {
			es = append(es, EC.Boolean(k, sym.Bool("b")))
		}
	}
	sortedOf(es)
	sym.Reach("done")
}

// sortedOf judges the sorted form of a document of these elements.
func sortedOf(es []*birch.Element) {
	n := len(es)
	d := DC.Elements(es...)
	s := d.Sorted()
	sym.Assert("len", s.Len() == n && d.Len() == n)
	pos := make([]int, 0, n)
	for i := 0; i < n; i++ {
		sym.Assert("source-unchanged", d.ElementAt(uint(i)) == es[i])
		at := -1
		for j := 0; j < n; j++ {
			if es[j] == s.ElementAt(uint(i)) {
				at = j
			}
		}
		sym.Assert("permutation", at >= 0)
		for _, p := range pos {
			sym.Assert("no-duplicate", p != at)
		}
		pos = append(pos, at)
	}
	for i := 0; i+1 < n; i++ {
		x, y := es[pos[i]], es[pos[i+1]]
		sym.Assert("ordered", !refLess(y, x))
		if pos[i] > pos[i+1] {
			sym.Assert("stable", refLess(x, y))
		}
	}
}
