package core

import (
	"github.com/tychoish/birch"
	"verif/harness/sym"
)

// A tree of documents and arrays with integer leaves, and the path resolution one expects of it.
type node struct {
	kind byte // 0x03, 0x04, 0x10
	keys []string
	kids []*node
	val  int32
}

func (n *node) wire() []byte {
	if n.kind == 0x10 {
		return put32(int(n.val))
	}
	var body []byte
	for i, k := range n.kids {
		body = append(body, elemOf(k.kind, n.keys[i], k.wire()...)...)
	}
	return docOf(body...)
}

func (n *node) build() *birch.Value {
	switch n.kind {
	case 0x10:
		return VC.Int32(n.val)
	case 0x03:
		d := DC.New()
		for i, k := range n.kids {
			d.Append(EC.Value(n.keys[i], k.build()))
		}
		return VC.Document(d)
	}
	a := birch.NewArray()
	for _, k := range n.kids {
		a.Append(k.build())
	}
	return VC.Array(a)
}

func (n *node) find(path []string) *node {
	if len(path) == 0 {
		return n
	}
	for i, k := range n.keys {
		if k == path[0] {
			return n.kids[i].find(path[1:])
		}
	}
	return nil
}

func tree(name string, depth, width int) *node {
	n := &node{kind: 0x10}
	if depth > 0 {
		n.kind = []byte{0x10, 0x03, 0x04}[sym.Choose(name+".kind", 3)]
	}
	if n.kind == 0x10 {
		n.val = sym.Int32(name)
		return n
	}
	cnt := sym.Choose(name+".n", width+1)
	for i := 0; i < cnt; i++ {
		k := itoa(i)
		if n.kind == 0x03 {
			k = sym.String(name+".key", 1)
			sym.Assume(k[0] != 0)
		}
		n.keys = append(n.keys, k)
		n.kids = append(n.kids, tree(name+"."+itoa(i), depth-1, width))
	}
	return n
}

// PathLookup: a path resolves to the element it names, the same in a built document, in a parsed
// one, and in raw bytes.
func PathLookup() {
	width := sym.Param("W", 2)
	root := &node{kind: 0x03}
	n := 1 + sym.Choose("n", 2)
	for i := 0; i < n; i++ {
		k := sym.String("key", 1)
		sym.Assume(k[0] != 0)
		root.keys = append(root.keys, k)
		depth := sym.Param("D", 2)
		if i > 0 {
			depth = 1
		}
		root.kids = append(root.kids, tree("t"+itoa(i), depth, width))
	}
	path := []string{sym.String("p0", 1)}
	for i, l := 1, sym.Choose("plen", 3); i <= l; i++ {
		path = append(path, sym.StringUpTo("p", 1, 1))
	}
	for _, p := range path {
		sym.Assume(p[0] != 0)
	}
	want := root.find(path)
	built := root.build().MutableDocument()
	raw := docOf()
	{
		var body []byte
		for i, k := range root.kids {
			body = append(body, elemOf(k.kind, root.keys[i], k.wire()...)...)
		}
		raw = docOf(body...)
	}
	parsed, err := birch.ReadDocument(raw)
	sym.Assert("reads", err == nil)
	if err != nil {
		return
	}
	check := func(label string, e *birch.Element, err error) {
		sym.Assert(label+":found", (err == nil) == (want != nil))
		sym.Assert(label+":element-iff-no-error", (e != nil) == (err == nil))
		if err != nil || want == nil || e == nil {
			return
		}
		sym.Assert(label+":key", e.Key() == path[len(path)-1])
		sym.Assert(label+":type", byte(e.Value().Type()) == want.kind)
		if want.kind == 0x10 && byte(e.Value().Type()) == 0x10 {
			sym.Assert(label+":value", e.Value().Int32() == want.val)
		}
	}
	e, err := built.Search(path...)
	check("built", e, err)
	e, err = parsed.Search(path...)
	check("parsed", e, err)
	e, err = birch.Reader(raw).RecursiveLookup(path...)
	check("raw", e, err)
	sym.Reach("done")
	if want != nil && len(path) > 2 {
		sym.Reach("deep")
	}
}

// PathIndex: array positions are named by their canonical decimal only; anything else is absent or
// the same element, never a panic.
func PathIndex() {
	k := sym.StringUpTo("k", 0, sym.Param("N", 3))
	d := DC.Elements(EC.Array("a", birch.NewArray(VC.Int32(10), VC.Int32(11))))
	e, err := d.Search("a", k)
	if err == nil {
		x := e.Value().Int32()
		sym.Assert("index", x == 10 || x == 11)
		for i := 0; i < len(k); i++ {
			if i == 0 && (k[0] == '+' || k[0] == '-') {
				continue
			}
			sym.Assert("digits", k[i] >= '0' && k[i] <= '9')
		}
		sym.Assert("last-digit", len(k) > 0 && int32(k[len(k)-1]-'0') == x-10)
		if len(k) > 0 && k[0] == '-' {
			sym.Assert("minus-zero-only", x == 10)
		}
	} else {
		sym.Assert("canonical-found", k != "0" && k != "1")
	}
	sym.Reach("done")
}

// ElementAtRaw: positions in raw bytes agree with the document read from them.
func ElementAtRaw() {
	n := sym.Choose("n", 4)
	many := sym.Param("MANY", 0)
	if many > 0 {
		n = many + n - 2
	}
	var body []byte
	var vals []int32
	for i := 0; i < n; i++ {
		if many > 0 && i < n-2 {
			vals = append(vals, int32(i))
			body = append(body, elemOf(0x10, itoa(i), put32(i)...)...)
			continue
		}
		v := sym.Int32("v")
		vals = append(vals, v)
		body = append(body, elemOf(0x10, noNul(sym.StringUpTo("k", 0, 1)), put32(int(v))...)...)
	}
	raw := birch.Reader(docOf(body...))
	at := sym.Uint64("at")
	if many > 0 {
		sym.Assume(sym.Or(at < 2, at > uint64(n-3)))
	}
	e, err := raw.ElementAt(uint(at))
	sym.Assert("in-range", (err == nil) == (at < uint64(n)))
	if err == nil {
		sym.Assert("value", e.Value().Int32() == vals[sym.Concrete(int(at))])
	}
	i := 0
	for e, err := range raw.Iterator() {
		sym.Assert("iterates", err == nil && i < n)
		if err == nil && i < n {
			sym.Assert("iterated-value", e.Value().Int32() == vals[i])
		}
		i++
	}
	sym.Assert("all", i == n)
	b, err := raw.MarshalBSON()
	sym.Assert("marshals", err == nil && same(b, raw))
	sym.Reach("done")
}
