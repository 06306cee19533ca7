package core

import (
	"errors"
	"io"

	"github.com/tychoish/birch"
	"verif/harness/sym"
)

var errBroken = errors.New("broken stream")

// chunks delivers data in pieces of arbitrary size, as an io.Reader may.
type chunks struct {
	data   []byte
	off    int
	end    error // reported when the data is exhausted
	early  bool  // report end together with the last bytes
	stalls int   // empty reads allowed
	free   int   // reads that may be short
}

func (c *chunks) Read(p []byte) (int, error) {
	if c.off >= len(c.data) {
		return 0, c.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if left := len(c.data) - c.off; n > left {
		n = left
	}
	k := 3
	if c.free > 0 {
		c.free--
		k = sym.Choose("chunk", 4)
	}
	switch {
	case k == 0 && c.stalls > 0:
		c.stalls--
		return 0, nil
	case k == 1:
		n = 1
	case k == 2 && n > 1:
		n--
	}
	copy(p, c.data[c.off:c.off+n])
	c.off += n
	if c.early && c.off == len(c.data) {
		return n, c.end
	}
	return n, nil
}

func streamDoc(name string) []byte {
	switch sym.Choose(name+".shape", 3) {
	case 0:
		return docOf()
	case 1:
		return docOf(elemOf(0x08, "b", sym.Uint8(name)&1)...)
	}
	return docOf(elemOf(0x10, "", put32(int(sym.Int32(name)))...)...)
}

// StreamRead: documents read from a stream are those on it, whatever pieces it delivers, and each
// read takes exactly its own document.
func StreamRead() {
	a, b := streamDoc("a"), streamDoc("b")
	all := append(append([]byte(nil), a...), b...)
	cut := len(all)
	if sym.Choose("cut", 2) == 1 {
		cut = sym.Choose("at", len(all))
	}
	src := &chunks{data: all[:cut], end: io.EOF, early: sym.Choose("early", 2) == 1, stalls: 1, free: sym.Param("FREE", 3)}
	if sym.Choose("broken", 2) == 1 {
		src.end = errBroken
	}
	how := sym.Choose("how", 3)
	read := func() ([]byte, int64, error) {
		switch how {
		case 0:
			d := DC.New()
			n, err := d.ReadFrom(src)
			if err != nil {
				return nil, n, err
			}
			x, err2 := d.MarshalBSON()
			sym.Assert("encodes", err2 == nil)
			return x, n, err
		case 1:
			d, err := birch.DCE.ReadFrom(src)
			if err != nil {
				return nil, -1, err
			}
			x, err2 := d.MarshalBSON()
			sym.Assert("encodes", err2 == nil)
			return x, -1, err
		}
		r, err := birch.NewFromIOReader(src)
		return r, -1, err
	}
	x, n, err := read()
	if cut < len(a) {
		sym.Assert("truncated-fails", err != nil)
		sym.Reach("truncated")
		return
	}
	sym.Assert("first", err == nil && same(x, a))
	if n >= 0 {
		sym.Assert("count", n == int64(len(a)))
	}
	sym.Assert("takes-its-own", src.off == len(a))
	y, n, err := read()
	if cut < len(all) {
		sym.Assert("second-truncated-fails", err != nil)
		if cut == len(a) && src.end == io.EOF {
			sym.Assert("clean-end", errors.Is(err, io.EOF))
		}
		return
	}
	sym.Assert("second", err == nil && same(y, b))
	sym.Assert("first-kept", same(x, a))
	sym.Reach("both")
}

// StreamKept: a document read earlier does not change when more is read.
func StreamKept() {
	i, j := sym.Int32("i"), sym.Int32("j")
	a, b := docOf(elemOf(0x10, "x", put32(int(i))...)...), docOf(elemOf(0x10, "x", put32(int(j))...)...)
	src := &chunks{data: append(append([]byte(nil), a...), b...), end: io.EOF, free: sym.Param("FREE", 3)}
	d1, d2 := DC.New(), DC.New()
	_, err := d1.ReadFrom(src)
	_, err2 := d2.ReadFrom(src)
	sym.Assert("reads", err == nil && err2 == nil)
	sym.Assert("kept", sym.And(d1.Lookup("x").Int32() == i, d2.Lookup("x").Int32() == j))
	arr, err := birch.NewArray(VC.Int32(i)).MarshalBSON()
	arr2, err2 := birch.NewArray(VC.Int32(j), VC.Int32(j)).MarshalBSON()
	sym.Assert("arrays", err == nil && err2 == nil && same(arr, docOf(elemOf(0x10, "0", put32(int(i))...)...)))
	_ = arr2
	_ = d1.String()
	_ = birch.NewArray(VC.Int32(3)).String()
	sym.Assert("still-kept", sym.And(d1.Lookup("x").Int32() == i, d2.Lookup("x").Int32() == j))
	sym.Reach("done")
}

// StreamHostile: any length prefix and content is an error or a document, not a panic.
func StreamHostile() {
	n := sym.Param("N", 9)
	data := sym.BytesUpTo("data", 0, n)
	if len(data) >= 4 {
		l := le32(data)
		sym.Assume(l <= 4*n)
	}
	src := &chunks{data: data, end: io.EOF, free: sym.Param("FREE", 3)}
	switch sym.Choose("how", 2) {
	case 0:
		d := DC.New()
		cnt, err := d.ReadFrom(src)
		sym.Assert("count", cnt == int64(src.off))
		if err == nil {
			sym.Assert("framed", le32(data) == src.off)
		}
	case 1:
		r, err := birch.NewFromIOReader(src)
		if err == nil {
			sym.Assert("framed", len(r) == src.off && same(r, data[:src.off]))
		}
	}
	sym.Reach("done")
}

// WriteTo: what a document writes is its encoding.
type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

func StreamWrite() {
	s := anyValue("a", 1)
	d := DC.Elements(s.ec("k"))
	w := &sink{}
	n, err := d.WriteTo(w)
	want := docOf(elemOf(s.t, "k", s.wire...)...)
	sym.Assert("writes", err == nil && same(w.b, want) && n == int64(len(want)))
	w = &sink{}
	n, err = s.ec("k").WriteTo(w)
	we := elemOf(s.t, "k", s.wire...)
	sym.Assert("element-writes", err == nil && same(w.b, we) && n == int64(len(we)))
	sym.Reach("done")
}
