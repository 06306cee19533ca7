package core

import (
	"github.com/tychoish/birch"
	"verif/harness/sym"
)

// RawDocument: any byte string of up to N bytes is read, walked and re-encoded.
func RawDocument() {
	b := sym.BytesUpTo("b", 0, sym.Param("N", 14))
	readAndWalk(b)
}

func readAndWalk(b []byte) {
	orig := append([]byte(nil), b...)
	sym.NoPanic("read-walk", func() {
		d, err := birch.ReadDocument(b)
		if err != nil {
			sym.Reach("rejected")
			return
		}
		sym.Reach("accepted")
		walkDoc(d, 4)
		m := d.Map()
		sym.Assert("map-size", len(m) <= d.Len())
		_, _ = d.MarshalBSON()
	})
	sym.Assert("input-unchanged-len", len(orig) == len(b))
}

// RawReader: the lazy reader over any byte string.
func RawReader() {
	b := sym.BytesUpTo("b", 0, sym.Param("N", 12))
	readerOps(b)
}

func readerOps(b []byte) {
	r := birch.Reader(b)
	sym.NoPanic("reader-validate", func() {
		n, err := r.Validate()
		if err == nil {
			sym.Reach("valid")
			sym.Assert("valid-size", int(n) <= len(b))
			sym.Assert("valid-size-is-declared", int(n) == le32(b))
		}
	})
	sym.NoPanic("reader-iterate", func() {
		for e, err := range r.Iterator() {
			if err != nil {
				break
			}
			sym.Reach("element")
			_ = e.Key()
			okWalk(e.Value())
		}
	})
	sym.NoPanic("reader-element-at", func() {
		e, err := r.ElementAt(1)
		if err == nil {
			sym.Reach("second")
			okWalk(e.Value())
		}
	})
	sym.NoPanic("reader-marshal", func() {
		_, _ = r.MarshalBSON()
	})
}

func typedBody(maxLen int) []byte {
	var t byte
	if only := sym.Param("T", 0); only != 0 {
		t = byte(only)
	} else {
		t = pickType("t")
	}
	p := sym.BytesUpTo("p", 0, maxLen)
	return docOf(elemOf(t, "k", p...)...)
}

// TypedDocument: one element of each type with an arbitrary payload.
func TypedDocument() { readAndWalk(typedBody(sym.Param("N", 14))) }

// TypedReader is the same through the lazy reader.
func TypedReader() { readerOps(typedBody(sym.Param("N", 14))) }

// LookupRaw: searching any bytes never panics.
func LookupRaw() {
	b := sym.BytesUpTo("b", 0, sym.Param("N", 12))
	r := birch.Reader(b)
	k1 := sym.StringUpTo("k1", 0, 1)
	sym.NoPanic("lookup", func() {
		_, err := r.RecursiveLookup(k1)
		if err == nil {
			sym.Reach("found")
		}
		_, err = r.RecursiveLookup(k1, "a")
		if err == nil {
			sym.Reach("found-nested")
		}
	})
}
