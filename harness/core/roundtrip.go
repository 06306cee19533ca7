package core

import (
	"bytes"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"verif/harness/sym"
)

// oracle: an independent reading of the BSON grammar over concrete structure. It returns whether b is
// exactly one well-formed document (the deprecated and the current types; any text encoding).
func wellFormed(b []byte) bool {
	if len(b) < 5 || le32(b) != len(b) || b[len(b)-1] != 0 {
		return false
	}
	body := b[4 : len(b)-1]
	for len(body) > 0 {
		t := body[0]
		k := bytes.IndexByte(body[1:], 0)
		if k < 0 {
			return false
		}
		body = body[1+k+1:]
		n := valueLen(t, body)
		if n < 0 || n > len(body) {
			return false
		}
		body = body[n:]
	}
	return true
}

func strLen(p []byte) int {
	if len(p) < 4 {
		return -1
	}
	l := le32(p)
	if l < 1 || l > len(p)-4 || p[4+l-1] != 0 {
		return -1
	}
	return 4 + l
}

func valueLen(t byte, p []byte) int {
	switch t {
	case 0x06, 0x0A, 0xFF, 0x7F:
		return 0
	case 0x01, 0x09, 0x11, 0x12:
		return 8
	case 0x10:
		return 4
	case 0x13:
		return 16
	case 0x07:
		return 12
	case 0x08:
		if len(p) < 1 || p[0] > 1 {
			return -1
		}
		return 1
	case 0x02, 0x0D, 0x0E:
		return strLen(p)
	case 0x0C:
		n := strLen(p)
		if n < 0 {
			return -1
		}
		return n + 12
	case 0x03, 0x04:
		if len(p) < 5 {
			return -1
		}
		l := le32(p)
		if l < 5 || l > len(p) || !wellFormed(p[:l]) {
			return -1
		}
		return l
	case 0x05:
		if len(p) < 5 {
			return -1
		}
		l := le32(p)
		if l < 0 || l > len(p)-5 {
			return -1
		}
		st := p[4]
		if st == 2 && (l < 4 || le32(p[5:]) != l-4) {
			return -1
		}
		if st > 5 && st < 0x80 {
			return -1
		}
		return 5 + l
	case 0x0B:
		a := bytes.IndexByte(p, 0)
		if a < 0 {
			return -1
		}
		o := bytes.IndexByte(p[a+1:], 0)
		if o < 0 {
			return -1
		}
		return a + 1 + o + 1
	case 0x0F:
		if len(p) < 14 {
			return -1
		}
		l := le32(p)
		if l < 14 || l > len(p) {
			return -1
		}
		n := strLen(p[4:l])
		if n < 0 || !wellFormed(p[4+n:l]) {
			return -1
		}
		return l
	}
	return -1
}

func judgeRoundTrip(b []byte) {
	orig := string(b)
	wf := wellFormed(b)
	d, err := birch.ReadDocument(b)
	if wf {
		sym.Reach("well-formed")
		sym.Assert("well-formed-accepted", err == nil)
		n, verr := birch.Reader(b).Validate()
		sym.Assert("well-formed-validates", verr == nil && int(n) == len(b))
	}
	if err != nil {
		return
	}
	sym.Reach("accepted")
	// the document is the first le32(b) bytes
	want := orig[:le32([]byte(orig))]
	size, err := d.Validate()
	sym.Assert("accepted-validates", err == nil)
	sym.Assert("size-matches-input", int(size) == len(want))
	out, err := d.MarshalBSON()
	sym.Assert("accepted-encodes", err == nil)
	sym.Assert("bytes-identical", string(out) == want)
	sym.Assert("input-untouched", string(b) == orig)
	var buf bytes.Buffer
	n, err := d.WriteTo(&buf)
	sym.Assert("write-to", err == nil && int(n) == len(want) && buf.String() == want)
	// decoding nested documents lazily must not change what is encoded
	for e := range d.Iterator() {
		v := e.Value()
		switch v.Type() {
		case bsontype.EmbeddedDocument:
			_ = v.MutableDocument()
			sym.Reach("nested")
		case bsontype.CodeWithScope:
			_, _ = v.MutableJavaScriptWithScope()
			sym.Reach("scope")
		}
	}
	out, err = d.MarshalBSON()
	sym.Assert("encodes-after-access", err == nil)
	sym.Assert("bytes-identical-after-access", string(out) == want)
}

// RoundTripRaw: any bytes.
func RoundTripRaw() { judgeRoundTrip(sym.BytesUpTo("b", 5, sym.Param("N", 13))) }

// RoundTripTyped: one element of each type with any payload.
func RoundTripTyped() { judgeRoundTrip(typedBody(sym.Param("N", 8))) }

// RoundTripFixed: fixed-size and text types with a well-formed frame and any contents, followed by a second element.
func RoundTripFixed() {
	t := pickType("t")
	key := sym.StringUpTo("key", 0, 2)
	for i := 0; i < len(key); i++ {
		sym.Assume(key[i] != 0)
	}
	p := framed(t, "v", 3)
	b := docOf(append(elemOf(t, key, p...), elemOf(0x10, "z", sym.Bytes("tail", 4)...)...)...)
	judgeRoundTrip(b)
}

// framed is a well-formed payload for type t whose contents are free.
func framed(t byte, name string, n int) []byte {
	switch t {
	case 0x01, 0x09, 0x11, 0x12:
		return sym.Bytes(name, 8)
	case 0x10:
		return sym.Bytes(name, 4)
	case 0x13:
		return sym.Bytes(name, 16)
	case 0x07:
		return sym.Bytes(name, 12)
	case 0x08:
		if sym.Bool(name) {
			return []byte{1}
		}
		return []byte{0}
	case 0x02, 0x0D, 0x0E:
		s := sym.BytesUpTo(name, 0, n)
		return append(append(put32(len(s)+1), s...), 0)
	case 0x0C:
		s := sym.BytesUpTo(name, 0, n)
		p := append(append(put32(len(s)+1), s...), 0)
		return append(p, sym.Bytes(name+".oid", 12)...)
	case 0x03:
		return docOf(elemOf(0x10, "q", sym.Bytes(name, 4)...)...)
	case 0x04:
		return docOf(append(elemOf(0x10, "0", sym.Bytes(name, 4)...), elemOf(0x0A, "1")...)...)
	case 0x05:
		s := sym.BytesUpTo(name, 0, n)
		st := sym.Uint8(name + ".sub")
		sym.Assume(sym.Or(st <= 5, st >= 0x80))
		if st == 2 {
			p := append(put32(len(s)+4), 2)
			return append(append(p, put32(len(s))...), s...)
		}
		return append(append(put32(len(s)), st), s...)
	case 0x0B:
		a := sym.StringUpTo(name+".pat", 0, n)
		o := sym.StringUpTo(name+".opt", 0, n)
		for _, x := range []byte(a + o) {
			sym.Assume(x != 0)
		}
		return []byte(a + "\x00" + o + "\x00")
	case 0x0F:
		s := sym.BytesUpTo(name, 0, n)
		p := append(append(put32(len(s)+1), s...), 0)
		p = append(p, docOf(elemOf(0x10, "q", sym.Bytes(name+".q", 4)...)...)...)
		return append(put32(len(p)+4), p...)
	}
	return nil
}
