// Package js holds the harnesses for JSON input and output.
package js

import (
	"verif/harness/sym"
)

// A reference JSON parser (RFC 8259), written for clarity. Numbers are kept as text.
type jval struct {
	kind byte // 's' 'n' 't' 'f' '0' (null) 'o' 'a'
	str  string
	keys []string
	kids []*jval
}

type parser struct {
	b   []byte
	i   int
	bad bool
}

func parseRef(b []byte) (*jval, bool) {
	p := &parser{b: b}
	p.ws()
	v := p.value()
	p.ws()
	if p.bad || p.i != len(b) {
		return nil, false
	}
	return v, true
}

func (p *parser) fail() *jval { p.bad = true; return nil }

func (p *parser) peek() int {
	if p.i < len(p.b) {
		return int(p.b[p.i])
	}
	return -1
}

func (p *parser) ws() {
	for p.i < len(p.b) && sym.Or(p.b[p.i] == ' ', p.b[p.i] == '\t', p.b[p.i] == '\n', p.b[p.i] == '\r') {
		p.i++
	}
}

func (p *parser) lit(s string, k byte) *jval {
	if len(p.b)-p.i < len(s) || string(p.b[p.i:p.i+len(s)]) != s {
		return p.fail()
	}
	p.i += len(s)
	return &jval{kind: k}
}

func (p *parser) value() *jval {
	if p.bad {
		return nil
	}
	switch c := p.peek(); {
	case c == '{':
		return p.object()
	case c == '[':
		return p.array()
	case c == '"':
		s := p.string()
		return &jval{kind: 's', str: s}
	case c == 't':
		return p.lit("true", 't')
	case c == 'f':
		return p.lit("false", 'f')
	case c == 'n':
		return p.lit("null", '0')
	case c == '-' || (c >= '0' && c <= '9'):
		return p.number()
	}
	return p.fail()
}

func (p *parser) object() *jval {
	v := &jval{kind: 'o'}
	p.i++
	p.ws()
	if p.peek() == '}' {
		p.i++
		return v
	}
	for {
		p.ws()
		if p.peek() != '"' {
			return p.fail()
		}
		k := p.string()
		p.ws()
		if p.bad || p.peek() != ':' {
			return p.fail()
		}
		p.i++
		p.ws()
		kid := p.value()
		if p.bad {
			return nil
		}
		v.keys = append(v.keys, k)
		v.kids = append(v.kids, kid)
		p.ws()
		switch p.peek() {
		case ',':
			p.i++
		case '}':
			p.i++
			return v
		default:
			return p.fail()
		}
	}
}

func (p *parser) array() *jval {
	v := &jval{kind: 'a'}
	p.i++
	p.ws()
	if p.peek() == ']' {
		p.i++
		return v
	}
	for {
		p.ws()
		kid := p.value()
		if p.bad {
			return nil
		}
		v.kids = append(v.kids, kid)
		p.ws()
		switch p.peek() {
		case ',':
			p.i++
		case ']':
			p.i++
			return v
		default:
			return p.fail()
		}
	}
}

func (p *parser) string() string {
	p.i++
	var out []byte
	for {
		if p.i >= len(p.b) {
			p.bad = true
			return ""
		}
		c := p.b[p.i]
		p.i++
		switch {
		case c == '"':
			return string(out)
		case c < 0x20:
			p.bad = true
			return ""
		case c == '\\':
			if p.i >= len(p.b) {
				p.bad = true
				return ""
			}
			e := p.b[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, 8)
			case 'f':
				out = append(out, 12)
			case 'n':
				out = append(out, 10)
			case 'r':
				out = append(out, 13)
			case 't':
				out = append(out, 9)
			case 'u':
				r, ok := p.hex4()
				if !ok {
					p.bad = true
					return ""
				}
				if r >= 0xD800 && r < 0xDC00 && p.i+1 < len(p.b) && p.b[p.i] == '\\' && p.b[p.i+1] == 'u' {
					save := p.i
					p.i += 2
					r2, ok := p.hex4()
					if ok && r2 >= 0xDC00 && r2 < 0xE000 {
						r = 0x10000 + (r-0xD800)<<10 + (r2 - 0xDC00)
					} else {
						p.i = save
					}
				}
				out = appendRune(out, r)
			default:
				p.bad = true
				return ""
			}
		default:
			out = append(out, c)
		}
	}
}

func (p *parser) hex4() (int, bool) {
	if len(p.b)-p.i < 4 {
		return 0, false
	}
	r := 0
	for j := 0; j < 4; j++ {
		c := p.b[p.i+j]
		switch {
		case c >= '0' && c <= '9':
			r = r<<4 | int(c-'0')
		case c >= 'a' && c <= 'f':
			r = r<<4 | int(c-'a'+10)
		case c >= 'A' && c <= 'F':
			r = r<<4 | int(c-'A'+10)
		default:
			return 0, false
		}
	}
	p.i += 4
	return r, true
}

func appendRune(b []byte, r int) []byte {
	switch {
	case r < 0x80:
		return append(b, byte(r))
	case r < 0x800:
		return append(b, byte(0xC0|r>>6), byte(0x80|r&0x3F))
	case r >= 0xD800 && r < 0xE000:
		return append(b, 0xEF, 0xBF, 0xBD)
	case r < 0x10000:
		return append(b, byte(0xE0|r>>12), byte(0x80|r>>6&0x3F), byte(0x80|r&0x3F))
	}
	return append(b, byte(0xF0|r>>18), byte(0x80|r>>12&0x3F), byte(0x80|r>>6&0x3F), byte(0x80|r&0x3F))
}

func digit(c int) bool { return sym.And(c >= '0', c <= '9') }

func (p *parser) number() *jval {
	s := p.i
	if p.peek() == '-' {
		p.i++
	}
	switch c := p.peek(); {
	case c == '0':
		p.i++
	case digit(c):
		for digit(p.peek()) {
			p.i++
		}
	default:
		return p.fail()
	}
	if p.peek() == '.' {
		p.i++
		if !digit(p.peek()) {
			return p.fail()
		}
		for digit(p.peek()) {
			p.i++
		}
	}
	if c := p.peek(); c == 'e' || c == 'E' {
		p.i++
		if c := p.peek(); c == '+' || c == '-' {
			p.i++
		}
		if !digit(p.peek()) {
			return p.fail()
		}
		for digit(p.peek()) {
			p.i++
		}
	}
	return &jval{kind: 'n', str: string(p.b[s:p.i])}
}
