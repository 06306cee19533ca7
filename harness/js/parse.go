package js

import (
	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"verif/harness/sym"
)

func isPlainInt(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '.' || s[i] == 'e' || s[i] == 'E' {
			return false
		}
	}
	return true
}

func intOf(s string) int {
	n, neg := 0, false
	for i := 0; i < len(s); i++ {
		if s[i] == '-' {
			neg = true
			continue
		}
		n = n*10 + int(s[i]-'0')
	}
	if neg {
		return -n
	}
	return n
}

// special says that an object is extended JSON, judged elsewhere.
func special(v *jval) bool { return len(v.keys) > 0 && len(v.keys[0]) > 0 && v.keys[0][0] == '$' }

func sameVal(v *birch.Value, r *jval) {
	switch r.kind {
	case 's':
		s, ok := v.StringValueOK()
		sym.Assert("string", ok && s == r.str)
	case 't', 'f':
		b, ok := v.BooleanOK()
		sym.Assert("boolean", ok && b == (r.kind == 't'))
	case '0':
		sym.Assert("null", v.Type() == bsontype.Null)
	case 'n':
		if isPlainInt(r.str) {
			i, ok := v.IntOK()
			sym.Assert("integer", ok && i == intOf(r.str))
		}
	case 'o':
		if special(r) {
			return
		}
		d, ok := v.MutableDocumentOK()
		sym.Assert("object", ok)
		if ok {
			sameObj(d, r)
		}
	case 'a':
		a, ok := v.MutableArrayOK()
		sym.Assert("array", ok)
		if ok {
			sameArr(a, r)
		}
	}
}

func sameObj(d *birch.Document, r *jval) {
	sym.Assert("object-len", d.Len() == len(r.kids))
	i := 0
	for e := range d.Iterator() {
		if i < len(r.kids) {
			sym.Assert("object-key", e.Key() == r.keys[i])
			sameVal(e.Value(), r.kids[i])
		}
		i++
	}
}

func sameArr(a *birch.Array, r *jval) {
	sym.Assert("array-len", a.Len() == len(r.kids))
	i := 0
	for v := range a.Iterator() {
		if i < len(r.kids) {
			sameVal(v, r.kids[i])
		}
		i++
	}
}

// hasNulKey: keys with NUL cannot be represented; reading may keep or refuse them.
func hasNulKey(r *jval) bool {
	for _, k := range r.keys {
		for i := 0; i < len(k); i++ {
			if k[i] == 0 {
				return true
			}
		}
	}
	for _, k := range r.kids {
		if hasNulKey(k) {
			return true
		}
	}
	return false
}

func hasSpecial(r *jval) bool {
	if special(r) {
		return true
	}
	for _, k := range r.kids {
		if hasSpecial(k) {
			return true
		}
	}
	return false
}

func noFraction(r *jval) bool {
	if r.kind == 'n' && !isPlainInt(r.str) {
		return false
	}
	for _, k := range r.kids {
		if !noFraction(k) {
			return false
		}
	}
	return true
}

func judge(in []byte) {
	ref, valid := parseRef(in)
	if valid && !noFraction(ref) {
		sym.Assume(false) // symbolic decimal fractions are outside the bounds
	}
	var d birch.Document
	err := d.UnmarshalJSON(in)
	if !valid || ref.kind != 'o' {
		sym.Assert("malformed-refused", err != nil)
	} else if !hasSpecial(ref) && !hasNulKey(ref) {
		sym.Assert("accepted", err == nil)
		if err == nil {
			sameObj(&d, ref)
			sym.Reach("object")
		}
	}
	a := birch.NewArray()
	err = a.UnmarshalJSON(in)
	if !valid || ref.kind != 'a' {
		sym.Assert("malformed-array-refused", err != nil)
	} else if !hasSpecial(ref) && !hasNulKey(ref) {
		sym.Assert("array-accepted", err == nil)
		if err == nil {
			sameArr(a, ref)
			sym.Reach("array")
		}
	}
}

// ParseRaw: any bytes are read as the JSON they are, or refused.
func ParseRaw() { judge(sym.BytesUpTo("b", 0, sym.Param("N", 5))) }

// ParseObject: one member with arbitrary text as value.
func ParseObject() {
	b := append([]byte(`{"k":`), sym.BytesUpTo("v", 0, sym.Param("N", 5))...)
	judge(append(b, '}'))
}

// ParseKey: arbitrary text between the quotes of a key.
func ParseKey() {
	b := append([]byte(`{"`), sym.BytesUpTo("k", 0, sym.Param("N", 4))...)
	judge(append(b, `":[1]}`...))
}

// ParseString: arbitrary text between the quotes of a string, with more members behind it.
func ParseString() {
	b := append([]byte(`{"a":"`), sym.BytesUpTo("s", 0, sym.Param("N", 5))...)
	judge(append(b, `","b":[true,"x"]}`...))
}

// ParseEscape: an escape sequence with arbitrary hexadecimal digits, twice.
func ParseEscape() {
	b := []byte(`{"a":["\u`)
	if sym.Choose("two", 2) == 0 {
		b = append(b, sym.Bytes("h", 4)...)
	} else { // around the surrogates
		h := sym.Bytes("h", 2)
		l := sym.Bytes("l", 3)
		b = append(b, 'd', h[0], '3', h[1], '\\', 'u', l[0], l[1], '0', l[2])
	}
	judge(append(b, `"]}`...))
}

// ParseNested: arbitrary text inside nested arrays and objects.
func ParseNested() {
	b := append([]byte(`[{"a":[`), sym.BytesUpTo("v", 0, sym.Param("N", 4))...)
	judge(append(b, `],"b":{}},2]`...))
}
