// Package typ holds the harnesses for the decimal and object id types.
package typ

import (
	"sync"

	"github.com/tychoish/birch/types"
	"verif/harness/sym"
)

// coefficient is a 113-bit integer: a small symbolic one or one of several large ones.
func coefficient(name string, digits int) (h, l uint64) {
	big := [][2]uint64{{0, 0}, {0, 1}, {0, 10}, {0, 1000000000}, {0, ^uint64(0)}, {1, 0}, {0x1ed09bead87c0, 0x378d8e63ffffffff}, {0x314dc6448d93, 0x38c15b0a00000000}, {0x1ffffffffffff, ^uint64(0)}}
	big = append(big, [2]uint64{0, 1e9 - 50}, [2]uint64{0, 1e18 - 50}, [2]uint64{0x4b3b4ca85a86, 0xc47a098a223fff00}, [2]uint64{0x1ed09bead87c0, 0x378d8e63ffffff00}, [2]uint64{5, 0x8000000000000000})
	lim := uint64(1)
	for i := 0; i < digits; i++ {
		lim *= 10
	}
	k := sym.Choose(name+".big", len(big)+1)
	if k > 0 {
		return big[k-1][0], big[k-1][1]
	}
	l = sym.Uint64(name)
	sym.Assume(l < lim)
	return 0, l
}

// DecimalText: the text of every finite decimal reads back as the same decimal.
func DecimalText() {
	h, l := coefficient("c", sym.Param("DIGITS", 2))
	var e int
	switch k := sym.Choose("exp", 3); k {
	case 0: // near the plain notation
		e = sym.Choose("e", 20) - 14
	case 1:
		e = []int{-6176, -6175, -6143, -1000, -100, -35, 34, 100, 999, 6110, 6111}[sym.Choose("e", 11)]
	case 2:
		e = sym.Choose("e", 8)*7 - 30
	}
	h |= uint64(e+6176) << 49
	if sym.Choose("neg", 2) == 1 {
		h |= 1 << 63
	}
	d := types.NewDecimal128(h, l)
	s := d.String()
	if hc := h & (1<<49 - 1); hc > 0x1ed09bead87c0 || (hc == 0x1ed09bead87c0 && l > 0x378d8e63ffffffff) {
		sym.Reach("non-canonical")
		return // more than 34 digits: printed, but not a decimal128 number
	}
	back, err := types.ParseDecimal128(s)
	sym.Assert("reads-back", err == nil)
	bh, bl := back.GetBytes()
	sym.Assert("same", sym.And(bh == h, bl == l))
	sym.Reach("done")
}

// DecimalWide: coefficients around carries between the words of the arithmetic.
func DecimalWide() {
	base := [][2]uint64{{0, 1e9 - 50}, {0, 1e18 - 50}, {0x4b3b4ca85a86, 0xc47a098a223fff00}, {0x1ed09bead87c0, 0x378d8e63ffffff00}, {5, 0x8000000000000000}, {0, 1<<32 - 8}, {7, 0xfffffff0}}
	b := base[sym.Choose("c.base", len(base))]
	d := sym.Uint64("c")
	sym.Assume(d < uint64(sym.Param("VARY", 16)))
	h, l := b[0], b[1]+d
	e := []int{0, -3, -40}[sym.Choose("e", 3)]
	h |= uint64(e+6176) << 49
	s := types.NewDecimal128(h, l).String()
	back, err := types.ParseDecimal128(s)
	sym.Assert("reads-back", err == nil)
	bh, bl := back.GetBytes()
	sym.Assert("same", sym.And(bh == h, bl == l))
	sym.Reach("done")
}

// DecimalSpecial: every bit pattern prints; infinities and NaN read back.
func DecimalSpecial() {
	h, l := sym.Uint64("h"), sym.Uint64("l")
	top := h >> 58 & 31
	sym.Assume(sym.Or(top >= 0x1E, h>>61&3 == 3))
	d := types.NewDecimal128(h, l)
	if top >= 0x1E {
		s := d.String()
		back, err := types.ParseDecimal128(s)
		sym.Assert("special-reads-back", err == nil && back.String() == s)
		sym.Assert("special-name", s == "NaN" || s == "Infinity" || s == "-Infinity")
		if top == 0x1E {
			sym.Assert("sign", (s[0] == '-') == (h>>63 == 1))
		} else {
			sym.Assert("nan", s == "NaN")
		}
		sym.Reach("special")
		return
	}
	// out-of-range significands print as zero
	e := h >> 47 & (1<<14 - 1)
	near := []uint64{0, 1, 6170, 6176, 6177, 6200, 12287, 16383}[sym.Choose("e", 8)]
	sym.Assume(e == near)
	s := d.String()
	for i := 0; i < len(s); i++ {
		if s[i] == 'E' {
			break
		}
		sym.Assert("zero", s[i] == '0' || s[i] == '-' || s[i] == '.')
	}
	sym.Reach("zero")
}

// DecimalParse: any short text is a decimal exactly when it follows the grammar, with the value it denotes.
func DecimalParse() {
	s := sym.StringUpTo("s", 0, sym.Param("N", 4))
	d, err := types.ParseDecimal128(s)
	neg, c, e, ok := refParse(s)
	if !ok {
		if err == nil {
			x := d.String()
			sym.Assert("accepted-only-special", x == "NaN" || x == "Infinity" || x == "-Infinity")
			sym.Assert("special-length", len(s) >= 3)
		}
		return
	}
	if e < -6176 || e > 6111 {
		return // DecimalRange
	}
	sym.Assert("accepted", err == nil)
	h, l := d.GetBytes()
	want := uint64(e+6176) << 49
	if neg {
		want |= 1 << 63
	}
	sym.Assert("value", sym.And(h == want, l == c))
	sym.Reach("number")
}

// DecimalParseTail: digits around symbolic text.
func DecimalParseTail() {
	s := []string{"1", "12.5", "-0.", "999999999", "1E", "1e-"}[sym.Choose("head", 6)] + sym.StringUpTo("s", 0, sym.Param("N", 3))
	d, err := types.ParseDecimal128(s)
	neg, c, e, ok := refParse(s)
	if !ok {
		sym.Assert("refused", err != nil)
		return
	}
	if e < -6176 || e > 6111 {
		return // DecimalRange
	}
	sym.Assert("accepted", err == nil)
	h, l := d.GetBytes()
	want := uint64(e+6176) << 49
	if neg {
		want |= 1 << 63
	}
	sym.Assert("value", sym.And(h == want, l == c))
	sym.Reach("number")
}

// refParse reads [+-]digits[.digits][E[+-]digits]; a digit is needed somewhere before the exponent.
func refParse(s string) (neg bool, c uint64, e int, ok bool) {
	i := 0
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		neg = s[i] == '-'
		i++
	}
	n := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		c = c*10 + uint64(s[i]-'0')
		i++
		n++
	}
	if i < len(s) && s[i] == '.' {
		i++
		frac := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			c = c*10 + uint64(s[i]-'0')
			e--
			i++
			frac++
		}
		n += frac
		if frac == 0 && i < len(s) {
			return false, 0, 0, false
		}
	}
	if n == 0 {
		return false, 0, 0, false
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		x, xneg, xn := 0, false, 0
		if i < len(s) && (s[i] == '-' || s[i] == '+') {
			xneg = s[i] == '-'
			i++
		}
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			x = x*10 + int(s[i]-'0')
			i++
			xn++
		}
		if xn == 0 {
			return false, 0, 0, false
		}
		if xneg {
			x = -x
		}
		e += x
	}
	return neg, c, e, i == len(s)
}

// DecimalRange: numbers outside the range of the format are refused, however they are spelled.
func DecimalRange() {
	zeros := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = '0'
		}
		return string(b)
	}
	d := sym.String("d", 1)
	sym.Assume(sym.And(d[0] >= '1', d[0] <= '9'))
	switch sym.Choose("form", 6) {
	case 0:
		_, err := types.ParseDecimal128(d + "E+6145")
		sym.Assert("large-exponent", err != nil)
	case 1:
		_, err := types.ParseDecimal128(d + "E-6177")
		sym.Assert("small-exponent", err != nil)
	case 2:
		_, err := types.ParseDecimal128(d + zeros(6145))
		sym.Assert("many-digits", err != nil)
	case 3:
		_, err := types.ParseDecimal128("0." + zeros(6176) + d)
		sym.Assert("many-decimals", err != nil)
	case 4:
		x, err := types.ParseDecimal128(d + zeros(6144))
		h, l := x.GetBytes()
		y, err2 := types.ParseDecimal128(d + "E+6144")
		h2, l2 := y.GetBytes()
		sym.Assert("largest", err == nil && err2 == nil && sym.And(h == h2, l == l2))
	case 5:
		_, err := types.ParseDecimal128("1234567890123456789012345678901234" + d)
		sym.Assert("35-digits", err != nil)
		_, err = types.ParseDecimal128(d + "E" + zeros(2) + "99999")
		sym.Assert("exponent-digits", err != nil)
	}
	sym.Reach("done")
}

// HexRoundTrip: an object id prints as 24 hexadecimal digits that read back as the same id.
func HexRoundTrip() {
	var id types.ObjectID
	copy(id[:], sym.Bytes("id", 12))
	s := id.Hex()
	sym.Assert("length", len(s) == 24)
	for i := 0; i < len(s); i++ {
		c := s[i]
		sym.Assert("lower-hex", sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'a', c <= 'f')))
		n := id[i/2] >> 4
		if i%2 == 1 {
			n = id[i/2] & 15
		}
		sym.Assert("digit", sym.Or(sym.And(n < 10, c == '0'+n), sym.And(n >= 10, c == 'a'+n-10)))
	}
	zero := true
	for _, b := range id {
		zero = sym.And(zero, b == 0)
	}
	sym.Assert("zero", id.IsZero() == zero)
}

// HexParse: exactly the 24-digit hexadecimal strings are object ids.
func HexParse() {
	n := 24
	if sym.Choose("len", 2) == 1 {
		n = []int{0, 1, 2, 12, 22, 23, 25, 26, 48}[sym.Choose("n", 9)]
	}
	b := []byte("0123456789abcdefABCDEF9900112233445566778899aabbccddeeff")[:n]
	for k := 0; k < 2 && n > 0; k++ {
		b[sym.Choose("at", n)] = sym.Uint8("c")
	}
	valid := n == 24
	for _, c := range b {
		if !sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'a', c <= 'f'), sym.And(c >= 'A', c <= 'F')) {
			valid = false
			break
		}
	}
	id, err := types.ObjectIDFromHex(string(b))
	sym.Assert("accepted-iff-valid", (err == nil) == valid)
	if err != nil {
		sym.Assert("nil-on-error", id.IsZero())
		return
	}
	for i, c := range []byte(id.Hex()) {
		d := b[i]
		sym.Assert("same-digits", sym.Or(c == d, sym.And(d >= 'A', d <= 'F', c == d+32)))
	}
	sym.Reach("valid")
}

// UniqueIDs: ids made in one process are distinct, whatever the interleaving of their makers.
func UniqueIDs() {
	sym.Schedules(sym.Param("PREEMPT", 2))
	sym.DetectRaces()
	n := sym.Param("N", 2)
	if !sym.Symbolic() {
		n = 100000 // replay: make the interleaving likely
	}
	ids := make([][]types.ObjectID, 2)
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				ids[g] = append(ids[g], types.NewObjectID())
			}
		}()
	}
	wg.Wait()
	all := append(ids[0], ids[1]...)
	if !sym.Symbolic() {
		seen := map[types.ObjectID]bool{}
		for _, id := range all {
			seen[id] = true
		}
		sym.Assert("distinct", len(seen) == len(all))
		all = nil
	}
	for i := range all {
		for j := 0; j < i; j++ {
			sym.Assert("distinct", all[i] != all[j])
		}
		sym.Assert("not-nil", !all[i].IsZero())
	}
	sym.Reach("done")
}

// IDRun: ids stay distinct over long runs, across every carry of the counter.
func IDRun() {
	if sym.Symbolic() {
		sym.SetClock(1700000000*1e9 + 5)
	}
	steps := []int{1, 2, 127, 128, 255, 256, 257, 512}
	n := steps[sym.Choose("n", sym.Param("STEPS", len(steps)))]
	tries := 1 // the counter starts at an arbitrary (symbolic) number
	if !sym.Symbolic() {
		tries = 1<<24/n + 1 // replay: wherever it starts, pass every carry
	}
	var first, last types.ObjectID
	for k := 0; k < tries; k++ {
		first = types.NewObjectID()
		prev := first
		for i := 0; i < n; i++ {
			last = types.NewObjectID()
			counts := (counter(prev)+1)&0xffffff == counter(last)
			if sym.Symbolic() {
				if i < 2 {
					sym.Assert("counts", counts)
				}
			} else if !counts {
				sym.Assert("counts", false)
			}
			prev = last
		}
		if !sym.Symbolic() && first != last {
			continue
		}
		sym.Assert("distinct", first != last)
		sym.Assert("distinct-hex", first.Hex() != last.Hex())
	}
	back, err := types.ObjectIDFromHex(last.Hex())
	sym.Assert("reads-back", err == nil && back == last)
	sym.Reach("done")
}

func counter(id types.ObjectID) uint32 {
	return uint32(id[9])<<16 | uint32(id[10])<<8 | uint32(id[11])
}

// IDTime: an id starts with its creation time in seconds, so ids sort by time.
func IDTime() {
	ns := sym.Int64("ns")
	sym.Assume(sym.And(ns >= 0, ns < 1<<40))
	sec := []int64{0, 1, 1700000000, 4294967295}[sym.Choose("sec", 4)]
	if sym.Symbolic() {
		sym.SetClock(sec*1e9 + 5)
		id := types.NewObjectID()
		got := uint32(id[0])<<24 | uint32(id[1])<<16 | uint32(id[2])<<8 | uint32(id[3])
		sym.Assert("seconds", got == uint32(sec))
	}
	a, b := types.NewObjectID(), types.NewObjectID()
	for i := 4; i < 9; i++ {
		sym.Assert("process-part", a[i] == b[i])
	}
	sym.Reach("done")
}
