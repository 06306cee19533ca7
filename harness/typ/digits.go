package typ

import (
	"math/bits"
	"strings"

	"github.com/tychoish/birch/types"
	"verif/harness/sym"
)

// numbers around the carries of every word, and at the edges of the coefficient
var edges = []string{"0000", "1000", "4294967200", "4294967300", "18446744073709551600", "18446744073709551700", "79228162514264337593543950300", "79228162514264337593543950400",
	"158456325028528675187087900600", "237684487542793012780631851000", "5192296858534827628530496329200", "340282366920938463463374607431700", "9999999999999999999999999999999900", "1000000000000000000000000000000000",
	"999999900", "1000000000", "99999999999999900", "999999999999999900", "1000000000000000000", "999999999999999999999999900", "1000000000000000000000000000",
	"5192296858534827628530496329220000", "5192296858534827628530496329220100", "79228162514264337593543950336000000000", "2", "12", "123456789", "8000000000000000000000000000000000"}

// value is the number of digits, 128 bits wide.
func value(digits []byte) (h, l uint64) {
	n := len(digits)
	tail, scale := uint64(0), uint64(1)
	for k := 1; k < 10 && n > 0; k++ { // the end is one number, which is added at once
		n--
		tail += uint64(digits[n]-'0') * scale
		scale *= 10
	}
	for _, c := range digits[:n] {
		h, l = muladd(h, l, 10, uint64(c-'0'))
	}
	return muladd(h, l, scale, tail)
}

func muladd(h, l, m, a uint64) (uint64, uint64) {
	hi, lo := bits.Mul64(l, m)
	lo, carry := bits.Add64(lo, a, 0)
	return h*m + hi + carry, lo
}

// numeral is one of the edges with its last two digits replaced by any.
func numeral() []byte {
	e := edges[sym.Choose("edge", len(edges))]
	if len(e) > 34 {
		e = e[:34]
	}
	b := []byte(e)
	if len(b) < 3 {
		return b
	}
	last := sym.Uint8("last")
	sym.Assume(sym.And(last >= '0', last <= '9'))
	b[len(b)-1] = last
	b[len(b)-2] = "0369124578"[sym.Choose("last but one", sym.Param("TENS", 4))]
	return b
}

// DecimalDigits: every digit counts, wherever the point is, whatever the exponent, and however many zeros follow.
func DecimalDigits() {
	d := numeral()
	h, l := value(d)
	text, e := string(d), 0
	switch sym.Choose("form", 6) {
	case 0:
	case 1: // a point somewhere
		at := []int{0, 1, len(d) / 2, len(d) - 1}[sym.Choose("at", 4)]
		if at == 0 {
			text = "0"
		} else {
			text = string(d[:at])
		}
		text += "." + string(d[at:])
		e = at - len(d)
	case 2: // an exponent
		x := sym.Choose("x", 7)
		text += []string{"E+1", "e5", "E-7", "E+0100", "e-6000", "E6000", "E+06077"}[x]
		e = []int{1, 5, -7, 100, -6000, 6000, 6077}[x]
	case 3: // leading zeros
		text = strings.Repeat("0", []int{1, 9, 40}[sym.Choose("zeros", 3)]) + text
	case 4: // more zeros than there is space for
		n := []int{34, 35, 36, 60}[sym.Choose("total", 4)]
		if strings.Trim(text, "0") == "" || n <= len(d) || text[0] == '0' {
			return
		}
		for len(text) < n {
			text += "0"
		}
		keep := 34
		e = n - keep
		h, l = value([]byte(text[:keep]))
	case 5: // the same after a point
		n := []int{34, 35, 36, 44}[sym.Choose("total", 4)]
		if strings.Trim(text, "0") == "" || n <= len(d) || text[0] == '0' {
			return
		}
		all := text
		for len(all) < n {
			all += "0"
		}
		text = all[:1] + "." + all[1:]
		e = 1 - 34
		h, l = value([]byte(all[:34]))
	}
	neg := sym.Bool("neg")
	if neg {
		text = "-" + text
		h |= 1 << 63
	}
	x, err := types.ParseDecimal128(text)
	sym.Assert("accepted", err == nil)
	gh, gl := x.GetBytes()
	sym.Assert("value", sym.And(gh == h|uint64(e+6176)<<49, gl == l))
	sym.Reach("done")
}

// DecimalPrint: the text is the canonical one.
func DecimalPrint() {
	e := edges[sym.Choose("edge", len(edges))]
	if len(e) > 34 {
		e = e[:34]
	}
	d := []byte(e)
	if len(d) > 2 {
		d[len(d)-1] = '0' + byte(sym.Choose("last", sym.Param("VARY", 4))*3)
		d[len(d)-2] = '0' + byte(sym.Choose("last2", 2)*9)
	}
	h, l := value(d)
	x := []int{0, -1, -2, -6, -7, -8, -20, -33, -34, -35, -40, -41, -6000, 1, 2, 6000}[sym.Choose("e", 16)]
	text := strings.TrimLeft(string(d), "0")
	if text == "" {
		text = "0"
	}
	adj := x + len(text) - 1
	want := text
	if x > 0 || adj < -6 {
		if len(text) > 1 {
			want = text[:1] + "." + text[1:]
		}
		want += "E"
		if adj >= 0 {
			want += "+"
		}
		want += itoa(adj)
	} else if x < 0 {
		for len(text) <= -x {
			text = "0" + text
		}
		want = text[:len(text)+x] + "." + text[len(text)+x:]
	}
	h |= uint64(x+6176) << 49
	if sym.Bool("neg") {
		h |= 1 << 63
		want = "-" + want
	}
	got := types.NewDecimal128(h, l).String()
	if got != want {
		sym.Debug(got + " " + want)
	}
	sym.Assert("canonical", got == want)
	sym.Reach("done")
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}
