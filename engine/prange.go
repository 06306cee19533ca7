package main

import (
	"math"
	"math/bits"
)

// Path-sensitive interval reasoning. It answers decisions that follow from the path's own
// simple constraints (known bytes, bounded lengths) without a solver query. It is sound: a term's
// interval contains every value the path condition allows.

type rng struct {
	ul, uh uint64
	sl, sh int64
}

func smin(w uint8) int64 { return -int64(uint64(1)<<(w-1)-1) - 1 }
func smax(w uint8) int64 { return int64(uint64(1)<<(w-1) - 1) }

// tidy makes the two views agree.
func tidy(r rng, w uint8) rng {
	top := uint64(1) << (w - 1)
	for i := 0; i < 2; i++ {
		if r.uh < top {
			r.sl = max(r.sl, int64(r.ul))
			r.sh = min(r.sh, int64(r.uh))
		} else if r.ul >= top {
			r.sl = max(r.sl, sext64(r.ul, w))
			r.sh = min(r.sh, sext64(r.uh, w))
		}
		if r.sl >= 0 {
			r.ul = max(r.ul, uint64(r.sl))
			r.uh = min(r.uh, uint64(r.sh))
		} else if r.sh < 0 {
			r.ul = max(r.ul, uint64(r.sl)&mask(w))
			r.uh = min(r.uh, uint64(r.sh)&mask(w))
		}
	}
	return r
}

func constRng(c uint64, w uint8) rng { return rng{c, c, sext64(c, w), sext64(c, w)} }

func (r rng) empty() bool { return r.ul > r.uh || r.sl > r.sh }

type pmemo struct {
	epoch uint32
	r     rng
	b     int8
}

func (w *World) prange(t *Term) rng {
	if t.op == OConst {
		return constRng(t.c, t.w)
	}
	p := w.P
	if m, ok := p.pmemo[t]; ok && m.epoch == p.pepoch {
		return m.r
	}
	r := rng{t.ulo, t.uhi, t.slo, t.shi}
	if t.size < 4000 {
		r = meet(r, w.prange0(t))
	}
	if k, ok := p.known[t]; ok {
		r = meet(r, k)
	}
	r = tidy(r, t.w)
	p.pmemo[t] = pmemo{epoch: p.pepoch, r: r}
	return r
}

func meet(a, b rng) rng {
	return rng{max(a.ul, b.ul), min(a.uh, b.uh), max(a.sl, b.sl), min(a.sh, b.sh)}
}

func full(w uint8) rng { return rng{0, mask(w), smin(w), smax(w)} }

func (w *World) prange0(t *Term) rng {
	r := full(t.w)
	switch t.op {
	case OZext:
		a := w.prange(t.a)
		r.ul, r.uh = a.ul, a.uh
	case OSext:
		a := w.prange(t.a)
		r.sl, r.sh = a.sl, a.sh
	case OConcat:
		a, b := w.prange(t.a), w.prange(t.b)
		r.ul, r.uh = a.ul<<t.b.w+b.ul, a.uh<<t.b.w+b.uh
	case OExtract:
		a := w.prange(t.a)
		if a.uh>>t.hi>>1 == a.ul>>t.hi>>1 && t.lo == 0 {
			m := mask(t.hi + 1)
			r.ul, r.uh = a.ul&m, a.uh&m
		} else if t.hi+1 == t.a.w {
			r.ul, r.uh = a.ul>>t.lo, a.uh>>t.lo
		}
	case OIte:
		switch w.pbool(t.a) {
		case 1:
			return w.prange(t.b)
		case 0:
			return w.prange(t.d)
		}
		b, d := w.prange(t.b), w.prange(t.d)
		return rng{min(b.ul, d.ul), max(b.uh, d.uh), min(b.sl, d.sl), max(b.sh, d.sh)}
	case OAdd:
		a, b := w.prange(t.a), w.prange(t.b)
		if s, c := bits.Add64(a.uh, b.uh, 0); c == 0 && s <= mask(t.w) {
			r.ul, r.uh = a.ul+b.ul, s
		}
		if lo, ok := addS(a.sl, b.sl); ok {
			if hi, ok := addS(a.sh, b.sh); ok && lo >= smin(t.w) && hi <= smax(t.w) {
				r.sl, r.sh = lo, hi
			}
		}
	case OSub:
		a, b := w.prange(t.a), w.prange(t.b)
		if a.ul >= b.uh {
			r.ul, r.uh = a.ul-b.uh, a.uh-b.ul
		}
		if b.sl != math.MinInt64 && b.sh != math.MinInt64 {
			if lo, ok := addS(a.sl, -b.sh); ok {
				if hi, ok := addS(a.sh, -b.sl); ok && lo >= smin(t.w) && hi <= smax(t.w) {
					r.sl, r.sh = lo, hi
				}
			}
		}
	case OMul:
		a, b := w.prange(t.a), w.prange(t.b)
		if hh, ll := bits.Mul64(a.uh, b.uh); hh == 0 && ll <= mask(t.w) {
			r.ul, r.uh = a.ul*b.ul, ll
		}
		if t.b.isConst() && t.w == 64 {
			k := t.b.sc()
			lo, ok1 := mulS(a.sl, k)
			hi, ok2 := mulS(a.sh, k)
			if ok1 && ok2 {
				r.sl, r.sh = min(lo, hi), max(lo, hi)
			}
		}
	case OSrem:
		if a := w.prange(t.a); t.b.isConst() && t.b.sc() > 0 {
			k := t.b.sc()
			r.sl, r.sh = -(k - 1), k-1
			if a.sl >= 0 {
				r.sl = 0
			}
			if a.sh <= 0 {
				r.sh = 0
			}
			if a.sl > -k && a.sh < k {
				r.sl, r.sh = a.sl, a.sh
			}
		}
	case OSdiv:
		if a := w.prange(t.a); t.b.isConst() && t.b.sc() > 0 {
			r.sl, r.sh = a.sl/t.b.sc(), a.sh/t.b.sc()
		}
	case OUdiv:
		a, b := w.prange(t.a), w.prange(t.b)
		if b.ul > 0 {
			r.ul, r.uh = a.ul/b.uh, a.uh/b.ul
		}
	case OUrem:
		a, b := w.prange(t.a), w.prange(t.b)
		if b.ul > 0 {
			r.uh = min(a.uh, b.uh-1)
			if a.uh < b.ul {
				r.ul, r.uh = a.ul, a.uh
			}
		}
	case OBAnd:
		a, b := w.prange(t.a), w.prange(t.b)
		if a.ul == a.uh && b.ul == b.uh {
			r.ul, r.uh = a.ul&b.ul, a.ul&b.ul
		} else {
			r.uh = min(a.uh, b.uh)
		}
	case OBOr:
		a, b := w.prange(t.a), w.prange(t.b)
		if a.ul == a.uh && b.ul == b.uh {
			r.ul, r.uh = a.ul|b.ul, a.ul|b.ul
		} else {
			r.ul = max(a.ul, b.ul)
			r.uh = mask(uint8(bits.Len64(a.uh | b.uh)))
		}
	case OBXor:
		a, b := w.prange(t.a), w.prange(t.b)
		if a.ul == a.uh && b.ul == b.uh {
			r.ul, r.uh = a.ul^b.ul, a.ul^b.ul
		} else {
			r.uh = mask(uint8(bits.Len64(a.uh | b.uh)))
		}
	case OLshr:
		a, b := w.prange(t.a), w.prange(t.b)
		if b.ul == b.uh && b.ul < 64 {
			r.ul, r.uh = a.ul>>b.ul, a.uh>>b.ul
		} else {
			r.uh = a.uh
		}
	case OShl:
		a, b := w.prange(t.a), w.prange(t.b)
		if b.ul == b.uh && b.ul < 64 && a.uh <= mask(t.w)>>b.ul {
			r.ul, r.uh = a.ul<<b.ul, a.uh<<b.ul
		}
	}
	if r.uh > mask(t.w) {
		r.uh = mask(t.w)
	}
	return r
}

func addS(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, false
	}
	return s, true
}

// pbool is 1, 0 or -1 (not settled).
func (w *World) pbool(c *Term) int8 {
	if c.op == OConst {
		return int8(c.c)
	}
	p := w.P
	if v, ok := p.facts[c]; ok {
		return v
	}
	if m, ok := p.pmemo[c]; ok && m.epoch == p.pepoch {
		return m.b
	}
	b := w.pbool0(c)
	p.pmemo[c] = pmemo{epoch: p.pepoch, b: b}
	return b
}

func (w *World) pbool0(c *Term) int8 {
	if c.size > 4000 {
		return -1
	}
	switch c.op {
	case ONot:
		if v := w.pbool(c.a); v >= 0 {
			return 1 - v
		}
	case OAnd:
		x, y := w.pbool(c.a), w.pbool(c.b)
		if x == 0 || y == 0 {
			return 0
		}
		if x == 1 && y == 1 {
			return 1
		}
	case OOr:
		x, y := w.pbool(c.a), w.pbool(c.b)
		if x == 1 || y == 1 {
			return 1
		}
		if x == 0 && y == 0 {
			return 0
		}
	case OEq:
		if c.a.w == 0 {
			x, y := w.pbool(c.a), w.pbool(c.b)
			if x >= 0 && y >= 0 {
				if x == y {
					return 1
				}
				return 0
			}
			return -1
		}
		x, y := w.prange(c.a), w.prange(c.b)
		if x.empty() || y.empty() {
			return -1
		}
		if x.uh < y.ul || y.uh < x.ul || x.sh < y.sl || y.sh < x.sl {
			return 0
		}
		if x.ul == x.uh && y.ul == y.uh && x.ul == y.ul {
			return 1
		}
	case OUlt, OUle:
		x, y := w.prange(c.a), w.prange(c.b)
		if x.empty() || y.empty() {
			return -1
		}
		if c.op == OUlt {
			if x.uh < y.ul {
				return 1
			}
			if x.ul >= y.uh {
				return 0
			}
		} else {
			if x.uh <= y.ul {
				return 1
			}
			if x.ul > y.uh {
				return 0
			}
		}
	case OSlt, OSle:
		x, y := w.prange(c.a), w.prange(c.b)
		if x.empty() || y.empty() {
			return -1
		}
		if c.op == OSlt {
			if x.sh < y.sl {
				return 1
			}
			if x.sl >= y.sh {
				return 0
			}
		} else {
			if x.sh <= y.sl {
				return 1
			}
			if x.sl > y.sh {
				return 0
			}
		}
	case OIte:
		switch w.pbool(c.a) {
		case 1:
			return w.pbool(c.b)
		case 0:
			return w.pbool(c.d)
		}
	}
	return -1
}

// learn records what a new path constraint says about intervals.
func (w *World) learn(c *Term, val bool) {
	p := w.P
	if c.op == ONot {
		w.learn(c.a, !val)
		return
	}
	p.pepoch++
	v := int8(0)
	if val {
		v = 1
	}
	p.facts[c] = v
	switch c.op {
	case OAnd:
		if val {
			w.learn(c.a, true)
			w.learn(c.b, true)
		}
	case OOr:
		if !val {
			w.learn(c.a, false)
			w.learn(c.b, false)
		}
	case OEq:
		if c.a.w == 0 {
			return
		}
		if val {
			x, y := w.prange(c.a), w.prange(c.b)
			w.narrow(c.a, y)
			w.narrow(c.b, x)
		} else {
			w.exclude(c.a, c.b)
			w.exclude(c.b, c.a)
		}
	case OUlt, OUle:
		strict := c.op == OUlt
		a, b := c.a, c.b
		if !val { // !(a<b) = b<=a ; !(a<=b) = b<a
			a, b, strict = b, a, !strict
		}
		x, y := w.prange(a), w.prange(b)
		if strict {
			if y.uh == 0 || x.ul == mask(a.w) {
				return
			}
			ra, rb := full(a.w), full(b.w)
			ra.uh = y.uh - 1
			rb.ul = x.ul + 1
			w.narrow(a, ra)
			w.narrow(b, rb)
		} else {
			ra, rb := full(a.w), full(b.w)
			ra.uh = y.uh
			rb.ul = x.ul
			w.narrow(a, ra)
			w.narrow(b, rb)
		}
	case OSlt, OSle:
		strict := c.op == OSlt
		a, b := c.a, c.b
		if !val {
			a, b, strict = b, a, !strict
		}
		x, y := w.prange(a), w.prange(b)
		ra, rb := full(a.w), full(b.w)
		if strict {
			if y.sh == smin(b.w) || x.sl == smax(a.w) {
				return
			}
			ra.sh = y.sh - 1
			rb.sl = x.sl + 1
		} else {
			ra.sh = y.sh
			rb.sl = x.sl
		}
		w.narrow(a, ra)
		w.narrow(b, rb)
	}
}

// exclude: a != b; only interval ends can be trimmed.
func (w *World) exclude(a, b *Term) {
	if !b.isConst() || a.isConst() {
		return
	}
	r := w.prange(a)
	n := r
	if r.ul == b.c {
		n.ul++
	}
	if r.uh == b.c && n.uh > 0 {
		n.uh--
	}
	if n != r && n.ul <= n.uh {
		w.narrow(a, n)
	}
}

// narrow refines a term and the pieces it is made of.
func (w *World) narrow(t *Term, r rng) {
	if t.op == OConst {
		return
	}
	p := w.P
	old := w.prange(t)
	n := tidy(meet(old, r), t.w)
	if n.empty() || n == old {
		return
	}
	p.known[t] = n
	p.pepoch++
	switch t.op {
	case OConcat:
		// common high part
		lw := t.b.w
		if n.ul>>lw == n.uh>>lw {
			h := n.ul >> lw
			w.narrow(t.a, constRng(h, t.a.w))
			b := full(lw)
			b.ul, b.uh = n.ul&mask(lw), n.uh&mask(lw)
			w.narrow(t.b, b)
		} else {
			a := full(t.a.w)
			a.ul, a.uh = n.ul>>lw, n.uh>>lw
			w.narrow(t.a, a)
		}
	case OZext:
		a := full(t.a.w)
		a.ul, a.uh = n.ul, min(n.uh, mask(t.a.w))
		w.narrow(t.a, a)
	case OSrem:
		// a remainder has the sign of the number
		if t.b.isConst() && t.b.sc() > 0 && (n.sl > 0 || n.sh < 0) {
			a := full(t.a.w)
			if n.sl > 0 {
				a.sl = n.sl
			} else {
				a.sh = n.sh
			}
			w.narrow(t.a, a)
		}
	case OExtract:
		// the high part bounds the whole
		if t.hi == t.a.w-1 && t.lo > 0 && t.a.w <= 64 {
			a := full(t.a.w)
			a.ul, a.uh = n.ul<<t.lo, n.uh<<t.lo|mask(t.lo)
			w.narrow(t.a, a)
		}
	case OSext:
		a := full(t.a.w)
		a.sl, a.sh = max(n.sl, smin(t.a.w)), min(n.sh, smax(t.a.w))
		w.narrow(t.a, a)
	case OAdd:
		// x + const with no wrap in the signed view
		if t.b.isConst() {
			w.narrowAdd(t, n)
		}
	case OIte:
		// decide the condition if one arm is impossible
		b, d := w.prange(t.b), w.prange(t.d)
		mb, md := tidy(meet(b, n), t.w), tidy(meet(d, n), t.w)
		if mb.empty() && !md.empty() {
			w.learn(t.a, false)
		} else if md.empty() && !mb.empty() {
			w.learn(t.a, true)
		}
	}
}

func (w *World) narrowAdd(t *Term, n rng) {
	k := t.b
	a := w.prange(t.a)
	// only when a+k cannot wrap (signed) for the values a may have
	if lo, ok := addS(a.sl, k.sc()); !ok || lo < smin(t.w) {
		return
	}
	if hi, ok := addS(a.sh, k.sc()); !ok || hi > smax(t.w) {
		return
	}
	r := full(t.w)
	if lo, ok := addS(n.sl, -k.sc()); ok && k.sc() != math.MinInt64 {
		r.sl = max(r.sl, lo)
	}
	if hi, ok := addS(n.sh, -k.sc()); ok && k.sc() != math.MinInt64 {
		r.sh = min(r.sh, hi)
	}
	w.narrow(t.a, r)
}

func mulS(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	return c, true
}
