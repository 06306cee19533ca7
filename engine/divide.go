package main

// Arithmetic with constants: quotients and remainders by a constant recombine, and exact
// quotients of scaled values are the values. Time arithmetic consists of little else.

type lin struct {
	ts []*Term
	cs []uint64
	k  uint64
}

const linMax = 10

// linear reads t as a sum of multiples of other terms, modulo 2^w.
func (l *lin) add(t *Term, c uint64) bool {
	switch t.op {
	case OConst:
		l.k += c * t.c
		return true
	case OAdd:
		return l.add(t.a, c) && l.add(t.b, c)
	case OSub:
		return l.add(t.a, c) && l.add(t.b, -c)
	case ONeg:
		return l.add(t.a, -c)
	case OMul:
		if t.b.isConst() {
			return l.add(t.a, c*t.b.c)
		}
		if t.a.isConst() {
			return l.add(t.b, c*t.a.c)
		}
	}
	for i := range l.ts {
		if l.ts[i] == t {
			l.cs[i] += c
			return true
		}
	}
	if len(l.ts) == linMax {
		return false
	}
	l.ts, l.cs = append(l.ts, t), append(l.cs, c)
	return true
}

// recombine rewrites k*c*(x/c) + k*(x%c) to k*x in the sum that t is; nil when there is nothing to do.
func (T *Terms) recombine(t *Term) *Term {
	if !t.div || t.w < 32 || (t.op != OAdd && t.op != OSub) {
		return nil
	}
	var l lin
	if !l.add(t, 1) {
		return nil
	}
	m := mask(t.w)
	hit := false
	for i, q := range l.ts {
		if (q.op != OSdiv && q.op != OUdiv) || !q.b.isConst() || l.cs[i]&m == 0 {
			continue
		}
		for j, r := range l.ts {
			if (r.op == OSrem || r.op == OUrem) && (r.op == OSrem) == (q.op == OSdiv) && r.a == q.a && r.b == q.b && l.cs[j]&m != 0 && (l.cs[j]*q.b.c)&m == l.cs[i]&m {
				k := l.cs[j]
				l.cs[i], l.cs[j] = 0, 0
				if !l.add(q.a, k) {
					return nil
				}
				hit = true
				break
			}
		}
	}
	if !hit {
		return nil
	}
	out := T.Const(t.w, l.k&m)
	for i, x := range l.ts {
		if l.cs[i]&m != 0 {
			out = T.Add(out, T.Mul(x, T.Const(t.w, l.cs[i]&m)))
		}
	}
	return out
}

// divConst is a quotient or remainder of signed numbers on the current path.
func (w *World) divConst(a, b *Term, rem bool) *Term {
	T := w.T
	if b.isConst() && b.sc() > 1 {
		if x := w.exact(a, b.sc()); x != nil {
			if rem {
				return T.Const(a.w, 0)
			}
			return T.Extract(a.w-1, 0, x)
		}
		if r := w.prange(a); r.sl > -b.sc() && r.sh < b.sc() {
			if rem {
				return a
			}
			return T.Const(a.w, 0)
		}
	}
	if rem {
		return T.Srem(a, b)
	}
	return T.Sdiv(a, b)
}

// exact is t/c as a 64-bit number when t is, without overflow, a multiple of c by its form.
func (w *World) exact(t *Term, c int64) *Term {
	T := w.T
	switch t.op {
	case OConst:
		if t.sc()%c == 0 {
			return T.Const(64, uint64(t.sc()/c))
		}
	case OExtract:
		if r := w.prange(t.a); t.lo == 0 && t.a.w <= 64 && r.sl >= smin(t.w) && r.sh <= smax(t.w) {
			return w.exact(t.a, c)
		}
	case OSext:
		return w.exact(t.a, c)
	case OZext:
		if e := t.a; e.op == OExtract && e.lo == 0 && w.prange(e.a).uh <= mask(e.w) {
			return w.exact(e.a, c)
		}
		if r := w.prange(t.a); r.sl >= 0 {
			return w.exact(t.a, c)
		}
	case OBAnd:
		if m := t.b; m.isConst() && m.c&(m.c+1) == 0 && w.prange(t.a).uh <= m.c {
			return w.exact(t.a, c)
		}
	case OMul:
		if t.b.isConst() && t.b.sc() != 0 && t.b.sc()%c == 0 && t.w == 64 {
			k := t.b.sc()
			r := w.prange(t.a)
			_, ok1 := mulS(r.sl, k)
			_, ok2 := mulS(r.sh, k)
			if ok1 && ok2 {
				return T.Mul(t.a, T.Const(64, uint64(k/c)))
			}
		}
	case OAdd:
		if t.w == 64 {
			a, b := w.prange(t.a), w.prange(t.b)
			_, ok1 := addS(a.sl, b.sl)
			_, ok2 := addS(a.sh, b.sh)
			if ok1 && ok2 {
				if x := w.exact(t.a, c); x != nil {
					if y := w.exact(t.b, c); y != nil {
						return T.Add(x, y)
					}
				}
			}
		}
	}
	return nil
}

// unscale turns the comparison of a multiple with zero into one of the number.
func (w *World) unscale(a, b *Term, signed bool) (*Term, *Term) {
	if !signed || !b.isConst() || b.c != 0 || a.op != OMul || !a.div || !a.b.isConst() || a.w != 64 || a.b.sc() <= 0 {
		return a, b
	}
	r := w.prange(a.a)
	_, ok1 := mulS(r.sl, a.b.sc())
	_, ok2 := mulS(r.sh, a.b.sc())
	if ok1 && ok2 {
		return a.a, b
	}
	return a, b
}
