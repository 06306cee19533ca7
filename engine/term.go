package main

// Terms: hash-consed bit-vector/boolean expressions with local simplification.
// Width 0 means Bool. Floats are carried as their IEEE bit patterns.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OZext
	OSext
	OUMulH
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFSqrt
	OI2F // signed int (arg width) -> float of width w
	OU2F
	OF2I // float -> signed int width w (rtz)
	OF2U
	OF2F    // float width change
	OFRound // c = mode: 0 rtz 1 floor 2 ceil 3 rne 4 rna
)

type Term struct {
	op   Op
	w    uint8
	fp   bool // contains floating-point ops
	div  bool // contains division by a constant
	hi   uint8
	lo   uint8
	a    *Term
	b    *Term
	d    *Term
	c    uint64 // const value or var id
	id   uint32
	vars []int32 // sorted var ids (shared)
	size uint32

	evEpoch  uint32
	ev       uint64
	defd     uint32 // solver session in which it was defined
	ulo, uhi uint64
	slo, shi int64
}

type tkey struct {
	op      Op
	w       uint8
	hi, lo  uint8
	a, b, d uint32
	c       uint64
}

type Terms struct {
	tab     map[tkey]*Term
	nextID  uint32
	smallC  [65][]*Term
	True    *Term
	False   *Term
	epoch   uint32
	divDefd map[divKey]uint32
	vt      *VarTable
}

func NewTerms(vt *VarTable) *Terms {
	T := &Terms{tab: map[tkey]*Term{}, vt: vt, divDefd: map[divKey]uint32{}}
	T.nextID = 1
	T.False = T.Const(0, 0)
	T.True = T.Const(0, 1)
	return T
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (T *Terms) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 256 {
		if T.smallC[w] == nil {
			T.smallC[w] = make([]*Term, 256)
		}
		if t := T.smallC[w][v]; t != nil {
			return t
		}
	}
	t := T.mk(OConst, w, 0, 0, nil, nil, nil, v)
	if v < 256 {
		T.smallC[w][v] = t
	}
	return t
}

func (T *Terms) Bool(b bool) *Term {
	if b {
		return T.True
	}
	return T.False
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast path
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

func (T *Terms) mk(op Op, w, hi, lo uint8, a, b, d *Term, c uint64) *Term {
	k := tkey{op, w, hi, lo, tid(a), tid(b), tid(d), c}
	if t, ok := T.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, hi: hi, lo: lo, a: a, b: b, d: d, c: c, id: T.nextID}
	T.nextID++
	t.size = 1
	if op == OVar {
		t.vars = []int32{int32(c)}
	} else {
		if a != nil {
			t.vars = a.vars
			t.size += a.size
			t.fp = t.fp || a.fp
			t.div = t.div || a.div
		}
		if b != nil {
			t.vars = mergeVars(t.vars, b.vars)
			t.size += b.size
			t.fp = t.fp || b.fp
			t.div = t.div || b.div
		}
		if d != nil {
			t.vars = mergeVars(t.vars, d.vars)
			t.size += d.size
			t.fp = t.fp || d.fp
			t.div = t.div || d.div
		}
	}
	if op >= OFAdd {
		t.fp = true
	}
	t.div = t.div || t.byConst()
	t.ulo, t.uhi = urange0(t)
	if t.w > 0 {
		t.slo, t.shi = srange0(t)
	}
	T.tab[k] = t
	return t
}

func urange(t *Term) (uint64, uint64) { return t.ulo, t.uhi }
func srange(t *Term) (int64, int64)   { return t.slo, t.shi }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.c == 0 }
func (t *Term) sc() int64     { return sext64(t.c, t.w) }

func (T *Terms) Var(name string, w uint8) *Term {
	id := T.vt.get(name, w)
	return T.mk(OVar, w, 0, 0, nil, nil, nil, uint64(id))
}

// ---- booleans

func (T *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return T.Bool(a.c == 0)
	}
	switch a.op {
	case ONot:
		return a.a
	case OUlt:
		return T.Ule(a.b, a.a)
	case OUle:
		return T.Ult(a.b, a.a)
	case OSlt:
		return T.Sle(a.b, a.a)
	case OSle:
		return T.Slt(a.b, a.a)
	}
	return T.mk(ONot, 0, 0, 0, a, nil, nil, 0)
}

func (T *Terms) And(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if T.Not(a) == b {
		return T.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OAnd, 0, 0, 0, a, b, nil, 0)
}

func (T *Terms) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if T.Not(a) == b {
		return T.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OOr, 0, 0, 0, a, b, nil, 0)
}

func (T *Terms) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		c, a, b = c.a, b, a
	}
	if a.w == 0 {
		if a.isTrue() {
			return T.Or(c, b)
		}
		if a.isFalse() {
			return T.And(T.Not(c), b)
		}
		if b.isTrue() {
			return T.Or(T.Not(c), a)
		}
		if b.isFalse() {
			return T.And(c, a)
		}
	}
	return T.mk(OIte, a.w, 0, 0, c, a, b, 0)
}

// pieces, least significant first
type piece struct {
	t *Term
}

func (T *Terms) pieces(t *Term, out []*Term) []*Term {
	switch t.op {
	case OConcat: // a = hi, b = lo
		out = T.pieces(t.b, out)
		return T.pieces(t.a, out)
	case OZext:
		out = T.pieces(t.a, out)
		return append(out, T.Const(t.w-t.a.w, 0))
	}
	return append(out, t)
}

func hasPieces(t *Term) bool { return t.op == OConcat || t.op == OZext }

// fromPieces builds the term from pieces (LSB first), merging neighbours.
func (T *Terms) fromPieces(ps []*Term) *Term {
	var m []*Term
	for _, p := range ps {
		if p == nil || p.w == 0 {
			continue
		}
		if n := len(m); n > 0 {
			q := m[n-1] // lower neighbour
			if q.isConst() && p.isConst() && q.w+p.w <= 64 {
				m[n-1] = T.Const(q.w+p.w, q.c|p.c<<q.w)
				continue
			}
			// adjacent extracts
			qb, ql, qh := exParts(q)
			pb, pl, ph := exParts(p)
			if qb == pb && pl == qh+1 && qb != nil {
				m[n-1] = T.Extract(ph, ql, qb)
				continue
			}
		}
		m = append(m, p)
	}
	if len(m) == 0 {
		panic("fromPieces: empty")
	}
	// top piece zero const => zext
	if n := len(m); n > 1 && m[n-1].isConst() && m[n-1].c == 0 {
		inner := T.concatRaw(m[:n-1])
		return T.zextRaw(inner, inner.w+m[n-1].w)
	}
	return T.concatRaw(m)
}

func exParts(t *Term) (*Term, uint8, uint8) {
	if t.op == OExtract {
		return t.a, t.lo, t.hi
	}
	if t.isConst() {
		return nil, 0, 0
	}
	return t, 0, t.w - 1
}

func (T *Terms) concatRaw(m []*Term) *Term {
	// right-assoc from the top: ((hi .. ) lo)
	r := m[0]
	for _, p := range m[1:] {
		r = T.mk(OConcat, r.w+p.w, 0, 0, p, r, nil, 0)
	}
	return r
}

func (T *Terms) zextRaw(a *Term, w uint8) *Term {
	if a.op == OZext {
		a = a.a
	}
	return T.mk(OZext, w, 0, 0, a, nil, nil, 0)
}

func (T *Terms) Concat(hi, lo *Term) *Term {
	ps := T.pieces(lo, nil)
	ps = T.pieces(hi, ps)
	return T.fromPieces(ps)
}

func (T *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return T.Const(w, a.c)
	}
	if a.op == OIte && a.b.isConst() && a.d.isConst() {
		return T.Ite(a.a, T.Const(w, a.b.c), T.Const(w, a.d.c))
	}
	return T.zextRaw(a, w)
}

func (T *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return T.Const(w, uint64(a.sc()))
	}
	if a.op == OZext { // top bit zero
		return T.zextRaw(a.a, w)
	}
	if a.op == OSext {
		return T.Sext(a.a, w)
	}
	if a.op == OConcat && a.a.isConst() && a.a.c>>(a.a.w-1) == 0 {
		return T.Zext(a, w)
	}
	if a.op == OIte && a.b.isConst() && a.d.isConst() {
		return T.Ite(a.a, T.Const(w, uint64(a.b.sc())), T.Const(w, uint64(a.d.sc())))
	}
	return T.mk(OSext, w, 0, 0, a, nil, nil, 0)
}

func (T *Terms) Extract(hi, lo uint8, a *Term) *Term {
	w := hi - lo + 1
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return T.Const(w, a.c>>lo)
	case OExtract:
		return T.Extract(hi+a.lo, lo+a.lo, a.a)
	case OConcat:
		lw := a.b.w
		if hi < lw {
			return T.Extract(hi, lo, a.b)
		}
		if lo >= lw {
			return T.Extract(hi-lw, lo-lw, a.a)
		}
		return T.Concat(T.Extract(hi-lw, 0, a.a), T.Extract(lw-1, lo, a.b))
	case OZext:
		iw := a.a.w
		if hi < iw {
			return T.Extract(hi, lo, a.a)
		}
		if lo >= iw {
			return T.Const(w, 0)
		}
		return T.Zext(T.Extract(iw-1, lo, a.a), w)
	case OSext:
		iw := a.a.w
		if hi < iw {
			return T.Extract(hi, lo, a.a)
		}
		if lo == 0 {
			return T.Sext(a.a, w)
		}
	case OIte:
		if a.b.isConst() || a.d.isConst() {
			return T.Ite(a.a, T.Extract(hi, lo, a.b), T.Extract(hi, lo, a.d))
		}
	case OBAnd, OBOr, OBXor:
		if a.b.isConst() || hasPieces(a.a) || hasPieces(a.b) {
			return T.bin(a.op, T.Extract(hi, lo, a.a), T.Extract(hi, lo, a.b))
		}
	case OBNot:
		return T.BNot(T.Extract(hi, lo, a.a))
	case OAdd, OSub, OMul:
		if lo == 0 && narrows(a.a, w) && narrows(a.b, w) {
			return T.bin(a.op, T.Extract(hi, 0, a.a), T.Extract(hi, 0, a.b))
		}
	case ONeg:
		if lo == 0 {
			return T.Neg(T.Extract(hi, 0, a.a))
		}
	}
	return T.mk(OExtract, w, hi, lo, a, nil, nil, 0)
}

// narrows says whether the low w bits of a are simpler than a.
func narrows(a *Term, w uint8) bool {
	switch a.op {
	case OConst:
		return true
	case OZext, OSext:
		return a.a.w <= w
	case OAdd, OSub, OMul:
		return narrows(a.a, w) && narrows(a.b, w)
	}
	return false
}

func (T *Terms) bin(op Op, a, b *Term) *Term {
	switch op {
	case OAdd:
		return T.Add(a, b)
	case OSub:
		return T.Sub(a, b)
	case OMul:
		return T.Mul(a, b)
	case OBAnd:
		return T.BAnd(a, b)
	case OBOr:
		return T.BOr(a, b)
	case OBXor:
		return T.BXor(a, b)
	}
	panic("bin")
}

// splitCommon splits a and b into pieces with common boundaries.
func (T *Terms) splitCommon(a, b *Term) (pa, pb []*Term) {
	as := T.pieces(a, nil)
	bs := T.pieces(b, nil)
	i, j := 0, 0
	var ao, bo uint8
	for i < len(as) && j < len(bs) {
		ra, rb := as[i].w-ao, bs[j].w-bo
		n := ra
		if rb < n {
			n = rb
		}
		pa = append(pa, T.Extract(ao+n-1, ao, as[i]))
		pb = append(pb, T.Extract(bo+n-1, bo, bs[j]))
		ao += n
		bo += n
		if ao == as[i].w {
			i++
			ao = 0
		}
		if bo == bs[j].w {
			j++
			bo = 0
		}
	}
	return
}

func (T *Terms) BAnd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.w, a.c&b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if b.c == mask(b.w) {
			return a
		}
		// runs of the mask
		runs := 0
		for i := uint8(0); i < b.w; i++ {
			if b.c>>i&1 == 1 && (i == 0 || b.c>>(i-1)&1 == 0) {
				runs++
			}
		}
		if runs <= 2 {
			var ps []*Term
			i := uint8(0)
			for i < b.w {
				j := i
				bit := b.c >> i & 1
				for j < b.w && b.c>>j&1 == bit {
					j++
				}
				if bit == 1 {
					ps = T.pieces(T.Extract(j-1, i, a), ps)
				} else {
					ps = append(ps, T.Const(j-i, 0))
				}
				i = j
			}
			return T.fromPieces(ps)
		}
	}
	if hasPieces(a) && hasPieces(b) {
		pa, pb := T.splitCommon(a, b)
		if len(pa) > 1 {
			var ps []*Term
			for i := range pa {
				ps = T.pieces(T.BAnd(pa[i], pb[i]), ps)
			}
			return T.fromPieces(ps)
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return T.mk(OBAnd, a.w, 0, 0, a, b, nil, 0)
}

func (T *Terms) BOr(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.w, a.c|b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c == mask(b.w) {
			return b
		}
	}
	if hasPieces(a) || hasPieces(b) {
		pa, pb := T.splitCommon(a, b)
		if len(pa) > 1 {
			ok := true
			for i := range pa {
				if !(pa[i].isConst() || pb[i].isConst()) {
					ok = false
					break
				}
			}
			if ok {
				var ps []*Term
				for i := range pa {
					ps = T.pieces(T.BOr(pa[i], pb[i]), ps)
				}
				return T.fromPieces(ps)
			}
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return T.mk(OBOr, a.w, 0, 0, a, b, nil, 0)
}

func (T *Terms) BXor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.w, a.c^b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return T.Const(a.w, 0)
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c == mask(b.w) {
			return T.BNot(a)
		}
		if a.op == OBXor && a.b.isConst() {
			return T.BXor(a.a, T.Const(a.w, a.b.c^b.c))
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return T.mk(OBXor, a.w, 0, 0, a, b, nil, 0)
}

func (T *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return T.Const(a.w, ^a.c)
	}
	if a.op == OBNot {
		return a.a
	}
	return T.mk(OBNot, a.w, 0, 0, a, nil, nil, 0)
}

func (T *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return T.Const(a.w, -a.c)
	}
	if a.op == ONeg {
		return a.a
	}
	return T.mk(ONeg, a.w, 0, 0, a, nil, nil, 0)
}

func (T *Terms) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.w, a.c+b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if a.op == OAdd && a.b.isConst() {
			return T.Add(a.a, T.Const(a.w, a.b.c+b.c))
		}
		return T.mk(OAdd, a.w, 0, 0, a, b, nil, 0)
	}
	// (x + c) + y -> (x+y)+c
	if a.op == OAdd && a.b.isConst() {
		return T.Add(T.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.isConst() {
		return T.Add(T.Add(a, b.a), b.b)
	}
	// x + (y - x), (y-x)+x
	if b.op == OSub && b.b == a {
		return b.a
	}
	if a.op == OSub && a.b == b {
		return a.a
	}
	if b.op == ONeg {
		return T.Sub(a, b.a)
	}
	if a.op == ONeg {
		return T.Sub(b, a.a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OAdd, a.w, 0, 0, a, b, nil, 0)
}

func (T *Terms) Sub(a, b *Term) *Term {
	if a == b {
		return T.Const(a.w, 0)
	}
	if b.isConst() {
		return T.Add(a, T.Const(b.w, -b.c))
	}
	if a.isConst() && a.c == 0 {
		return T.Neg(b)
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.isConst() {
			return T.Add(T.Sub(a.a, b), a.b)
		}
	}
	if b.op == OAdd {
		if b.a == a {
			return T.Neg(b.b)
		}
		if b.b == a {
			return T.Neg(b.a)
		}
		if b.b.isConst() {
			return T.Add(T.Sub(a, b.a), T.Const(a.w, -b.b.c))
		}
	}
	if a.op == OSub && a.a == b {
		return T.Neg(a.b)
	}
	if b.op == OSub && b.a == a {
		return b.b
	}
	return T.mk(OSub, a.w, 0, 0, a, b, nil, 0)
}

func (T *Terms) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.w, a.c*b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if b.c == 1 {
			return a
		}
		if bits.OnesCount64(b.c) == 1 {
			return T.Shl(a, T.Const(a.w, uint64(bits.TrailingZeros64(b.c))))
		}
		if a.op == OMul && a.b.isConst() {
			return T.Mul(a.a, T.Const(a.w, a.b.c*b.c))
		}
		return T.mk(OMul, a.w, 0, 0, a, b, nil, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OMul, a.w, 0, 0, a, b, nil, 0)
}

func (T *Terms) UMulH(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		h, _ := bits.Mul64(a.c, b.c)
		return T.Const(64, h)
	}
	return T.mk(OUMulH, 64, 0, 0, a, b, nil, 0)
}

// Division: callers guarantee divisor != 0 on the path.
func (T *Terms) Udiv(a, b *Term) *Term {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			return T.Const(a.w, a.c/b.c)
		}
		if b.c == 1 {
			return a
		}
		if bits.OnesCount64(b.c) == 1 {
			return T.Lshr(a, T.Const(a.w, uint64(bits.TrailingZeros64(b.c))))
		}
		if a.op == OZext && b.c <= mask(a.a.w) {
			return T.Zext(T.Udiv(a.a, T.Const(a.a.w, b.c)), a.w)
		}
	}
	return T.mk(OUdiv, a.w, 0, 0, a, b, nil, 0)
}
func (T *Terms) Urem(a, b *Term) *Term {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			return T.Const(a.w, a.c%b.c)
		}
		if b.c == 1 {
			return T.Const(a.w, 0)
		}
		if bits.OnesCount64(b.c) == 1 {
			return T.BAnd(a, T.Const(a.w, b.c-1))
		}
		if a.op == OZext && b.c <= mask(a.a.w) {
			return T.Zext(T.Urem(a.a, T.Const(a.a.w, b.c)), a.w)
		}
	}
	return T.mk(OUrem, a.w, 0, 0, a, b, nil, 0)
}
func (T *Terms) Sdiv(a, b *Term) *Term {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			x, y := a.sc(), b.sc()
			if y == -1 {
				return T.Const(a.w, uint64(-x))
			}
			return T.Const(a.w, uint64(x/y))
		}
		if b.c == 1 {
			return a
		}
		if a.op == OZext && b.sc() > 0 {
			return T.Udiv(a, b)
		}
	}
	return T.mk(OSdiv, a.w, 0, 0, a, b, nil, 0)
}
func (T *Terms) Srem(a, b *Term) *Term {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			x, y := a.sc(), b.sc()
			if y == -1 {
				return T.Const(a.w, 0)
			}
			return T.Const(a.w, uint64(x%y))
		}
		if a.op == OZext && b.sc() > 0 {
			return T.Urem(a, b)
		}
	}
	return T.mk(OSrem, a.w, 0, 0, a, b, nil, 0)
}

// Shifts: b has the same width as a and is an unsigned amount.
func (T *Terms) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c >= uint64(a.w) {
			return T.Const(a.w, 0)
		}
		if a.isConst() {
			return T.Const(a.w, a.c<<b.c)
		}
		k := uint8(b.c)
		ps := []*Term{T.Const(k, 0)}
		ps = T.pieces(T.Extract(a.w-1-k, 0, a), ps)
		return T.fromPieces(ps)
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	return T.mk(OShl, a.w, 0, 0, a, b, nil, 0)
}
func (T *Terms) Lshr(a, b *Term) *Term {
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c >= uint64(a.w) {
			return T.Const(a.w, 0)
		}
		if a.isConst() {
			return T.Const(a.w, a.c>>b.c)
		}
		k := uint8(b.c)
		return T.Zext(T.Extract(a.w-1, k, a), a.w)
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	return T.mk(OLshr, a.w, 0, 0, a, b, nil, 0)
}
func (T *Terms) Ashr(a, b *Term) *Term {
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		k := b.c
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if a.isConst() {
			return T.Const(a.w, uint64(a.sc()>>k))
		}
		return T.Sext(T.Extract(a.w-1, uint8(k), a), a.w)
	}
	return T.mk(OAshr, a.w, 0, 0, a, b, nil, 0)
}

// ---- comparisons

func (T *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return T.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.c == 1 {
				return a
			}
			return T.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return T.mk(OEq, 0, 0, 0, a, b, nil, 0)
	}
	if b.isConst() {
		switch a.op {
		case OAdd:
			if a.b.isConst() {
				return T.Eq(a.a, T.Const(a.w, b.c-a.b.c))
			}
		case OBXor:
			if a.b.isConst() {
				return T.Eq(a.a, T.Const(a.w, b.c^a.b.c))
			}
		case OBNot:
			return T.Eq(a.a, T.Const(a.w, ^b.c))
		case ONeg:
			return T.Eq(a.a, T.Const(a.w, -b.c))
		case OIte:
			if a.b.isConst() || a.d.isConst() {
				return T.Ite(a.a, T.Eq(a.b, b), T.Eq(a.d, b))
			}
		case OSext:
			iw := a.a.w
			if uint64(sext64(b.c&mask(iw), iw))&mask(a.w) != b.c {
				return T.False
			}
			return T.Eq(a.a, T.Const(iw, b.c))
		}
	}
	if hasPieces(a) || hasPieces(b) {
		pa, pb := T.splitCommon(a, b)
		if len(pa) > 1 {
			r := T.True
			for i := range pa {
				r = T.And(r, T.Eq(pa[i], pb[i]))
				if r.isFalse() {
					return r
				}
			}
			return r
		}
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return T.Eq(a.a, b.a)
	}
	// x + k == y + k
	if a.op == OAdd && b.op == OAdd {
		if a.b == b.b {
			return T.Eq(a.a, b.a)
		}
		if a.a == b.a {
			return T.Eq(a.b, b.b)
		}
		if a.a == b.b {
			return T.Eq(a.b, b.a)
		}
		if a.b == b.a {
			return T.Eq(a.a, b.b)
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return T.mk(OEq, 0, 0, 0, a, b, nil, 0)
}

// urange0 computes an over-approximated unsigned range.
func urange0(t *Term) (lo, hi uint64) {
	switch t.op {
	case OConst:
		return t.c, t.c
	case OZext:
		return urange(t.a)
	case OIte:
		l1, h1 := urange(t.b)
		l2, h2 := urange(t.d)
		return min(l1, l2), max(h1, h2)
	case OConcat:
		l1, h1 := urange(t.a)
		l2, h2 := urange(t.b)
		return l1<<t.b.w + l2, h1<<t.b.w + h2
	case OAdd:
		l1, h1 := urange(t.a)
		l2, h2 := urange(t.b)
		s, c := bits.Add64(h1, h2, 0)
		if c == 0 && s <= mask(t.w) {
			return l1 + l2, s
		}
	case OUrem:
		if t.b.isConst() && t.b.c > 0 {
			return 0, t.b.c - 1
		}
	case OUdiv:
		if t.b.isConst() && t.b.c > 0 {
			l, h := urange(t.a)
			return l / t.b.c, h / t.b.c
		}
	case OMul:
		if t.b.isConst() {
			l, h := urange(t.a)
			hh, ll := bits.Mul64(h, t.b.c)
			if hh == 0 && ll <= mask(t.w) {
				return l * t.b.c, ll
			}
		}
	case OBAnd:
		if t.b.isConst() {
			return 0, t.b.c
		}
	}
	return 0, mask(t.w)
}

func (T *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return T.False
	}
	if a.isConst() && b.isConst() {
		return T.Bool(a.c < b.c)
	}
	la, ha := urange(a)
	lb, hb := urange(b)
	if ha < lb {
		return T.True
	}
	if la >= hb {
		return T.False
	}
	if b.isConst() && b.c == 1 {
		return T.Eq(a, T.Const(a.w, 0))
	}
	if a.op == OZext && b.op == OZext {
		w := max(a.a.w, b.a.w)
		return T.Ult(T.Zext(a.a, w), T.Zext(b.a, w))
	}
	if a.op == OZext && b.isConst() && b.c <= mask(a.a.w) {
		return T.Ult(a.a, T.Const(a.a.w, b.c))
	}
	if b.op == OZext && a.isConst() && a.c <= mask(b.a.w) {
		return T.Ult(T.Const(b.a.w, a.c), b.a)
	}
	return T.mk(OUlt, 0, 0, 0, a, b, nil, 0)
}

func (T *Terms) Ule(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	if a.isConst() && b.isConst() {
		return T.Bool(a.c <= b.c)
	}
	la, ha := urange(a)
	lb, hb := urange(b)
	if ha <= lb {
		return T.True
	}
	if la > hb {
		return T.False
	}
	if b.isConst() && b.c == 0 {
		return T.Eq(a, b)
	}
	if a.op == OZext && b.op == OZext {
		w := max(a.a.w, b.a.w)
		return T.Ule(T.Zext(a.a, w), T.Zext(b.a, w))
	}
	if a.op == OZext && b.isConst() && b.c <= mask(a.a.w) {
		return T.Ule(a.a, T.Const(a.a.w, b.c))
	}
	if b.op == OZext && a.isConst() && a.c <= mask(b.a.w) {
		return T.Ule(T.Const(b.a.w, a.c), b.a)
	}
	return T.mk(OUle, 0, 0, 0, a, b, nil, 0)
}

func srange0(t *Term) (lo, hi int64) {
	l, h := urange(t)
	top := uint64(1) << (t.w - 1)
	if h < top {
		return int64(l), int64(h)
	}
	if l >= top {
		return sext64(l, t.w), sext64(h, t.w)
	}
	if t.op == OSext {
		return srange(t.a)
	}
	if t.op == OIte {
		l1, h1 := srange(t.b)
		l2, h2 := srange(t.d)
		return min(l1, l2), max(h1, h2)
	}
	if t.op == OAdd && t.w <= 64 {
		l1, h1 := srange(t.a)
		l2, h2 := srange(t.b)
		if (h2 <= 0 || h1 <= math.MaxInt64-h2) && (l2 >= 0 || l1 >= math.MinInt64-l2) {
			lo, hi := l1+l2, h1+h2
			if lo >= -int64(top-1)-1 && (t.w == 64 || hi < int64(top)) {
				return lo, hi
			}
		}
	}
	return -int64(top-1) - 1, int64(top - 1)
}

func (T *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return T.False
	}
	if a.isConst() && b.isConst() {
		return T.Bool(a.sc() < b.sc())
	}
	la, ha := srange(a)
	lb, hb := srange(b)
	if ha < lb {
		return T.True
	}
	if la >= hb {
		return T.False
	}
	if la >= 0 && lb >= 0 {
		return T.Ult(a, b)
	}
	if a.op == OSext {
		if b.op == OSext {
			w := max(a.a.w, b.a.w)
			return T.Slt(T.Sext(a.a, w), T.Sext(b.a, w))
		}
		if b.isConst() { // in range due to srange checks
			return T.Slt(a.a, T.Const(a.a.w, b.c))
		}
	}
	if b.op == OSext && a.isConst() {
		return T.Slt(T.Const(b.a.w, a.c), b.a)
	}
	return T.mk(OSlt, 0, 0, 0, a, b, nil, 0)
}

func (T *Terms) Sle(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	if a.isConst() && b.isConst() {
		return T.Bool(a.sc() <= b.sc())
	}
	la, ha := srange(a)
	lb, hb := srange(b)
	if ha <= lb {
		return T.True
	}
	if la > hb {
		return T.False
	}
	if la >= 0 && lb >= 0 {
		return T.Ule(a, b)
	}
	if a.op == OSext {
		if b.op == OSext {
			w := max(a.a.w, b.a.w)
			return T.Sle(T.Sext(a.a, w), T.Sext(b.a, w))
		}
		if b.isConst() {
			return T.Sle(a.a, T.Const(a.a.w, b.c))
		}
	}
	if b.op == OSext && a.isConst() {
		return T.Sle(T.Const(b.a.w, a.c), b.a)
	}
	return T.mk(OSle, 0, 0, 0, a, b, nil, 0)
}

// ---- floats (w = 32 or 64, bits)

func fval(c uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(c)))
	}
	return math.Float64frombits(c)
}
func fbits(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evFBin(op Op, w uint8, a, b uint64) uint64 {
	if w == 32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		var r float32
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		}
		return uint64(math.Float32bits(r))
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	var r float64
	switch op {
	case OFAdd:
		r = x + y
	case OFSub:
		r = x - y
	case OFMul:
		r = x * y
	case OFDiv:
		r = x / y
	}
	return math.Float64bits(r)
}

func (T *Terms) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.w, evFBin(op, a.w, a.c, b.c))
	}
	return T.mk(op, a.w, 0, 0, a, b, nil, 0)
}

func evFCmp(op Op, w uint8, a, b uint64) bool {
	x, y := fval(a, w), fval(b, w)
	switch op {
	case OFLt:
		return x < y
	case OFLe:
		return x <= y
	case OFEq:
		return x == y
	}
	panic("fcmp")
}

func (T *Terms) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Bool(evFCmp(op, a.w, a.c, b.c))
	}
	return T.mk(op, 0, 0, 0, a, b, nil, 0)
}

func evF2I(v uint64, fw, w uint8) uint64 {
	f := fval(v, fw)
	// amd64 semantics: out of range gives the most negative value
	if w == 64 {
		return uint64(int64(f))
	}
	return uint64(int64(f)) & mask(w)
}

func (T *Terms) FUn(op Op, w uint8, a *Term, c uint64) *Term {
	if a.isConst() {
		return T.Const(w, evFUn(op, w, a.w, a.c, c))
	}
	return T.mk(op, w, 0, 0, a, nil, nil, c)
}

func evFUn(op Op, w, aw uint8, v, c uint64) uint64 {
	switch op {
	case OFSqrt:
		return fbits(math.Sqrt(fval(v, aw)), w)
	case OI2F:
		s := sext64(v, aw)
		if w == 32 {
			return uint64(math.Float32bits(float32(s)))
		}
		return math.Float64bits(float64(s))
	case OU2F:
		if w == 32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case OF2I:
		return evF2I(v, aw, w)
	case OF2U:
		return uint64(fval(v, aw)) & mask(w)
	case OF2F:
		if aw == w {
			return v
		}
		return fbits(fval(v, aw), w)
	case OFRound:
		f := fval(v, aw)
		switch c {
		case 0:
			f = math.Trunc(f)
		case 1:
			f = math.Floor(f)
		case 2:
			f = math.Ceil(f)
		case 3:
			f = math.RoundToEven(f)
		case 4:
			f = math.Round(f)
		}
		return fbits(f, w)
	}
	panic("evFUn")
}

// ---- evaluation under a model

type Model map[int32]uint64

func (T *Terms) NewEval() { T.epoch++ }

func (T *Terms) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.c
	}
	if t.evEpoch == T.epoch {
		return t.ev
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m[int32(t.c)] & mask(t.w)
	case ONot:
		r = 1 - T.Eval(t.a, m)
	case OAnd:
		r = T.Eval(t.a, m)
		if r == 1 {
			r = T.Eval(t.b, m)
		}
	case OOr:
		r = T.Eval(t.a, m)
		if r == 0 {
			r = T.Eval(t.b, m)
		}
	case OIte:
		if T.Eval(t.a, m) == 1 {
			r = T.Eval(t.b, m)
		} else {
			r = T.Eval(t.d, m)
		}
	default:
		a := T.Eval(t.a, m)
		var b uint64
		if t.b != nil {
			b = T.Eval(t.b, m)
		}
		r = evalOp(t, a, b)
	}
	t.evEpoch = T.epoch
	t.ev = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(t *Term, a, b uint64) uint64 {
	w := t.w
	aw := t.a.w
	switch t.op {
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext64(a, aw) < sext64(b, aw))
	case OSle:
		return b2u(sext64(a, aw) <= sext64(b, aw))
	case OAdd:
		return (a + b) & mask(w)
	case OSub:
		return (a - b) & mask(w)
	case OMul:
		return (a * b) & mask(w)
	case OUdiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x >= 0 {
				return mask(w)
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OSrem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OBNot:
		return ^a & mask(w)
	case ONeg:
		return -a & mask(w)
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & mask(w)
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext64(a, w)>>b) & mask(w)
	case OConcat:
		return a<<t.b.w | b
	case OExtract:
		return a >> t.lo & mask(w)
	case OZext:
		return a
	case OSext:
		return uint64(sext64(a, aw)) & mask(w)
	case OUMulH:
		h, _ := bits.Mul64(a, b)
		return h
	case OFAdd, OFSub, OFMul, OFDiv:
		return evFBin(t.op, w, a, b)
	case OFLt, OFLe, OFEq:
		return b2u(evFCmp(t.op, aw, a, b))
	default:
		return evFUn(t.op, w, aw, a, t.c)
	}
}

// ---- SMT-LIB printing

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (T *Terms) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.c)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.c)
	}
	return fmt.Sprintf("t%d", t.id)
}

func tofp(w uint8, s string) string {
	if w == 32 {
		return "((_ to_fp 8 24) " + s + ")"
	}
	return "((_ to_fp 11 53) " + s + ")"
}

func (T *Terms) expr(t *Term) string {
	r := T.ref
	switch t.op {
	case ONot:
		return "(not " + r(t.a) + ")"
	case OIte:
		return "(ite " + r(t.a) + " " + r(t.b) + " " + r(t.d) + ")"
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, r(t.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, r(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, r(t.a))
	case OBNot:
		return "(bvnot " + r(t.a) + ")"
	case ONeg:
		return "(bvneg " + r(t.a) + ")"
	case OUMulH:
		return fmt.Sprintf("((_ extract 127 64) (bvmul ((_ zero_extend 64) %s) ((_ zero_extend 64) %s)))", r(t.a), r(t.b))
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", n, tofp(t.w, r(t.a)), tofp(t.w, r(t.b)))
	case OFLt, OFLe, OFEq:
		n := map[Op]string{OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}[t.op]
		return fmt.Sprintf("(%s %s %s)", n, tofp(t.a.w, r(t.a)), tofp(t.a.w, r(t.b)))
	case OFSqrt:
		return fmt.Sprintf("(fp.to_ieee_bv (fp.sqrt RNE %s))", tofp(t.a.w, r(t.a)))
	case OFRound:
		m := []string{"RTZ", "RTN", "RTP", "RNE", "RNA"}[t.c]
		return fmt.Sprintf("(fp.to_ieee_bv (fp.roundToIntegral %s %s))", m, tofp(t.a.w, r(t.a)))
	case OI2F, OU2F:
		f := "to_fp"
		if t.op == OU2F {
			f = "to_fp_unsigned"
		}
		if t.w == 32 {
			return fmt.Sprintf("(fp.to_ieee_bv ((_ %s 8 24) RNE %s))", f, r(t.a))
		}
		return fmt.Sprintf("(fp.to_ieee_bv ((_ %s 11 53) RNE %s))", f, r(t.a))
	case OF2I:
		// amd64: cvttsd2si yields 0x8000... for NaN/out of range; narrower ints truncate the 64-bit result
		x := tofp(t.a.w, r(t.a))
		inr := fmt.Sprintf("(and (not (fp.isNaN %s)) (fp.leq ((_ to_fp 11 53) RNE (- 9223372036854775808.0)) %s) (fp.lt %s ((_ to_fp 11 53) RNE 9223372036854775808.0)))", x, x, x)
		if t.a.w == 32 {
			inr = fmt.Sprintf("(and (not (fp.isNaN %s)) (fp.leq ((_ to_fp 8 24) RNE (- 9223372036854775808.0)) %s) (fp.lt %s ((_ to_fp 8 24) RNE 9223372036854775808.0)))", x, x, x)
		}
		s := fmt.Sprintf("(ite %s ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", inr, x)
		if t.w < 64 {
			s = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, s)
		}
		return s
	case OF2U:
		x := tofp(t.a.w, r(t.a))
		s := fmt.Sprintf("((_ fp.to_ubv 64) RTZ %s)", x)
		if t.w < 64 {
			s = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, s)
		}
		return s
	case OF2F:
		if t.w == 32 {
			return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 8 24) RNE %s))", tofp(64, r(t.a)))
		}
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 11 53) RNE %s))", tofp(32, r(t.a)))
	}
	n := ""
	switch t.op {
	case OAnd:
		n = "and"
	case OOr:
		n = "or"
	case OEq:
		n = "="
	case OUlt:
		n = "bvult"
	case OUle:
		n = "bvule"
	case OSlt:
		n = "bvslt"
	case OSle:
		n = "bvsle"
	case OAdd:
		n = "bvadd"
	case OSub:
		n = "bvsub"
	case OMul:
		n = "bvmul"
	case OUdiv:
		n = "bvudiv"
	case OUrem:
		n = "bvurem"
	case OSdiv:
		n = "bvsdiv"
	case OSrem:
		n = "bvsrem"
	case OBAnd:
		n = "bvand"
	case OBOr:
		n = "bvor"
	case OBXor:
		n = "bvxor"
	case OShl:
		n = "bvshl"
	case OLshr:
		n = "bvlshr"
	case OAshr:
		n = "bvashr"
	case OConcat:
		n = "concat"
	default:
		panic(fmt.Sprintf("expr: op %d", t.op))
	}
	return "(" + n + " " + r(t.a) + " " + r(t.b) + ")"
}

// emitDefs writes define-fun for every node below t not yet defined in session.
func (T *Terms) emitDefs(t *Term, session uint32, sb *strings.Builder, seenVars map[int32]bool) {
	if t == nil || t.op == OConst || t.defd == session {
		return
	}
	t.defd = session
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const v%d %s)\n", t.c, sortOf(t.w))
		return
	}
	T.emitDefs(t.a, session, sb, seenVars)
	T.emitDefs(t.b, session, sb, seenVars)
	T.emitDefs(t.d, session, sb, seenVars)
	if t.byConst() {
		key, id := t.divID()
		if T.divDefd[key] != session {
			T.divDefd[key] = session
			fmt.Fprintf(sb, "(declare-const q%s %s)(declare-const r%s %s)\n", id, sortOf(t.w), id, sortOf(t.w))
		}
		part := "q"
		if t.op == OSrem || t.op == OUrem {
			part = "r"
		}
		fmt.Fprintf(sb, "(define-fun t%d () %s %s%s)\n", t.id, sortOf(t.w), part, id)
		return
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), T.expr(t))
}

// byConst says whether t is a division by a constant, whose quotient and remainder are given to
// the solver through the equation x = q*c + r that determines them: solvers handle that better
// than division circuits.
func (t *Term) byConst() bool {
	switch t.op {
	case OUdiv, OUrem:
		return t.w >= 32 && t.b.isConst() && t.b.c != 0
	case OSdiv, OSrem:
		return t.w >= 32 && t.b.isConst() && t.b.sc() > 0
	}
	return false
}

func (t *Term) divID() (divKey, string) {
	kind := byte('u')
	if t.op == OSdiv || t.op == OSrem {
		kind = 's'
	}
	key := divKey{kind == 's', t.a, t.b.c}
	if t.a.op == OVar {
		return key, fmt.Sprintf("%cv%d_%d", kind, t.a.c, t.b.c)
	}
	return key, fmt.Sprintf("%c%d_%d", kind, t.a.id, t.b.c)
}

// divisions writes the equations of the divisions below cs.
func (T *Terms) divisions(cs []*Term, sb *strings.Builder) {
	var seen map[*Term]bool
	var done map[divKey]bool
	var keys []divKey
	var ids []string
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || !t.div || seen[t] {
			return
		}
		seen[t] = true
		walk(t.a)
		walk(t.b)
		walk(t.d)
		if !t.byConst() {
			return
		}
		key, id := t.divID()
		if done[key] {
			return
		}
		done[key] = true
		// equal numbers have equal quotients, which is hard to find out from the equations
		if len(keys) < 12 {
			for i, o := range keys {
				if o.signed == key.signed && o.c == key.c && o.x.w == key.x.w {
					fmt.Fprintf(sb, "(assert (=> (= %s %s) (and (= q%s q%s) (= r%s r%s))))\n", T.ref(o.x), T.ref(t.a), ids[i], id, ids[i], id)
				}
			}
			keys, ids = append(keys, key), append(ids, id)
		}
		w, c := t.w, t.b.c
		k := func(v uint64) string { return T.ref(T.Const(w, v&mask(w))) }
		x := T.ref(t.a)
		fmt.Fprintf(sb, "(assert (= %s (bvadd (bvmul q%s %s) r%s)))\n", x, id, k(c), id)
		if key.signed {
			lim := uint64(smax(w)) / c
			neg := uint64(-(smin(w) / int64(c)))
			fmt.Fprintf(sb, "(assert (and (bvsle %s q%s) (bvsle q%s %s)))\n", k(-neg), id, id, k(lim))
			fmt.Fprintf(sb, "(assert (ite (bvslt %s %s) (and (bvsle r%s %s) (bvslt %s r%s) (bvsle q%s %s)) (and (bvsle %s r%s) (bvslt r%s %s) (bvsle %s q%s))))\n",
				x, k(0), id, k(0), k(-c), id, id, k(0), k(0), id, id, k(c), k(0), id)
		} else {
			fmt.Fprintf(sb, "(assert (and (bvult r%s %s) (bvule q%s %s) (bvule (bvmul q%s %s) %s)))\n", id, k(c), id, k(mask(w)/c), id, k(c), x)
		}
	}
	for _, c := range cs {
		if c.div {
			if seen == nil {
				seen, done = map[*Term]bool{}, map[divKey]bool{}
			}
			walk(c)
		}
	}
}

type divKey struct {
	signed bool
	x      *Term
	c      uint64
}
