package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value any

type SymStr struct{ b []*Term }
type Struct []Value
type Array []Value
type Tuple []Value
type Slice []Value // nil slice: Slice(nil)
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
	// bound intrinsic (used for synthetic functions)
	nat func(w *World, args []Value) Value
}
type Ptr = *Value

// SymPtr is the address of an element selected by a symbolic index; only loads are allowed.
type SymPtr struct {
	elems []Value
	idx   *Term
}

// UPtr is an unsafe.Pointer wrapping another pointer-like value.
type UPtr struct{ v Value }

// SData is the result of unsafe.SliceData / StringData.
type SData struct {
	s   Slice
	str Value
}

type mapEnt struct {
	k, v Value
	dead bool
}
type Map struct {
	ents []*mapEnt
	idx  map[string]*mapEnt
	nsym int
	n    int
}

type MapIter struct {
	ents []*mapEnt
	pos  int
}
type StrIter struct {
	s   Value
	pos int
}

type Chan struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []chanWait
	sendq  []chanWait
	id     int
}
type waiter struct {
	done bool
	idx  int
	val  Value
	ok   bool
}
type chanWait struct {
	w   *waiter
	idx int
	val Value
}

// ---- strings

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen: %T", v))
}

func (w *World) strByte(v Value, i int) *Term {
	switch s := v.(type) {
	case string:
		return w.T.Const(8, uint64(s[i]))
	case *SymStr:
		return s.b[i]
	}
	panic("strByte")
}

func (w *World) strTerms(v Value) []*Term {
	switch s := v.(type) {
	case string:
		out := make([]*Term, len(s))
		for i := range out {
			out[i] = w.T.Const(8, uint64(s[i]))
		}
		return out
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strTerms %T", v))
}

func mkStr(b []*Term) Value {
	for _, t := range b {
		if t.op != OConst {
			return &SymStr{b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.c)
	}
	return string(bs)
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func (w *World) strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := w.strTerms(a), w.strTerms(b)
	out := make([]*Term, 0, len(x)+len(y))
	out = append(out, x...)
	out = append(out, y...)
	return mkStr(out)
}

func (w *World) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return w.T.Bool(x == y)
		}
	}
	if strLen(a) != strLen(b) {
		return w.T.False
	}
	return w.termsEq(w.strTerms(a), w.strTerms(b))
}

func (w *World) termsEq(x, y []*Term) *Term {
	r := w.T.True
	for i := range x {
		r = w.T.And(r, w.T.Eq(x[i], y[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// lexicographic a < b
func (w *World) termsLess(x, y []*Term) *Term {
	n := min(len(x), len(y))
	r := w.T.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = w.T.Or(w.T.Ult(x[i], y[i]), w.T.And(w.T.Eq(x[i], y[i]), r))
	}
	return r
}

func (w *World) strLess(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return w.T.Bool(x < y)
		}
	}
	return w.termsLess(w.strTerms(a), w.strTerms(b))
}

func (w *World) bytesTerms(v Value) []*Term {
	switch s := v.(type) {
	case Slice:
		out := make([]*Term, len(s))
		for i, e := range s {
			out[i] = e.(*Term)
		}
		return out
	case Array:
		return w.bytesTerms(Slice(s))
	}
	return w.strTerms(v)
}

func (w *World) mkBytes(s Value) Slice {
	ts := w.strTerms(s)
	out := make(Slice, len(ts))
	for i, t := range ts {
		out[i] = t
	}
	return out
}

// ---- zero, copy, store

func (w *World) zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.UntypedNil {
			return nil
		}
		if t.Kind() == types.UnsafePointer {
			return UPtr{}
		}
		if t.Info()&types.IsString != 0 {
			return ""
		}
		bw, _, _ := basicInfo(t)
		return w.T.Const(bw, 0)
	case *types.Pointer:
		return Ptr(nil)
	case *types.Array:
		n := int(t.Len())
		a := make(Array, n)
		if n > 0 {
			z := w.zero(t.Elem())
			for i := range a {
				if i == 0 {
					a[i] = z
				} else {
					a[i] = copyVal(z)
				}
			}
		}
		return a
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = w.zero(t.Field(i).Type())
		}
		return s
	case *types.Slice:
		return Slice(nil)
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return w.zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = w.zero(t.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic("zero of type param")
	}
	panic(fmt.Sprintf("zero: %T %v", t, t))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	}
	return v
}

// storeInto writes v (already owned by the caller or copied here) into *p preserving inner addresses.
func storeInto(p Ptr, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(x) {
			for i := range x {
				storeInto(&old[i], x[i])
			}
			return
		}
		*p = copyVal(v)
		return
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(x) {
			for i := range x {
				storeInto(&old[i], x[i])
			}
			return
		}
		*p = copyVal(v)
		return
	}
	*p = v
}

// basicInfo returns bit width, signedness and float-ness.
func basicInfo(t types.Type) (uint8, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, false
	case types.Int8:
		return 8, true, false
	case types.Uint8:
		return 8, false, false
	case types.Int16:
		return 16, true, false
	case types.Uint16:
		return 16, false, false
	case types.Int32, types.UntypedRune:
		return 32, true, false
	case types.Uint32:
		return 32, false, false
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, false
	case types.Float32:
		return 32, true, true
	case types.Float64, types.UntypedFloat:
		return 64, true, true
	}
	unsupported("basic type " + b.String())
	return 0, false, false
}

// ---- equality

func (w *World) equal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return w.T.Eq(x, b.(*Term))
	case string, *SymStr:
		return w.strEq(a, b)
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return w.T.Bool(x == y)
		}
		return w.T.False
	case Struct:
		y := b.(Struct)
		r := w.T.True
		for i := range x {
			r = w.T.And(r, w.equal(x[i], y[i]))
			if r.isFalse() {
				break
			}
		}
		return r
	case Array:
		y := b.(Array)
		r := w.T.True
		for i := range x {
			r = w.T.And(r, w.equal(x[i], y[i]))
			if r.isFalse() {
				break
			}
		}
		return r
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return w.T.Bool(x.t == nil && y.t == nil)
		}
		if !w.eng.identical(x.t, y.t) {
			return w.T.False
		}
		if !types.Comparable(x.t) {
			w.rtPanic("comparing uncomparable type " + x.t.String())
		}
		if _, _, fl := basicInfoSafe(x.t); fl {
			return w.T.FCmp(OFEq, x.v.(*Term), y.v.(*Term))
		}
		return w.equal(x.v, y.v)
	case *Map:
		y, _ := b.(*Map)
		return w.T.Bool(x == y)
	case *Chan:
		y, _ := b.(*Chan)
		return w.T.Bool(x == y)
	case *Closure:
		y, _ := b.(*Closure)
		return w.T.Bool(x == y)
	case Slice:
		y := b.(Slice)
		if x == nil || y == nil {
			return w.T.Bool(x == nil && y == nil)
		}
		unsupported("slice equality")
	case UPtr:
		y, _ := b.(UPtr)
		if x.v == nil || y.v == nil {
			return w.T.Bool(x.v == nil && y.v == nil)
		}
		return w.equal(x.v, y.v)
	case nil:
		return w.T.Bool(b == nil)
	}
	return w.T.Bool(a == b)
}

func basicInfoSafe(t types.Type) (uint8, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsFloat|types.IsBoolean) == 0 {
		return 0, false, false
	}
	return basicInfo(t)
}

// ---- maps

// ckey gives a canonical string for a fully concrete key.
func ckey(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return false
		}
		fmt.Fprintf(sb, "t%d:%x;", x.w, x.c)
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(x), x)
	case *SymStr:
		return false
	case Ptr:
		fmt.Fprintf(sb, "p%p;", x)
	case Struct:
		for _, e := range x {
			if !ckey(e, sb) {
				return false
			}
		}
	case Array:
		for _, e := range x {
			if !ckey(e, sb) {
				return false
			}
		}
	case Iface:
		if x.t == nil {
			sb.WriteString("nil;")
			return true
		}
		fmt.Fprintf(sb, "i%s:", x.t.String())
		return ckey(x.v, sb)
	case *Chan:
		fmt.Fprintf(sb, "c%p;", x)
	default:
		unsupported(fmt.Sprintf("map key %T", v))
	}
	return true
}

func (w *World) mapFind(m *Map, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	if ik, ok := k.(Iface); ok && ik.t != nil && !types.Comparable(ik.t) {
		w.rtPanic("hash of unhashable type " + ik.t.String())
	}
	var sb strings.Builder
	conc := ckey(k, &sb)
	if conc {
		if e, ok := m.idx[sb.String()]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if w.decide(w.equal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *World) mapSet(m *Map, k, v Value) {
	if m == nil {
		w.rtPanicPlain("assignment to entry in nil map")
	}
	if e := w.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEnt{k: copyVal(k), v: copyVal(v)}
	m.ents = append(m.ents, e)
	m.n++
	var sb strings.Builder
	if ckey(k, &sb) {
		m.idx[sb.String()] = e
	} else {
		m.nsym++
	}
}

func (w *World) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	var sb strings.Builder
	if ckey(e.k, &sb) {
		delete(m.idx, sb.String())
	} else {
		m.nsym--
	}
	for i, x := range m.ents {
		if x == e {
			m.ents = append(append([]*mapEnt{}, m.ents[:i]...), m.ents[i+1:]...)
			break
		}
	}
}
