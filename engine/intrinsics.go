package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(w *World, fr *frame, args []Value) Value

var intrinsics map[string]intrinsic

func boolv(w *World, b bool) Value { return w.T.Bool(b) }
func intv(w *World, n int) Value   { return w.T.Const(64, uint64(int64(n))) }

func cstr(w *World, v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	// concretise byte by byte
	ts := w.strTerms(v)
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(w.concretize(t))
	}
	return string(b)
}

func init() {
	S := symPkg + "."
	ident := func(w *World, fr *frame, a []Value) Value { return a[0] }
	nop := func(w *World, fr *frame, a []Value) Value { return nil }
	scalar := func(kind string, width uint8) intrinsic {
		return func(w *World, fr *frame, a []Value) Value {
			return w.input(cstr(w, a[0]), kind, width, 1)[0]
		}
	}
	intrinsics = map[string]intrinsic{
		S + "Bool": func(w *World, fr *frame, a []Value) Value {
			t := w.input(cstr(w, a[0]), "bool", 8, 1)[0]
			w.assume(w.T.Ule(t, w.T.Const(8, 1)))
			return w.T.Eq(t, w.T.Const(8, 1))
		},
		S + "Uint8":   scalar("u8", 8),
		S + "Int8":    scalar("i8", 8),
		S + "Uint16":  scalar("u16", 16),
		S + "Int16":   scalar("i16", 16),
		S + "Uint32":  scalar("u32", 32),
		S + "Int32":   scalar("i32", 32),
		S + "Uint64":  scalar("u64", 64),
		S + "Int64":   scalar("i64", 64),
		S + "Int":     scalar("i64", 64),
		S + "Float64": scalar("f64", 64),
		S + "Float32": scalar("f32", 32),
		S + "Bytes": func(w *World, fr *frame, a []Value) Value {
			n := w.concreteInt(a[1].(*Term))
			ts := w.input(cstr(w, a[0]), "bytes", 8, n)
			out := make(Slice, n)
			for i := range ts {
				out[i] = ts[i]
			}
			return out
		},
		S + "String": func(w *World, fr *frame, a []Value) Value {
			n := w.concreteInt(a[1].(*Term))
			return mkStr(w.input(cstr(w, a[0]), "bytes", 8, n))
		},
		S + "Choose": func(w *World, fr *frame, a []Value) Value {
			n := w.concreteInt(a[1].(*Term))
			if n > 250 {
				unsupported("Choose > 250")
			}
			if n <= 1 {
				return intv(w, 0)
			}
			return intv(w, w.choose(cstr(w, a[0]), n))
		},
		S + "Assume": func(w *World, fr *frame, a []Value) Value {
			w.assume(a[0].(*Term))
			return nil
		},
		S + "Assert": func(w *World, fr *frame, a []Value) Value {
			w.assert(cstr(w, a[0]), a[1].(*Term))
			return nil
		},
		S + "Reach": func(w *World, fr *frame, a []Value) Value {
			w.P.reach = append(w.P.reach, cstr(w, a[0]))
			return nil
		},
		S + "Observe": func(w *World, fr *frame, a []Value) Value {
			w.P.obs = append(w.P.obs, obsRec{cstr(w, a[0]), w.bytesTerms(a[1])})
			return nil
		},
		S + "ObserveString": func(w *World, fr *frame, a []Value) Value {
			w.P.obs = append(w.P.obs, obsRec{cstr(w, a[0]), w.strTerms(a[1])})
			return nil
		},
		S + "Param": func(w *World, fr *frame, a []Value) Value {
			if v, ok := w.eng.params[cstr(w, a[0])]; ok {
				return w.T.Const(64, uint64(v))
			}
			return a[1]
		},
		S + "Symbolic": func(w *World, fr *frame, a []Value) Value { return w.T.True },
		S + "Concrete": func(w *World, fr *frame, a []Value) Value {
			t := a[0].(*Term)
			return w.T.Const(64, w.concretize(t))
		},
		S + "And": func(w *World, fr *frame, a []Value) Value {
			r := w.T.True
			for _, x := range a[0].(Slice) {
				r = w.T.And(r, x.(*Term))
			}
			return r
		},
		S + "Or": func(w *World, fr *frame, a []Value) Value {
			r := w.T.False
			for _, x := range a[0].(Slice) {
				r = w.T.Or(r, x.(*Term))
			}
			return r
		},
		S + "IteInt": func(w *World, fr *frame, a []Value) Value {
			return w.T.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
		S + "Schedules": func(w *World, fr *frame, a []Value) Value {
			w.schedAll = w.concreteInt(a[0].(*Term)) >= 0
			w.preemptBound = w.concreteInt(a[0].(*Term))
			return nil
		},
		S + "Delays": func(w *World, fr *frame, a []Value) Value {
			w.schedAll = w.concreteInt(a[0].(*Term)) >= 0
			w.delayBound, w.delays = w.concreteInt(a[0].(*Term)), 0
			w.preemptBound = 0
			return nil
		},
		S + "TimersAnytime": func(w *World, fr *frame, a []Value) Value { w.timersAny = w.concreteInt(a[0].(*Term)); return nil },
		S + "DetectRaces": func(w *World, fr *frame, a []Value) Value {
			w.race = newRace()
			w.cur.tick()
			return nil
		},
		S + "Yield":     func(w *World, fr *frame, a []Value) Value { w.yield(); return nil },
		S + "LastPanic": func(w *World, fr *frame, a []Value) Value { return w.lastSite },
		S + "SetClock":  func(w *World, fr *frame, a []Value) Value { w.clock = a[0].(*Term); return nil },
		S + "Advance": func(w *World, fr *frame, a []Value) Value {
			w.nclock += w.concreteInt(a[0].(*Term)) / 1000000
			return nil
		},
		S + "Debug": func(w *World, fr *frame, a []Value) Value {
			if w.eng.opt.Debug {
				fmt.Println("DEBUG", describe(w, a[0].(Iface)))
			}
			return nil
		},

		// math
		"math.Float64bits":     ident,
		"math.Float64frombits": ident,
		"math.Float32bits":     ident,
		"math.Float32frombits": ident,
		"math.archFloor":       func(w *World, fr *frame, a []Value) Value { return w.T.FUn(OFRound, 64, a[0].(*Term), 1) },
		"math.archLog": func(w *World, fr *frame, a []Value) Value {
			x := a[0].(*Term)
			if !x.isConst() {
				unsupported("logarithm of a symbolic value")
			}
			return w.T.Const(64, math.Float64bits(math.Log(math.Float64frombits(x.c))))
		},
		"math.archCeil":  func(w *World, fr *frame, a []Value) Value { return w.T.FUn(OFRound, 64, a[0].(*Term), 2) },
		"math.archTrunc": func(w *World, fr *frame, a []Value) Value { return w.T.FUn(OFRound, 64, a[0].(*Term), 0) },
		"math.Floor":     func(w *World, fr *frame, a []Value) Value { return w.T.FUn(OFRound, 64, a[0].(*Term), 1) },
		"math.Ceil":      func(w *World, fr *frame, a []Value) Value { return w.T.FUn(OFRound, 64, a[0].(*Term), 2) },
		"math.Trunc":     func(w *World, fr *frame, a []Value) Value { return w.T.FUn(OFRound, 64, a[0].(*Term), 0) },
		"math.Sqrt":      func(w *World, fr *frame, a []Value) Value { return w.T.FUn(OFSqrt, 64, a[0].(*Term), 0) },
		"math.sqrt":      func(w *World, fr *frame, a []Value) Value { return w.T.FUn(OFSqrt, 64, a[0].(*Term), 0) },
		"math.Abs": func(w *World, fr *frame, a []Value) Value {
			t := a[0].(*Term)
			return w.T.BAnd(t, w.T.Const(64, 1<<63-1))
		},
		"math.IsNaN": func(w *World, fr *frame, a []Value) Value {
			t := a[0].(*Term)
			return w.T.Ult(w.T.Const(64, 0x7ff0000000000000), w.T.BAnd(t, w.T.Const(64, 1<<63-1)))
		},
		"math/bits.Mul64": func(w *World, fr *frame, a []Value) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			return Tuple{w.T.UMulH(x, y), w.T.Mul(x, y)}
		},
		"math/bits.LeadingZeros64":  bitFn(func(x uint64) int { return bits.LeadingZeros64(x) }, 64, "lz"),
		"math/bits.Len64":           bitFn(func(x uint64) int { return bits.Len64(x) }, 64, "len"),
		"math/bits.Len32":           bitFn(func(x uint64) int { return bits.Len32(uint32(x)) }, 32, "len"),
		"math/bits.Len":             bitFn(func(x uint64) int { return bits.Len64(x) }, 64, "len"),
		"math/bits.TrailingZeros64": bitFn(func(x uint64) int { return bits.TrailingZeros64(x) }, 64, "tz"),
		"math/bits.TrailingZeros32": bitFn(func(x uint64) int { return bits.TrailingZeros32(uint32(x)) }, 32, "tz"),

		// bytealg and friends
		"internal/bytealg.Equal":           bytesEqual,
		"bytes.Equal":                      bytesEqual,
		"internal/bytealg.Compare":         bytesCompare,
		"bytes.Compare":                    bytesCompare,
		"internal/bytealg.CompareString":   bytesCompare,
		"strings.Compare":                  bytesCompare,
		"internal/bytealg.IndexByte":       indexByte,
		"internal/bytealg.IndexByteString": indexByte,
		"bytes.IndexByte":                  indexByte,
		"strings.IndexByte":                indexByte,
		"internal/stringslite.IndexByte":   indexByte,
		"internal/bytealg.Count":           countByte,
		"internal/bytealg.CountString":     countByte,
		"internal/bytealg.Index":           indexSub,
		"internal/bytealg.IndexString":     indexSub,
		"bytes.Index":                      indexSub,
		"strings.Index":                    indexSub,
		"internal/stringslite.Index":       indexSub,
		"internal/bytealg.MakeNoZero": func(w *World, fr *frame, a []Value) Value {
			return w.newSlice(types.Typ[types.Uint8], w.concreteInt(a[0].(*Term)), w.concreteInt(a[0].(*Term)))
		},
		"(*strings.Builder).copyCheck": nop,
		"internal/abi.NoEscape":        ident,
		"internal/abi.Escape":          ident,
		"runtime.KeepAlive":            nop,
		"runtime.SetFinalizer":         nop,
		"runtime.GC":                   nop,
		"runtime.Gosched":              func(w *World, fr *frame, a []Value) Value { w.yield(); return nil },
		"runtime.NumGoroutine":         func(w *World, fr *frame, a []Value) Value { return intv(w, len(w.gs)) },

		"runtime.NumCgoCall":                        func(w *World, fr *frame, a []Value) Value { return intv(w, 0) },
		"runtime.GOMAXPROCS":                        func(w *World, fr *frame, a []Value) Value { return intv(w, 8) },
		"runtime.NumCPU":                            func(w *World, fr *frame, a []Value) Value { return intv(w, 8) },
		"internal/godebug.New":                      func(w *World, fr *frame, a []Value) Value { p := new(Value); *p = w.zero(godebugSetting(w)); return p },
		"(*internal/godebug.Setting).Value":         func(w *World, fr *frame, a []Value) Value { return "" },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"(*internal/godebug.Setting).Name":          func(w *World, fr *frame, a []Value) Value { return "" },
		"os.Getpid":                                 func(w *World, fr *frame, a []Value) Value { return intv(w, 4242) },
		"os.Hostname":                               func(w *World, fr *frame, a []Value) Value { return Tuple{"host", Iface{}} },

		// randomness
		"crypto/rand.Read": func(w *World, fr *frame, a []Value) Value {
			s := a[0].(Slice)
			for i, t := range w.input("rand", "rand", 8, len(s)) {
				s[i] = t
			}
			return Tuple{intv(w, len(s)), Iface{}}
		},
		"(*crypto/rand.reader).Read": func(w *World, fr *frame, a []Value) Value {
			s := a[1].(Slice)
			for i, t := range w.input("rand", "rand", 8, len(s)) {
				s[i] = t
			}
			return Tuple{intv(w, len(s)), Iface{}}
		},
		"math/rand.Intn": func(w *World, fr *frame, a []Value) Value {
			n := w.concreteInt(a[0].(*Term))
			t := w.input("rand", "rand", 64, 1)[0]
			w.assume(w.T.Ult(t, w.T.Const(64, uint64(n))))
			return t
		},
		"math/rand.Int63n": func(w *World, fr *frame, a []Value) Value {
			n := a[0].(*Term)
			t := w.input("rand", "rand", 64, 1)[0]
			w.assume(w.T.And(w.T.Slt(t, n), w.T.Sle(w.T.Const(64, 0), t)))
			return t
		},
		"math/rand.Float64": func(w *World, fr *frame, a []Value) Value {
			t := w.input("rand", "rand", 64, 1)[0]
			w.assume(w.T.FCmp(OFLt, t, w.T.Const(64, 0x3ff0000000000000)))
			w.assume(w.T.FCmp(OFLe, w.T.Const(64, 0), t))
			return t
		},

		// errors
		"internal/reflectlite.TypeOf": func(w *World, fr *frame, a []Value) Value {
			unsupported("reflectlite.TypeOf from " + w.site())
			return nil
		},
		"errors.Is":      errorsIs,
		"errors.As":      errorsAs,
		"reflect.TypeOf": func(w *World, fr *frame, a []Value) Value { unsupported("reflect.TypeOf from " + w.site()); return nil },

		// sort.Slice family
		"sort.symLen": func(w *World, fr *frame, a []Value) Value { return intv(w, len(a[0].(Iface).v.(Slice))) },
		"sort.symSwap": func(w *World, fr *frame, a []Value) Value {
			s := a[0].(Iface).v.(Slice)
			p, q := &s[a[1].(*Term).c], &s[a[2].(*Term).c]
			x, y := copyVal(*p), copyVal(*q)
			storeInto(p, y)
			storeInto(q, x)
			return nil
		},

		// model support (overlay/sync, overlay/fmt, overlay/time)
		"sync.symLock":    symLock,
		"sync.symUnlock":  symUnlock,
		"sync.symTryLock": symTryLock,
		"sync.symRLock":   symRLock,
		"sync.symRUnlock": symRUnlock,
		"sync.symWLock":   symWLock,
		"sync.symWaitZero": func(w *World, fr *frame, a []Value) Value {
			p := a[0].(Ptr)
			w.block(func() bool { t := (*p).(*Term); return t.isConst() && t.c == 0 })
			if w.race != nil {
				w.race.acquire(w.cur, p)
			}
			return nil
		},
		"sync.symWaitTrue": func(w *World, fr *frame, a []Value) Value {
			p := a[0].(Ptr)
			w.block(func() bool { t := (*p).(*Term); return t.isConst() && t.c == 1 })
			if w.race != nil {
				w.race.acquire(w.cur, p)
			}
			return nil
		},
		"sync.symRelease": func(w *World, fr *frame, a []Value) Value {
			if w.race != nil {
				w.race.release(w.cur, a[0].(Ptr))
			}
			return nil
		},
		"sync.symAcquire": func(w *World, fr *frame, a []Value) Value {
			if w.race != nil {
				w.race.acquire(w.cur, a[0].(Ptr))
			}
			return nil
		},
		"sync/atomic.symAtomic": func(w *World, fr *frame, a []Value) Value {
			w.preempt()
			if w.race != nil {
				p := w.ptr(a[0].(UPtr).v)
				w.race.acquire(w.cur, p)
				w.race.release(w.cur, p)
			}
			return nil
		},
		"fmt.symTypeName": func(w *World, fr *frame, a []Value) Value {
			i := a[0].(Iface)
			if i.t == nil {
				return "<nil>"
			}
			return types.TypeString(i.t, func(p *types.Package) string { return p.Name() })
		},
		"fmt.symBasic": fmtBasic,
		"fmt.symElems": fmtElems,

		// time
		"time.now": func(w *World, fr *frame, a []Value) Value { // (sec int64, nsec int32, mono int64)
			ns := w.now()
			T := w.T
			var sec, nsec *Term
			if ns.isConst() {
				sec = T.Const(64, ns.c/1e9)
				nsec = T.Const(32, ns.c%1e9)
			} else {
				sec = T.Udiv(ns, T.Const(64, 1e9))
				nsec = T.Extract(31, 0, T.Urem(ns, T.Const(64, 1e9)))
			}
			return Tuple{sec, nsec, T.Add(ns, T.Const(64, clockNeg))}
		},
		"time.runtimeNano": func(w *World, fr *frame, a []Value) Value { return w.T.Add(w.now(), w.T.Const(64, clockNeg)) },
		"time.runtimeNow":  nil,
		"time.initLocal":   nop,
		"time.symTimerWait": func(w *World, fr *frame, a []Value) Value {
			g := w.cur
			w.startTimer(g, a[0].(Ptr), a[1])
			parked := false
			w.noPreempt++
			w.block(func() bool {
				if !parked {
					parked = true
					return false
				}
				return true
			})
			w.noPreempt--
			w.endTimer(g)
			return nil
		},
		"time.symSleep": func(w *World, fr *frame, a []Value) Value {
			g := w.cur
			rs, _ := w.runnable()
			if len(rs) > 1 || w.schedAll {
				w.startTimer(g, nil, nil)
				parked := false
				w.block(func() bool {
					if !parked {
						parked = true
						return false
					}
					return true
				})
				w.endTimer(g)
			}
			return nil
		},
	}
	intrinsics["time.runtimeNow"] = intrinsics["time.now"]
}

const clockBase = 1700000000000000000

var clockNeg = ^uint64(clockBase) + 2

func (w *World) now() *Term {
	if w.clock == nil {
		w.nclock++
		return w.T.Const(64, uint64(clockBase+int64(w.nclock)*1000000))
	}
	return w.clock
}

func godebugSetting(w *World) types.Type {
	return w.eng.prog.ImportedPackage("internal/godebug").Type("Setting").Type()
}

func describe(w *World, i Iface) string {
	if i.t == nil {
		return "nil"
	}
	return fmt.Sprintf("%s: %v", i.t, descVal(w, i.v, 0))
}

func descVal(w *World, v Value, d int) string {
	if d > 4 {
		return "..."
	}
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("%d", x.c)
		}
		return fmt.Sprintf("<%d:%s>", x.w, w.T.ref(x))
	case Ptr:
		if x == nil {
			return "nil"
		}
		return "&" + descVal(w, *x, d+1)
	case Slice:
		var p []string
		for _, e := range x {
			p = append(p, descVal(w, e, d+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Struct:
		var p []string
		for _, e := range x {
			p = append(p, descVal(w, e, d+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Array:
		return descVal(w, Slice(x), d)
	case Iface:
		return describe(w, x)
	case *SymStr:
		return fmt.Sprintf("symstr(%d)", len(x.b))
	}
	return fmt.Sprintf("%v", v)
}

func bitFn(f func(uint64) int, width uint8, kind string) intrinsic {
	return func(w *World, fr *frame, a []Value) Value {
		t := a[0].(*Term)
		T := w.T
		if t.isConst() {
			return intv(w, f(t.c))
		}
		r := T.Const(64, uint64(f(0)))
		if kind == "tz" {
			for i := int(width) - 1; i >= 0; i-- {
				r = T.Ite(T.Eq(T.Extract(uint8(i), uint8(i), t), T.Const(1, 1)), T.Const(64, uint64(i)), r)
			}
			return r
		}
		for i := 0; i < int(width); i++ {
			r = T.Ite(T.Eq(T.Extract(uint8(i), uint8(i), t), T.Const(1, 1)), T.Const(64, uint64(f(uint64(1)<<i))), r)
		}
		return r
	}
}

func bytesEqual(w *World, fr *frame, a []Value) Value {
	x, y := w.bytesTerms(a[0]), w.bytesTerms(a[1])
	if len(x) != len(y) {
		return w.T.False
	}
	return w.termsEq(x, y)
}

func bytesCompare(w *World, fr *frame, a []Value) Value {
	x, y := w.bytesTerms(a[0]), w.bytesTerms(a[1])
	T := w.T
	if len(x) == len(y) {
		eq := w.termsEq(x, y)
		return T.Ite(eq, T.Const(64, 0), T.Ite(w.termsLess(x, y), T.Const(64, ^uint64(0)), T.Const(64, 1)))
	}
	return T.Ite(w.termsLess(x, y), T.Const(64, ^uint64(0)), T.Const(64, 1))
}

func indexByte(w *World, fr *frame, a []Value) Value {
	x := w.bytesTerms(a[0])
	c := a[1].(*Term)
	for i, t := range x {
		if w.decide(w.T.Eq(t, c)) {
			return intv(w, i)
		}
	}
	return intv(w, -1)
}

func countByte(w *World, fr *frame, a []Value) Value {
	x := w.bytesTerms(a[0])
	c := a[1].(*Term)
	r := w.T.Const(64, 0)
	for _, t := range x {
		r = w.T.Add(r, w.T.Ite(w.T.Eq(t, c), w.T.Const(64, 1), w.T.Const(64, 0)))
	}
	return r
}

func indexSub(w *World, fr *frame, a []Value) Value {
	x, y := w.bytesTerms(a[0]), w.bytesTerms(a[1])
	for i := 0; i+len(y) <= len(x); i++ {
		if w.decide(w.termsEq(x[i:i+len(y)], y)) {
			return intv(w, i)
		}
	}
	return intv(w, -1)
}

// ---- errors.Is / errors.As

func (w *World) methodByName(t types.Type, name string) *ssa.Function {
	ms := w.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.eng.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func errorsIs(w *World, fr *frame, a []Value) Value {
	err, target := a[0].(Iface), a[1].(Iface)
	if err.t == nil || target.t == nil {
		return w.T.Bool(err.t == nil && target.t == nil)
	}
	return w.T.Bool(w.errIs(err, target, fr, 0))
}

func (w *World) errIs(err, target Iface, fr *frame, d int) bool {
	if d > 50 {
		unsupported("errors.Is depth")
	}
	for err.t != nil {
		if types.Comparable(err.t) && types.Comparable(target.t) {
			if w.decide(w.equal(err, target)) {
				return true
			}
		}
		if m := w.methodByName(err.t, "Is"); m != nil && m.Signature.Params().Len() == 1 && m.Signature.Results().Len() == 1 {
			r := w.call(m, []Value{err.v, target}, nil, fr)
			if t, ok := r.(*Term); ok && w.decide(t) {
				return true
			}
		}
		m := w.methodByName(err.t, "Unwrap")
		if m == nil || m.Signature.Params().Len() != 0 {
			return false
		}
		switch r := w.call(m, []Value{err.v}, nil, fr).(type) {
		case Iface:
			err = r
		case Slice:
			for _, e := range r {
				if w.errIs(e.(Iface), target, fr, d+1) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func errorsAs(w *World, fr *frame, a []Value) Value {
	err, target := a[0].(Iface), a[1].(Iface)
	if target.t == nil {
		w.rtPanic("errors: target cannot be nil")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		w.rtPanic("errors: target must be a non-nil pointer")
	}
	return w.T.Bool(w.errAs(err, pt.Elem(), target, fr))
}

func (w *World) errAs(err Iface, et types.Type, target Iface, fr *frame) bool {
	for err.t != nil {
		if it, ok := et.Underlying().(*types.Interface); ok {
			if w.eng.implements(err.t, it) {
				w.store(w.ptr(target.v), err)
				return true
			}
		} else if w.eng.identical(err.t, et) {
			w.store(w.ptr(target.v), err.v)
			return true
		}
		if m := w.methodByName(err.t, "As"); m != nil && m.Signature.Params().Len() == 1 {
			r := w.call(m, []Value{err.v, target}, nil, fr)
			if t, ok := r.(*Term); ok && w.decide(t) {
				return true
			}
		}
		m := w.methodByName(err.t, "Unwrap")
		if m == nil || m.Signature.Params().Len() != 0 {
			return false
		}
		switch r := w.call(m, []Value{err.v}, nil, fr).(type) {
		case Iface:
			err = r
		case Slice:
			for _, e := range r {
				if w.errAs(e.(Iface), et, target, fr) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// ---- sync primitives

func isSet(p Ptr) bool { t := (*p).(*Term); return t.isConst() && t.c != 0 }

func symLock(w *World, fr *frame, a []Value) Value {
	p := a[0].(Ptr)
	w.preempt()
	w.block(func() bool { return !isSet(p) })
	*p = w.T.True
	if w.race != nil {
		w.race.acquire(w.cur, p)
	}
	return nil
}
func symUnlock(w *World, fr *frame, a []Value) Value {
	p := a[0].(Ptr)
	if !isSet(p) {
		panic(pathEnd{"fatal", "sync: unlock of unlocked mutex"})
	}
	if w.race != nil {
		w.race.release(w.cur, p)
	}
	*p = w.T.False
	w.preempt()
	return nil
}
func symTryLock(w *World, fr *frame, a []Value) Value {
	p := a[0].(Ptr)
	w.preempt()
	if isSet(p) {
		return w.T.False
	}
	*p = w.T.True
	if w.race != nil {
		w.race.acquire(w.cur, p)
	}
	return w.T.True
}
func symRLock(w *World, fr *frame, a []Value) Value {
	p, r := a[0].(Ptr), a[1].(Ptr)
	w.preempt()
	w.block(func() bool { return !isSet(p) })
	*r = w.T.Add((*r).(*Term), w.T.Const(64, 1))
	if w.race != nil {
		w.race.acquire(w.cur, p)
	}
	return nil
}
func symRUnlock(w *World, fr *frame, a []Value) Value {
	p, r := a[0].(Ptr), a[1].(Ptr)
	if !isSet(r) {
		panic(pathEnd{"fatal", "sync: RUnlock of unlocked RWMutex"})
	}
	*r = w.T.Sub((*r).(*Term), w.T.Const(64, 1))
	if w.race != nil {
		w.race.release(w.cur, r)
	}
	_ = p
	w.preempt()
	return nil
}
func symWLock(w *World, fr *frame, a []Value) Value {
	p, r := a[0].(Ptr), a[1].(Ptr)
	w.preempt()
	w.block(func() bool { return !isSet(p) && !isSet(r) })
	*p = w.T.True
	if w.race != nil {
		w.race.acquire(w.cur, p)
		w.race.acquire(w.cur, r)
	}
	return nil
}

// ---- fmt support

// fmtBasic normalises a value of any named basic type to the corresponding predeclared type.
// returns (kind, int64 bits, string, float bits): kind 0 none, 1 signed, 2 unsigned, 3 string, 4 float, 5 bool, 6 []byte
func fmtBasic(w *World, fr *frame, a []Value) Value {
	i := a[0].(Iface)
	T := w.T
	none := Tuple{intv(w, 0), T.Const(64, 0), ""}
	if i.t == nil {
		return none
	}
	switch u := i.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Tuple{intv(w, 3), T.Const(64, 0), i.v}
		case u.Info()&types.IsBoolean != 0:
			return Tuple{intv(w, 5), T.Ite(i.v.(*Term), T.Const(64, 1), T.Const(64, 0)), ""}
		case u.Info()&types.IsFloat != 0:
			t := i.v.(*Term)
			if t.w == 32 {
				return Tuple{intv(w, 7), T.FUn(OF2F, 64, t, 0), ""}
			}
			return Tuple{intv(w, 4), t, ""}
		case u.Info()&types.IsInteger != 0:
			t := i.v.(*Term)
			if u.Info()&types.IsUnsigned != 0 {
				return Tuple{intv(w, 2), T.Zext(t, 64), ""}
			}
			return Tuple{intv(w, 1), T.Sext(t, 64), ""}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return Tuple{intv(w, 6), T.Const(64, 0), mkStr(w.bytesTerms(i.v))}
		}
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return Tuple{intv(w, 8), T.Const(64, 0), mkStr(w.bytesTerms(i.v))}
		}
	}
	return none
}

// fmtElems flattens slices for %v: returns []any and ok.
func fmtElems(w *World, fr *frame, a []Value) Value {
	i := a[0].(Iface)
	if i.t == nil {
		return Tuple{Slice(nil), w.T.False}
	}
	switch u := i.t.Underlying().(type) {
	case *types.Slice:
		var out Slice
		for _, e := range i.v.(Slice) {
			if ie, ok := e.(Iface); ok {
				out = append(out, ie)
			} else {
				out = append(out, Iface{t: u.Elem(), v: e})
			}
		}
		return Tuple{out, w.T.True}
	}
	return Tuple{Slice(nil), w.T.False}
}
