package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type ref int32

type inst struct {
	in  ssa.Instruction
	dst ref
	ops []ref
	// pre-computed extras
	w      uint8
	signed bool
	flt    bool
	x      any
	onlyLd bool
}

type phiInfo struct {
	dst   ref
	edges []ref
}

type block struct {
	phis  []phiInfo
	insts []inst
	succs []int
	preds []*ssa.BasicBlock
}

type fcode struct {
	fn      *ssa.Function
	nregs   int
	consts  []Value
	blocks  []block
	intr    func(w *World, caller *frame, args []Value) Value
	recov   int // recover block or -1
	inRepo  bool
	model   bool
	name    string
	nparams int
}

type deferred struct {
	fn   Value // *Closure or builtin or invoke
	bi   *ssa.Builtin
	args []Value
	pos  token.Pos
	next *deferred
}

type frame struct {
	w         *World
	code      *fcode
	regs      []Value
	env       []Value
	caller    *frame
	defers    *deferred
	result    Value
	panicking bool
	pval      *targetPanic
	recovered bool
	curInst   ssa.Instruction
	g         *G
}

type targetPanic struct {
	v    Value // Iface
	site string
	rt   bool
	exit bool // runtime.Goexit
}

type pathEnd struct {
	kind string // "done","infeasible","violation","truncated","unsupported","hang","deadlock"
	msg  string
}

func unsupported(msg string) {
	panic(pathEnd{"unsupported", msg})
}

type globalRef struct{ g *ssa.Global }

func (w *World) codeOf(fn *ssa.Function) *fcode {
	if c, ok := w.codes[fn]; ok {
		return c
	}
	c := w.compile(fn)
	w.codes[fn] = c
	return c
}

func (w *World) compile(fn *ssa.Function) *fcode {
	name := fn.String()
	c := &fcode{fn: fn, recov: -1, name: name, nparams: len(fn.Params)}
	c.inRepo = w.eng.inRepo(fn)
	c.model = w.eng.modelled(fn)
	if f, ok := intrinsics[name]; ok {
		c.intr = f
		return c
	}
	if o := fn.Origin(); o != nil && o != fn {
		if f, ok := intrinsics[o.String()]; ok {
			c.intr = f
			return c
		}
	}
	if r, ok := redirects[name]; ok {
		pkg := "memfs"
		if p, f, ok := strings.Cut(r, "."); ok {
			pkg, r = p, f
		}
		if p := w.eng.prog.ImportedPackage(symPkg + "/" + pkg); p != nil {
			return w.compile(p.Func(r))
		}
	}
	if fn.Blocks == nil {
		c.intr = func(w *World, caller *frame, args []Value) Value {
			unsupported("no body: " + name)
			return nil
		}
		return c
	}
	idx := map[ssa.Value]ref{}
	n := ref(0)
	for _, p := range fn.Params {
		idx[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		idx[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				idx[v] = n
				n++
			}
		}
	}
	c.nregs = int(n)
	cidx := map[ssa.Value]ref{}
	get := func(v ssa.Value) ref {
		if v == nil {
			return -1 << 30
		}
		if r, ok := idx[v]; ok {
			return r
		}
		if r, ok := cidx[v]; ok {
			return r
		}
		var cv Value
		switch v := v.(type) {
		case *ssa.Const:
			cv = w.constVal(v)
		case *ssa.Global:
			cv = globalRef{v}
		case *ssa.Function:
			cv = &Closure{fn: v}
		case *ssa.Builtin:
			cv = v
		default:
			panic(fmt.Sprintf("compile: %T", v))
		}
		c.consts = append(c.consts, cv)
		r := ref(-len(c.consts))
		cidx[v] = r
		return r
	}
	c.blocks = make([]block, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		blk := &c.blocks[bi]
		blk.preds = b.Preds
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, s.Index)
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				p := phiInfo{dst: idx[in]}
				for _, e := range in.Edges {
					p.edges = append(p.edges, get(e))
				}
				blk.phis = append(blk.phis, p)
				continue
			case *ssa.DebugRef:
				continue
			}
			it := inst{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				it.dst = idx[v]
			}
			switch in := in.(type) {
			case *ssa.Call:
				it.ops = callOps(in.Common(), get)
			case *ssa.Go:
				it.ops = callOps(in.Common(), get)
			case *ssa.Defer:
				it.ops = callOps(in.Common(), get)
			case *ssa.Slice:
				it.ops = []ref{get(in.X), get(in.Low), get(in.High), get(in.Max)}
			case *ssa.Select:
				for _, s := range in.States {
					it.ops = append(it.ops, get(s.Chan))
					it.ops = append(it.ops, get(s.Send))
				}
			default:
				var rands [8]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					it.ops = append(it.ops, get(*op))
				}
			}
			switch in := in.(type) {
			case *ssa.BinOp:
				t := in.X.Type().Underlying()
				if b, ok := t.(*types.Basic); ok {
					if b.Info()&types.IsString != 0 {
						it.x = "str"
					} else if b.Info()&types.IsComplex != 0 {
						it.x = "cplx"
					} else if b.Kind() != types.UnsafePointer && b.Kind() != types.UntypedNil {
						it.w, it.signed, it.flt = basicInfo(t)
						it.x = "num"
						if in.Op == token.SHL || in.Op == token.SHR {
							_, ys, _ := basicInfo(in.Y.Type())
							it.x = "shift"
							it.onlyLd = ys
						}
					}
				} else if types.IsInterface(t) {
					it.x = "iface"
				}
			case *ssa.IndexAddr:
				it.onlyLd = true
				_, it.signed, _ = basicInfo(in.Index.Type())
				for _, r := range *in.Referrers() {
					switch u := r.(type) {
					case *ssa.UnOp:
						if u.Op != token.MUL {
							it.onlyLd = false
						}
					case *ssa.DebugRef:
					default:
						it.onlyLd = false
					}
				}
			case *ssa.Index:
				_, it.signed, _ = basicInfo(in.Index.Type())
			case *ssa.UnOp:
				if in.Op == token.SUB || in.Op == token.XOR {
					it.w, it.signed, it.flt = basicInfo(in.X.Type())
				}
			}
			blk.insts = append(blk.insts, it)
		}
	}
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
	}
	return c
}

func callOps(c *ssa.CallCommon, get func(ssa.Value) ref) []ref {
	out := []ref{get(c.Value)}
	for _, a := range c.Args {
		out = append(out, get(a))
	}
	return out
}

func (w *World) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return w.zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		info := b.Info()
		switch {
		case info&types.IsBoolean != 0:
			return w.T.Bool(constant.BoolVal(c.Value))
		case info&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case info&types.IsFloat != 0:
			f := c.Float64()
			bw, _, _ := basicInfo(t)
			if bw == 32 {
				f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
				return w.T.Const(32, uint64(math.Float32bits(f32)))
			}
			return w.T.Const(64, math.Float64bits(f))
		case info&types.IsInteger != 0:
			bw, signed, _ := basicInfo(t)
			if signed {
				return w.T.Const(bw, uint64(c.Int64()))
			}
			return w.T.Const(bw, c.Uint64())
		case info&types.IsComplex != 0:
			return nil
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		// typed constant to type-param/any cannot occur here
	}
	panic(fmt.Sprintf("constVal %v %v", c, t))
}

func (fr *frame) get(r ref) Value {
	if r >= 0 {
		return fr.regs[r]
	}
	c := fr.code.consts[-r-1]
	if g, ok := c.(globalRef); ok {
		return fr.w.globalAddr(g.g)
	}
	return c
}

const nilRef = ref(-1 << 30)

// ---- globals and package initialisation

func (w *World) globalAddr(g *ssa.Global) Ptr {
	if w.eng.isStd(g.Pkg) {
		if p, ok := w.stdGlobals[g]; ok {
			return p
		}
	} else if p, ok := w.P.globals[g]; ok {
		return p
	}
	w.initPackage(g.Pkg)
	if w.eng.isStd(g.Pkg) {
		return w.stdGlobals[g]
	}
	return w.P.globals[g]
}

func (w *World) initPackage(pkg *ssa.Package) {
	std := w.eng.isStd(pkg)
	m := w.stdGlobals
	if !std {
		m = w.P.globals
	}
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			p := new(Value)
			*p = w.zero(g.Type().(*types.Pointer).Elem())
			m[g] = p
		}
	}
	if pkg.Pkg.Path() == "os" {
		if fs := w.eng.prog.ImportedPackage("io/fs"); fs != nil {
			for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
				*m[pkg.Var(n)] = *w.globalAddr(fs.Var(n))
			}
		}
	}
	if pkg.Pkg.Path() == "net" {
		if mn := w.eng.prog.ImportedPackage(symPkg + "/memnet"); mn != nil {
			*m[pkg.Var("ErrClosed")] = *w.globalAddr(mn.Var("ErrClosed"))
		}
	}
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	if f := pkg.Func("init"); f != nil {
		saved := w.initDepth
		w.initDepth++
		sg := w.noPreempt
		w.noPreempt++
		w.call(f, nil, nil, nil)
		w.initDepth = saved
		w.noPreempt = sg
	}
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "net": true, "internal/godebug": true,
	"internal/cpu": true, "crypto/internal/fips140/check": true, "crypto/tls": true,
	"crypto/x509": true, "internal/poll": true, "reflect": true,
	"math/big": false, "crypto/internal/boring": true, "time": false, "vendor/golang.org/x/sys/cpu": true,
	"internal/syscall/unix": true, "internal/runtime/maps": true, "internal/testlog": true,
	"crypto/internal/sysrand": true, "log": true, "encoding/gob": true,
}

// ---- calls

func (w *World) call(fn *ssa.Function, args []Value, env []Value, caller *frame) Value {
	code := w.codeOf(fn)
	if code.intr != nil {
		w.eng.noteIntr(code.name)
		return code.intr(w, caller, args)
	}
	// package init calls of dependencies are lazy
	if fn.Synthetic == "package initializer" && caller != nil {
		return nil
	}
	g := w.cur
	g.depth++
	if g.depth > 3000 {
		panic(pathEnd{"hang", "call depth > 3000 in " + code.name})
	}
	if code.inRepo && !w.seenFn[fn] {
		w.seenFn[fn] = true
		w.eng.noteFn(code.name)
	}
	fr := &frame{w: w, code: code, env: env, caller: caller, g: g}
	fr.regs = make([]Value, code.nregs)
	copy(fr.regs, args)
	copy(fr.regs[code.nparams:], env)
	savedTop := g.top
	g.top = fr
	fr.run()
	g.top = savedTop
	g.depth--
	return fr.result
}

func (fr *frame) run() {
	w := fr.w
	bi := 0
	depth := w.cur.depth
	for {
		done, tp := fr.runBlocks(bi)
		if done {
			return
		}
		// a target panic reached this frame
		w.cur.depth = depth
		w.cur.top = fr
		fr.panicking = true
		fr.pval = tp
		fr.runDefers()
		// recovered
		if fr.code.recov >= 0 {
			bi = fr.code.recov
			continue
		}
		// no named results: zero results
		fr.result = w.zeroResults(fr.code.fn)
		return
	}
}

func (w *World) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(r.At(0).Type())
	}
	return w.zero(r)
}

// runBlocks executes from block bi; returns (true,nil) on return, (false,p) when a target panic
// reaches a frame that has defers.
func (fr *frame) runBlocks(bi int) (done bool, tp *targetPanic) {
	defer func() {
		if done {
			return
		}
		r := recover()
		if r == nil {
			panic("internal: runBlocks exit")
		}
		if p, ok := r.(*targetPanic); ok {
			if fr.defers == nil {
				panic(r)
			}
			tp = p
			return
		}
		panic(r)
	}()
	fr.loop(bi)
	done = true
	return
}

// runDefers runs deferred calls; if panicking and not recovered, re-panics.
func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking && !fr.recovered {
		panic(fr.pval)
	}
	if fr.recovered {
		fr.panicking = false
		fr.recovered = false
		fr.pval = nil
	}
}

func (fr *frame) runDefer(d *deferred) {
	w := fr.w
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		if p, isT := r.(*targetPanic); isT {
			// panic in deferred call replaces the current one
			fr.panicking = true
			fr.recovered = false
			fr.pval = p
			return
		}
		panic(r)
	}()
	if d.bi != nil {
		w.callBuiltin(fr, d.bi, d.args, nil)
	} else {
		w.callClosure(d.fn, d.args, fr)
	}
	if fr.recovered {
		fr.panicking = false
	}
	ok = true
	if fr.recovered {
		// keep flag until runDefers finishes; later panics reset it
		fr.pval = nil
	}
}

func (w *World) callClosure(f Value, args []Value, caller *frame) Value {
	c, ok := f.(*Closure)
	if !ok {
		panic(fmt.Sprintf("callClosure: %T", f))
	}
	if c == nil {
		w.nilDeref()
	}
	if c.nat != nil {
		return c.nat(w, args)
	}
	return w.call(c.fn, args, c.env, caller)
}

func (w *World) nilDeref() {
	w.rtPanic("invalid memory address or nil pointer dereference")
}

func (w *World) site() string {
	fr := w.cur.top
	for fr != nil {
		if fr.code.inRepo {
			return fr.code.name
		}
		fr = fr.caller
	}
	if w.cur.top != nil {
		return w.cur.top.code.name
	}
	return "?"
}

func (w *World) stack() string {
	var sb strings.Builder
	n := 0
	for fr := w.cur.top; fr != nil && n < 25; fr = fr.caller {
		pos := ""
		if fr.curInst != nil {
			pos = w.eng.prog.Fset.Position(fr.curInst.Pos()).String()
		}
		fmt.Fprintf(&sb, "  %s %s\n", fr.code.name, pos)
		n++
	}
	return sb.String()
}

func (w *World) rtPanic(msg string) {
	t := w.eng.rtErrType
	w.lastPanic = "runtime error: " + msg + "\n" + w.stack()
	panic(&targetPanic{v: Iface{t: t, v: msg}, site: w.site(), rt: true})
}

func (w *World) rtPanicPlain(msg string) { w.rtPanic(msg) }

// ---- main loop

func (fr *frame) loop(bi int) {
	w := fr.w
	code := fr.code
	prev := -1
	var tmp [8]Value
	for {
		blk := &code.blocks[bi]
		if len(blk.phis) > 0 && prev >= 0 {
			pi := -1
			for i, p := range blk.preds {
				if p.Index == prev {
					pi = i
					break
				}
			}
			vals := tmp[:0]
			for _, ph := range blk.phis {
				vals = append(vals, fr.get(ph.edges[pi]))
			}
			for i, ph := range blk.phis {
				fr.regs[ph.dst] = vals[i]
			}
		}
		w.steps += int64(len(blk.insts)) + 1
		if w.steps > w.stepLimit {
			panic(pathEnd{"hang", "step limit in " + code.name})
		}
		next := -1
		for i := range blk.insts {
			it := &blk.insts[i]
			fr.curInst = it.in
			switch in := it.in.(type) {
			case *ssa.Jump:
				next = blk.succs[0]
			case *ssa.If:
				if w.decide(fr.get(it.ops[0]).(*Term)) {
					next = blk.succs[0]
				} else {
					next = blk.succs[1]
				}
			case *ssa.Return:
				switch len(it.ops) {
				case 0:
				case 1:
					fr.result = fr.get(it.ops[0])
				default:
					t := make(Tuple, len(it.ops))
					for i, o := range it.ops {
						t[i] = fr.get(o)
					}
					fr.result = t
				}
				return
			case *ssa.BinOp:
				fr.regs[it.dst] = w.binop(it, in, fr.get(it.ops[0]), fr.get(it.ops[1]))
			case *ssa.UnOp:
				fr.regs[it.dst] = w.unop(fr, it, in, fr.get(it.ops[0]))
			case *ssa.Call:
				fr.regs[it.dst] = w.doCall(fr, &in.Call, it.ops)
			case *ssa.Alloc:
				p := new(Value)
				*p = w.zero(in.Type().Underlying().(*types.Pointer).Elem())
				fr.regs[it.dst] = p
			case *ssa.Store:
				p := w.ptr(fr.get(it.ops[0]))
				v := fr.get(it.ops[1])
				w.store(p, v)
			case *ssa.FieldAddr:
				p := w.ptr(fr.get(it.ops[0]))
				s, ok := (*p).(Struct)
				if !ok {
					unsupported(fmt.Sprintf("FieldAddr on %T in %s", *p, code.name))
				}
				fr.regs[it.dst] = &s[in.Field]
			case *ssa.Field:
				fr.regs[it.dst] = copyVal(fr.get(it.ops[0]).(Struct)[in.Field])
			case *ssa.IndexAddr:
				fr.regs[it.dst] = w.indexAddr(fr, it)
			case *ssa.Index:
				fr.regs[it.dst] = w.index(fr, it)
			case *ssa.Extract:
				fr.regs[it.dst] = fr.get(it.ops[0]).(Tuple)[in.Index]
			case *ssa.Slice:
				fr.regs[it.dst] = w.slice(fr, it, in)
			case *ssa.MakeInterface:
				fr.regs[it.dst] = Iface{t: in.X.Type(), v: copyVal(fr.get(it.ops[0]))}
			case *ssa.ChangeInterface:
				fr.regs[it.dst] = fr.get(it.ops[0])
			case *ssa.ChangeType:
				fr.regs[it.dst] = fr.get(it.ops[0])
			case *ssa.Convert:
				fr.regs[it.dst] = w.convert(fr.get(it.ops[0]), in.X.Type(), in.Type())
			case *ssa.MultiConvert:
				fr.regs[it.dst] = w.convert(fr.get(it.ops[0]), in.X.Type(), in.Type())
			case *ssa.TypeAssert:
				fr.regs[it.dst] = w.typeAssert(in, fr.get(it.ops[0]).(Iface))
			case *ssa.MakeClosure:
				c := &Closure{fn: in.Fn.(*ssa.Function)}
				for _, o := range it.ops[1:] {
					c.env = append(c.env, fr.get(o))
				}
				fr.regs[it.dst] = c
			case *ssa.MakeSlice:
				fr.regs[it.dst] = w.makeSlice(in, fr.get(it.ops[0]).(*Term), fr.get(it.ops[1]).(*Term))
			case *ssa.MakeMap:
				fr.regs[it.dst] = &Map{idx: map[string]*mapEnt{}}
			case *ssa.MakeChan:
				n := w.concreteInt(fr.get(it.ops[0]).(*Term))
				w.nchan++
				fr.regs[it.dst] = &Chan{cap: n, id: w.nchan}
			case *ssa.MapUpdate:
				w.mapSet(fr.get(it.ops[0]).(*Map), fr.get(it.ops[1]), fr.get(it.ops[2]))
			case *ssa.Lookup:
				fr.regs[it.dst] = w.lookup(in, fr.get(it.ops[0]), fr.get(it.ops[1]))
			case *ssa.Range:
				switch x := fr.get(it.ops[0]).(type) {
				case *Map:
					mi := &MapIter{}
					if x != nil {
						mi.ents = append(mi.ents, x.ents...)
					}
					fr.regs[it.dst] = mi
				default:
					fr.regs[it.dst] = &StrIter{s: x}
				}
			case *ssa.Next:
				fr.regs[it.dst] = w.next(fr, in, fr.get(it.ops[0]))
			case *ssa.Panic:
				v := fr.get(it.ops[0]).(Iface)
				if v.t == nil {
					w.rtPanic("panic called with nil argument")
				}
				w.lastPanic = "panic(" + v.t.String() + ")\n" + w.stack()
				panic(&targetPanic{v: v, site: w.site()})
			case *ssa.Defer:
				fr.pushDefer(in, it.ops)
			case *ssa.RunDefers:
				fr.runDefers()
			case *ssa.Go:
				w.goStmt(fr, in, it.ops)
			case *ssa.Send:
				w.chanSend(fr.get(it.ops[0]).(*Chan), fr.get(it.ops[1]))
			case *ssa.Select:
				fr.regs[it.dst] = w.doSelect(fr, in, it.ops)
			case *ssa.SliceToArrayPointer:
				s := fr.get(it.ops[0]).(Slice)
				n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
				if len(s) < n {
					w.rtPanic("cannot convert slice to array pointer: length too short")
				}
				p := new(Value)
				*p = Array(s[:n:n])
				if s == nil {
					p = nil
				}
				fr.regs[it.dst] = p
			default:
				unsupported(fmt.Sprintf("instr %T", in))
			}
		}
		if next < 0 {
			panic("internal: fell off block")
		}
		prev = bi
		bi = next
	}
}

func (w *World) ptr(v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		if p == nil {
			w.nilDeref()
		}
		return p
	case UPtr:
		return w.ptr(p.v)
	case nil:
		w.nilDeref()
	}
	unsupported(fmt.Sprintf("pointer of kind %T", v))
	return nil
}

func (w *World) store(p Ptr, v Value) {
	if w.race != nil {
		w.race.write(w, p)
	}
	storeInto(p, v)
}

func (fr *frame) pushDefer(in *ssa.Defer, ops []ref) {
	d := &deferred{next: fr.defers, pos: in.Pos()}
	fn, bi, args := fr.w.prepCall(fr, &in.Call, ops)
	d.fn, d.bi, d.args = fn, bi, args
	tgt := fr
	if in.DeferStack != nil {
		// range-over-func bodies defer onto the enclosing function's frame
		if ds, ok := fr.get(ops[len(ops)-1]).(*frame); ok {
			tgt = ds
		}
	}
	d.next = tgt.defers
	tgt.defers = d
}

func (w *World) prepCall(fr *frame, c *ssa.CallCommon, ops []ref) (Value, *ssa.Builtin, []Value) {
	nargs := len(c.Args)
	if c.IsInvoke() {
		recv := fr.get(ops[0]).(Iface)
		if recv.t == nil {
			w.nilDeref()
		}
		f := w.eng.lookupMethod(recv.t, c.Method)
		if f == nil {
			unsupported("no method " + c.Method.String() + " on " + recv.t.String())
		}
		args := make([]Value, 0, nargs+1)
		args = append(args, recv.v)
		for _, o := range ops[1 : 1+nargs] {
			args = append(args, fr.get(o))
		}
		return &Closure{fn: f}, nil, args
	}
	args := make([]Value, nargs)
	for i, o := range ops[1 : 1+nargs] {
		args[i] = fr.get(o)
	}
	f := fr.get(ops[0])
	if b, ok := f.(*ssa.Builtin); ok {
		return nil, b, args
	}
	return f, nil, args
}

func (w *World) doCall(fr *frame, c *ssa.CallCommon, ops []ref) Value {
	if c.IsInvoke() {
		recv := fr.get(ops[0]).(Iface)
		if recv.t == nil {
			w.nilDeref()
		}
		f := w.eng.lookupMethod(recv.t, c.Method)
		if f == nil {
			unsupported("no method " + c.Method.String() + " on " + recv.t.String())
		}
		args := make([]Value, 0, len(ops))
		args = append(args, copyVal(recv.v))
		for _, o := range ops[1:] {
			args = append(args, fr.get(o))
		}
		return w.call(f, args, nil, fr)
	}
	args := make([]Value, len(ops)-1)
	for i, o := range ops[1:] {
		args[i] = fr.get(o)
	}
	switch f := fr.get(ops[0]).(type) {
	case *ssa.Builtin:
		return w.callBuiltin(fr, f, args, c)
	case *Closure:
		return w.callClosure(f, args, fr)
	default:
		panic(fmt.Sprintf("doCall: %T", f))
	}
}

// ---- operators

func (w *World) binop(it *inst, in *ssa.BinOp, x, y Value) Value {
	T := w.T
	switch it.x {
	case "str":
		switch in.Op {
		case token.ADD:
			return w.strConcat(x, y)
		case token.EQL:
			return w.strEq(x, y)
		case token.NEQ:
			return T.Not(w.strEq(x, y))
		case token.LSS:
			return w.strLess(x, y)
		case token.GTR:
			return w.strLess(y, x)
		case token.LEQ:
			return T.Not(w.strLess(y, x))
		case token.GEQ:
			return T.Not(w.strLess(x, y))
		}
	case "cplx":
		unsupported("complex")
	case "shift":
		a, b := x.(*Term), y.(*Term)
		if it.onlyLd { // signed shift count
			if !w.decide(T.Sle(T.Const(b.w, 0), b)) {
				w.rtPanic("negative shift amount")
			}
		}
		var amt *Term
		switch {
		case b.w < a.w:
			amt = T.Zext(b, a.w)
		case b.w > a.w:
			if b.isConst() {
				amt = T.Const(a.w, min(b.c, uint64(a.w)))
			} else {
				amt = T.Ite(T.Ult(b, T.Const(b.w, uint64(a.w))), T.Extract(a.w-1, 0, b), T.Const(a.w, uint64(a.w)))
			}
		default:
			amt = b
		}
		if in.Op == token.SHL {
			return T.Shl(a, amt)
		}
		if it.signed {
			return T.Ashr(a, amt)
		}
		return T.Lshr(a, amt)
	case "num":
		a, b := x.(*Term), y.(*Term)
		if it.flt {
			switch in.Op {
			case token.ADD:
				return T.FBin(OFAdd, a, b)
			case token.SUB:
				return T.FBin(OFSub, a, b)
			case token.MUL:
				return T.FBin(OFMul, a, b)
			case token.QUO:
				return T.FBin(OFDiv, a, b)
			case token.EQL:
				return T.FCmp(OFEq, a, b)
			case token.NEQ:
				return T.Not(T.FCmp(OFEq, a, b))
			case token.LSS:
				return T.FCmp(OFLt, a, b)
			case token.LEQ:
				return T.FCmp(OFLe, a, b)
			case token.GTR:
				return T.FCmp(OFLt, b, a)
			case token.GEQ:
				return T.FCmp(OFLe, b, a)
			}
		}
		switch in.Op {
		case token.ADD, token.SUB:
			r := T.Add(a, b)
			if in.Op == token.SUB {
				r = T.Sub(a, b)
			}
			if x := T.recombine(r); x != nil {
				return x
			}
			return r
		case token.MUL:
			return T.Mul(a, b)
		case token.QUO, token.REM:
			if w.decide(T.Eq(b, T.Const(b.w, 0))) {
				w.rtPanic("integer divide by zero")
			}
			if it.signed {
				return w.divConst(a, b, in.Op == token.REM)
			}
			if in.Op == token.QUO {
				return T.Udiv(a, b)
			}
			return T.Urem(a, b)
		case token.AND:
			if a.w == 0 {
				return T.And(a, b)
			}
			if a.div && b.isConst() && b.c&(b.c+1) == 0 && w.prange(a).uh <= b.c {
				return a
			}
			return T.BAnd(a, b)
		case token.OR:
			if a.w == 0 {
				return T.Or(a, b)
			}
			r := T.BOr(a, b)
			if r.op == OZext && r.a.op == OExtract && r.a.lo == 0 && r.a.a.w == r.w && w.prange(r.a.a).uh <= mask(r.a.w) {
				return r.a.a // put together again
			}
			return r
		case token.XOR:
			if a.w == 0 {
				return T.Not(T.Eq(a, b))
			}
			return T.BXor(a, b)
		case token.AND_NOT:
			return T.BAnd(a, T.BNot(b))
		case token.EQL:
			return T.Eq(a, b)
		case token.NEQ:
			return T.Not(T.Eq(a, b))
		case token.LSS:
			a, b = w.unscale(a, b, it.signed)
			if it.signed {
				return T.Slt(a, b)
			}
			return T.Ult(a, b)
		case token.LEQ:
			a, b = w.unscale(a, b, it.signed)
			if it.signed {
				return T.Sle(a, b)
			}
			return T.Ule(a, b)
		case token.GTR:
			a, b = w.unscale(a, b, it.signed)
			if it.signed {
				return T.Slt(b, a)
			}
			return T.Ult(b, a)
		case token.GEQ:
			a, b = w.unscale(a, b, it.signed)
			if it.signed {
				return T.Sle(b, a)
			}
			return T.Ule(b, a)
		}
	default:
		// interface vs concrete comparisons are converted by ssa; plain pointer-ish values
		xi, xo := x.(Iface)
		_, yo := y.(Iface)
		if xo != yo {
			// mixed interface/concrete comparison
			if xo {
				y = Iface{t: in.Y.Type(), v: y}
			} else {
				xi = Iface{t: in.X.Type(), v: x}
				x = xi
			}
		}
		switch in.Op {
		case token.EQL:
			return w.equal(x, y)
		case token.NEQ:
			return T.Not(w.equal(x, y))
		}
	}
	unsupported(fmt.Sprintf("binop %v on %T", in.Op, x))
	return nil
}

func (w *World) load(v Value) Value {
	if sp, ok := v.(*SymPtr); ok {
		return w.selectElem(sp.elems, sp.idx)
	}
	p := w.ptr(v)
	if w.race != nil {
		w.race.read(w, p)
	}
	return copyVal(*p)
}

// selectElem builds an if-then-else tree over elems[idx]; idx is known in range.
func (w *World) selectElem(elems []Value, idx *Term) Value {
	lo, hi := urange(idx)
	if hi >= uint64(len(elems)) {
		hi = uint64(len(elems)) - 1
	}
	var rec func(lo, hi uint64) *Term
	rec = func(lo, hi uint64) *Term {
		if lo == hi {
			return elems[lo].(*Term)
		}
		mid := (lo + hi + 1) / 2
		return w.T.Ite(w.T.Ult(idx, w.T.Const(idx.w, mid)), rec(lo, mid-1), rec(mid, hi))
	}
	return rec(lo, hi)
}

func (w *World) unop(fr *frame, it *inst, in *ssa.UnOp, x Value) Value {
	T := w.T
	switch in.Op {
	case token.MUL:
		return w.load(x)
	case token.NOT:
		return T.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if it.flt {
			return T.BXor(t, T.Const(t.w, uint64(1)<<(t.w-1)))
		}
		return T.Neg(t)
	case token.XOR:
		return T.BNot(x.(*Term))
	case token.ARROW:
		v, ok := w.chanRecv(x.(*Chan), in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, T.Bool(ok)}
		}
		return v
	}
	unsupported("unop " + in.Op.String())
	return nil
}

func (w *World) idx64(t *Term, signed bool) *Term {
	if t.w == 64 {
		return t
	}
	if signed {
		return w.T.Sext(t, 64)
	}
	return w.T.Zext(t, 64)
}

func (w *World) indexCheck(idx *Term, n int) {
	if idx.isConst() {
		if idx.c >= uint64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(idx.c), n))
		}
		return
	}
	if !w.decide(w.T.Ult(idx, w.T.Const(64, uint64(n)))) {
		w.rtPanic(fmt.Sprintf("index out of range [sym] with length %d", n))
	}
}

func (w *World) indexAddr(fr *frame, it *inst) Value {
	x := fr.get(it.ops[0])
	idx := w.idx64(fr.get(it.ops[1]).(*Term), it.signed)
	var elems []Value
	switch s := x.(type) {
	case Slice:
		elems = s
	case Ptr:
		if s == nil {
			w.nilDeref()
		}
		elems = (*s).(Array)
	default:
		unsupported(fmt.Sprintf("indexAddr %T", x))
	}
	w.indexCheck(idx, len(elems))
	if !idx.isConst() {
		if it.onlyLd && len(elems) > 0 {
			if _, ok := elems[0].(*Term); ok {
				return &SymPtr{elems, idx}
			}
		}
		idx = w.T.Const(64, w.concretize(idx))
	}
	return &elems[idx.c]
}

func (w *World) index(fr *frame, it *inst) Value {
	x := fr.get(it.ops[0])
	idx := w.idx64(fr.get(it.ops[1]).(*Term), it.signed)
	switch s := x.(type) {
	case Array:
		w.indexCheck(idx, len(s))
		if !idx.isConst() {
			if _, ok := s[0].(*Term); ok {
				return w.selectElem(s, idx)
			}
			idx = w.T.Const(64, w.concretize(idx))
		}
		return copyVal(s[idx.c])
	default:
		return w.strIndex(x, idx)
	}
}

func (w *World) strIndex(x Value, idx *Term) Value {
	n := strLen(x)
	w.indexCheck(idx, n)
	if !idx.isConst() {
		ts := w.strTerms(x)
		vs := make([]Value, n)
		for i := range vs {
			vs[i] = ts[i]
		}
		return w.selectElem(vs, idx)
	}
	return w.strByte(x, int(idx.c))
}

func (w *World) slice(fr *frame, it *inst, in *ssa.Slice) Value {
	T := w.T
	x := fr.get(it.ops[0])
	opt := func(r ref, v ssa.Value) *Term {
		if r == nilRef {
			return nil
		}
		_, sg, _ := basicInfo(v.Type())
		return w.idx64(fr.get(r).(*Term), sg)
	}
	lo, hi, mx := opt(it.ops[1], in.Low), opt(it.ops[2], in.High), opt(it.ops[3], in.Max)
	var n, cp int
	var elems Slice
	isStr := false
	switch s := x.(type) {
	case Slice:
		n, cp = len(s), cap(s)
		elems = s
	case Ptr:
		if s == nil {
			w.nilDeref()
		}
		a := (*s).(Array)
		elems = Slice(a[:len(a):len(a)])
		n, cp = len(a), len(a)
	case string, *SymStr:
		n = strLen(x)
		cp = n
		isStr = true
	default:
		unsupported(fmt.Sprintf("slice of %T", x))
	}
	if lo == nil {
		lo = T.Const(64, 0)
	}
	if hi == nil {
		hi = T.Const(64, uint64(n))
	}
	if mx == nil {
		mx = T.Const(64, uint64(cp))
	}
	ok := T.And(T.And(T.Ule(lo, hi), T.Ule(hi, mx)), T.Ule(mx, T.Const(64, uint64(cp))))
	if !w.decide(ok) {
		w.rtPanic(fmt.Sprintf("slice bounds out of range (len %d cap %d)", n, cp))
	}
	l := int(w.concretize(lo))
	h := int(w.concretize(hi))
	m := int(w.concretize(mx))
	if isStr {
		return strSlice(x, l, h)
	}
	if elems == nil {
		return Slice(nil)
	}
	return elems[l:h:m]
}

const allocLimit = 1 << 16

func (w *World) makeSlice(in *ssa.MakeSlice, ln, cp *Term) Value {
	T := w.T
	_, s1, _ := basicInfo(in.Len.Type())
	_, s2, _ := basicInfo(in.Cap.Type())
	ln, cp = w.idx64(ln, s1), w.idx64(cp, s2)
	et := in.Type().Underlying().(*types.Slice).Elem()
	esz := uint64(max(w.eng.sizes.Sizeof(et), 1))
	maxN := uint64(1<<47) / esz
	ok := T.And(T.Ule(ln, T.Const(64, maxN)), T.And(T.Ule(ln, cp), T.Ule(cp, T.Const(64, maxN))))
	if !w.decide(ok) {
		w.rtPanic("makeslice: len out of range")
	}
	limit := uint64(allocLimit)
	if cp.isConst() {
		limit = 1 << 23
	}
	if !w.decide(T.Ule(cp, T.Const(64, limit))) {
		panic(pathEnd{"truncated", "allocation above bound in " + w.site()})
	}
	c := int(w.concretize(cp))
	l := int(w.concretize(ln))
	return w.newSlice(et, l, c)
}

func (w *World) newSlice(et types.Type, l, c int) Slice {
	s := make(Slice, c)
	if c > 0 {
		z := w.zero(et)
		_, isS := z.(Struct)
		_, isA := z.(Array)
		for i := range s {
			if isS || isA {
				s[i] = copyVal(z)
			} else {
				s[i] = z
			}
		}
	}
	return s[:l]
}

func (w *World) lookup(in *ssa.Lookup, x, k Value) Value {
	m, ok := x.(*Map)
	if !ok {
		_, sg, _ := basicInfo(in.Index.Type())
		return w.strIndex(x, w.idx64(k.(*Term), sg))
	}
	e := w.mapFind(m, k)
	var v Value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = w.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return Tuple{v, w.T.Bool(e != nil)}
	}
	return v
}

func (w *World) next(fr *frame, in *ssa.Next, it Value) Value {
	switch it := it.(type) {
	case *MapIter:
		for it.pos < len(it.ents) {
			e := it.ents[it.pos]
			it.pos++
			if !e.dead {
				return Tuple{w.T.True, copyVal(e.k), copyVal(e.v)}
			}
		}
		tt := in.Type().(*types.Tuple)
		return Tuple{w.T.False, w.zeroOrNil(tt.At(1).Type()), w.zeroOrNil(tt.At(2).Type())}
	case *StrIter:
		n := strLen(it.s)
		if it.pos >= n {
			return Tuple{w.T.False, w.T.Const(64, 0), w.T.Const(32, 0)}
		}
		f := w.eng.utf8Decode
		r := w.call(f, []Value{strSlice(it.s, it.pos, n)}, nil, fr).(Tuple)
		sz := w.concreteInt(r[1].(*Term))
		p := it.pos
		it.pos += sz
		return Tuple{w.T.True, w.T.Const(64, uint64(p)), r[0]}
	}
	panic("next")
}

func (w *World) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return w.zero(t)
}

func (w *World) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	at := in.AssertedType
	if x.t != nil {
		if _, isI := at.Underlying().(*types.Interface); isI {
			if w.eng.implements(x.t, at.Underlying().(*types.Interface)) {
				ok = true
				v = x
			}
		} else if w.eng.identical(x.t, at) {
			ok = true
			v = copyVal(x.v)
		}
	}
	if !ok {
		if !in.CommaOk {
			d := "nil"
			if x.t != nil {
				d = x.t.String()
			}
			w.rtPanic("interface conversion: interface is " + d + ", not " + at.String())
		}
		return Tuple{w.zero(at), w.T.False}
	}
	if in.CommaOk {
		return Tuple{v, w.T.True}
	}
	return v
}

func (w *World) convert(x Value, from, to types.Type) Value {
	T := w.T
	fu, tu := from.Underlying(), to.Underlying()
	// strings
	if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		switch f := fu.(type) {
		case *types.Basic:
			if f.Info()&types.IsString != 0 {
				return x
			}
			// int -> string
			t := x.(*Term)
			if t.isConst() {
				return string(rune(sext64(t.c, t.w)))
			}
			return w.call(w.eng.runeToStr, []Value{T.Sext(t, 64)}, nil, w.cur.top)
		case *types.Slice:
			eb, _, _ := basicInfo(f.Elem())
			if eb == 8 {
				return mkStr(w.bytesTerms(x))
			}
			return w.call(w.eng.runesToStr, []Value{x}, nil, w.cur.top)
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			eb, _, _ := basicInfo(ts.Elem())
			if eb == 8 {
				return w.mkBytes(x)
			}
			return w.call(w.eng.strToRunes, []Value{x}, nil, w.cur.top)
		}
		return x
	}
	// unsafe
	if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		if u, ok := x.(UPtr); ok {
			return u
		}
		if t, ok := x.(*Term); ok {
			if t.isConst() && t.c == 0 {
				return UPtr{}
			}
			unsupported("uintptr to unsafe.Pointer")
		}
		return UPtr{x}
	}
	if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
		u := x.(UPtr)
		if _, ok := tu.(*types.Pointer); ok {
			if u.v == nil {
				return Ptr(nil)
			}
			return u.v
		}
		if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.Uintptr {
			if u.v == nil {
				return T.Const(64, 0)
			}
			unsupported("unsafe.Pointer to uintptr in " + w.site())
		}
	}
	// numbers
	if tb, ok := tu.(*types.Basic); ok {
		fw, fs, ff := basicInfo(fu)
		tw, tsg, tf := basicInfo(tb)
		t, ok := x.(*Term)
		if !ok {
			unsupported(fmt.Sprintf("convert %T to %v", x, to))
		}
		switch {
		case ff && tf:
			if fw == tw {
				return t
			}
			return T.FUn(OF2F, tw, t, 0)
		case ff && !tf:
			if tsg {
				return T.FUn(OF2I, tw, t, 0)
			}
			if tw < 64 {
				return T.FUn(OF2I, tw, t, 0)
			}
			return T.FUn(OF2U, tw, t, 0)
		case !ff && tf:
			if fs {
				return T.FUn(OI2F, tw, t, 0)
			}
			return T.FUn(OU2F, tw, t, 0)
		}
		if tw == fw {
			return t
		}
		if tw < fw {
			if t.div && t.op != OConst && tw == 32 {
				// left whole, so that quotients of the number can be recognized
				return T.mk(OExtract, tw, tw-1, 0, t, nil, nil, 0)
			}
			return T.Extract(tw-1, 0, t)
		}
		if fs {
			return T.Sext(t, tw)
		}
		return T.Zext(t, tw)
	}
	return x
}

// ---- builtins

func (w *World) lenOf(v Value) int {
	switch x := v.(type) {
	case Slice:
		return len(x)
	case string, *SymStr:
		return strLen(v)
	case *Map:
		if x == nil {
			return 0
		}
		return x.n
	case Array:
		return len(x)
	case *Chan:
		if x == nil {
			return 0
		}
		return len(x.buf)
	case Ptr:
		if x == nil {
			return 0
		}
		return len((*x).(Array))
	}
	panic(fmt.Sprintf("len of %T", v))
}

func (w *World) callBuiltin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	T := w.T
	switch b.Name() {
	case "len":
		return T.Const(64, uint64(w.lenOf(args[0])))
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return T.Const(64, uint64(cap(x)))
		case *Chan:
			if x == nil {
				return T.Const(64, 0)
			}
			return T.Const(64, uint64(x.cap))
		}
		return T.Const(64, uint64(w.lenOf(args[0])))
	case "append":
		s := args[0].(Slice)
		var add Slice
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SymStr:
			add = w.mkBytes(y)
		}
		if len(add) == 0 {
			return s
		}
		if w.race != nil {
			w.race.writeSlice(w, s, len(add))
		}
		if len(s)+len(add) <= cap(s) {
			n := len(s)
			r := s[:n+len(add)]
			tmp := make([]Value, len(add))
			for i := range add {
				tmp[i] = copyVal(add[i])
			}
			for i := range add {
				storeInto(&r[n+i], tmp[i])
			}
			return r
		}
		nc := w.growCap(cap(s), len(s)+len(add), sliceElem(c, b))
		r := make(Slice, len(s)+len(add), nc)
		copy(r, s)
		// moving elements: structs must not alias the old backing array
		for i := range s {
			r[i] = copyVal(s[i])
		}
		for i := range add {
			r[len(s)+i] = copyVal(add[i])
		}
		full := r[:nc]
		if nc > len(r) {
			var z Value
			if et := sliceElem(c, b); et != nil {
				z = w.zero(et)
			} else {
				z = zeroLike(w, r[0])
			}
			for i := len(r); i < nc; i++ {
				full[i] = copyVal(z)
			}
		}
		return r
	case "copy":
		d := args[0].(Slice)
		var src Slice
		switch y := args[1].(type) {
		case Slice:
			src = y
		default:
			src = w.mkBytes(y)
		}
		n := min(len(d), len(src))
		if n > 0 {
			if w.race != nil {
				for i := 0; i < n; i++ {
					w.race.read(w, &src[i])
					w.race.write(w, &d[i])
				}
			}
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				storeInto(&d[i], tmp[i])
			}
		}
		return T.Const(64, uint64(n))
	case "delete":
		w.mapDelete(args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.n, x.nsym, x.idx = nil, 0, 0, map[string]*mapEnt{}
			}
		case Slice:
			for i := range x {
				storeInto(&x[i], zeroLike(w, x[i]))
			}
		}
		return nil
	case "panic":
		v := args[0].(Iface)
		w.lastPanic = "panic\n" + w.stack()
		panic(&targetPanic{v: v, site: w.site()})
	case "recover":
		return w.doRecover(fr)
	case "print", "println":
		return nil
	case "close":
		w.chanClose(args[0].(*Chan))
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				y := a.(*Term)
				_, sg, fl := basicInfo(c.Args[0].Type())
				if fl {
					unsupported("float min/max")
				}
				var lt *Term
				if sg {
					lt = T.Slt(y, x)
				} else {
					lt = T.Ult(y, x)
				}
				if b.Name() == "max" {
					if sg {
						lt = T.Slt(x, y)
					} else {
						lt = T.Ult(x, y)
					}
				}
				r = T.Ite(lt, y, x)
			default:
				lt := w.strLess(a, r)
				if b.Name() == "max" {
					lt = w.strLess(r, a)
				}
				if w.decide(lt) {
					r = a
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			w.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "String": // unsafe.String
		n := w.concreteInt(args[1].(*Term))
		switch d := args[0].(type) {
		case SData:
			if d.str != nil {
				return strSlice(d.str, 0, n)
			}
			return mkStr(w.bytesTerms(d.s[:n]))
		case Ptr:
			if n == 0 {
				return ""
			}
			// d points into a backing []Value: the n cells from d on are the n bytes
			return mkStr(w.bytesTerms(Slice(unsafe.Slice((*Value)(d), n))))
		}
		unsupported("unsafe.String")
	case "SliceData":
		return SData{s: args[0].(Slice)}
	case "StringData":
		return SData{str: args[0]}
	case "Slice": // unsafe.Slice
		n := w.concreteInt(args[1].(*Term))
		switch d := args[0].(type) {
		case SData:
			if d.str != nil {
				return w.mkBytes(strSlice(d.str, 0, n))
			}
			return d.s[:n:n]
		case Ptr:
			if n == 0 {
				return Slice(nil)
			}
			return Slice(unsafe.Slice((*Value)(d), n))
		}
		unsupported("unsafe.Slice")
	}
	unsupported("builtin " + b.Name())
	return nil
}

func sliceElem(c *ssa.CallCommon, b *ssa.Builtin) types.Type {
	if c != nil && len(c.Args) > 0 {
		if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			return s.Elem()
		}
	}
	return nil
}

func zeroLike(w *World, v Value) Value {
	switch x := v.(type) {
	case *Term:
		return w.T.Const(x.w, 0)
	case string, *SymStr:
		return ""
	case Ptr:
		return Ptr(nil)
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = zeroLike(w, x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = zeroLike(w, x[i])
		}
		return n
	case Slice:
		return Slice(nil)
	case Iface:
		return Iface{}
	case *Map:
		return (*Map)(nil)
	case *Chan:
		return (*Chan)(nil)
	case *Closure:
		return (*Closure)(nil)
	case UPtr:
		return UPtr{}
	}
	return nil
}

var sizeClasses = []uintptr{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size uintptr, noscan bool) uintptr {
	req := size
	if !noscan && req > 512 {
		req += 8
	}
	if req <= 32768-1024+8 {
		for _, c := range sizeClasses {
			if req <= c {
				return c - (req - size)
			}
		}
	}
	return (size + 8191) &^ 8191
}

func hasPointers(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsString != 0 || t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasPointers(t.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return t.Len() > 0 && hasPointers(t.Elem())
	}
	return true
}

// growCap follows runtime.growslice.
func (w *World) growCap(old, need int, et types.Type) int {
	nc := old
	if need > old*2 {
		nc = need
	} else if old < 256 {
		nc = old * 2
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if et == nil {
		return max(nc, need)
	}
	sz := uintptr(w.eng.sizes.Sizeof(et))
	if sz == 0 {
		return need
	}
	return int(roundupsize(uintptr(nc)*sz, !hasPointers(et)) / sz)
}

func (w *World) doRecover(fr *frame) Value {
	// fr is the frame of the deferred function; its caller is the panicking frame.
	p := fr.caller
	for p != nil && p.code.fn.Synthetic != "" && !p.panicking {
		p = p.caller
	}
	if p != nil && p.panicking && !p.recovered && p.pval != nil && !p.pval.exit {
		p.recovered = true
		v := p.pval.v
		w.lastSite = p.pval.site
		return v
	}
	return Iface{}
}
