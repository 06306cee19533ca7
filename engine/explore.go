package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Decision struct {
	V      uint64
	Taken  bool
	Forced bool
}

type Item struct {
	prefix []Decision
	model  Model
}

type InputRec struct {
	Name  string `json:"name"`
	Kind  string `json:"kind"`
	terms []*Term
	Vals  []uint64 `json:"vals"`
}

type Path struct {
	prefix  []Decision
	pos     int
	trace   []Decision
	model   Model
	globals map[*ssa.Global]Ptr
	inputs  []*InputRec
	nvar    int
	reach   []string
	obs     []obsRec
	truncAt string

	// constraint store with independence partition
	parent map[int32]int32
	cons   map[int32][]*Term // root -> constraints
	all    []*Term

	known  map[*Term]rng
	facts  map[*Term]int8
	pmemo  map[*Term]pmemo
	pepoch uint32
}

type obsRec struct {
	label string
	terms []*Term
}

type World struct {
	eng        *Engine
	id         int
	T          *Terms
	S          *Solver
	codes      map[*ssa.Function]*fcode
	stdGlobals map[*ssa.Global]Ptr
	P          *Path
	seenFn     map[*ssa.Function]bool

	cur          *G
	gs           []*G
	killing      bool
	killAck      chan struct{}
	abort        *pathEnd
	abortPanic   *targetPanic
	noPreempt    int
	initDepth    int
	schedAll     bool
	timersAny    int // how many more timers fire although others could run
	preemptBound int
	delayBound   int // instead: how many departures from a fixed schedule, if positive
	delays       int
	preemptions  int
	race         *Race
	nchan        int

	steps     int64
	stepLimit int64
	lastPanic string
	lastSite  string
	clock     *Term
	nclock    int
}

type Violation struct {
	Label   string
	Msg     string
	Harness string
	Inputs  []*InputRec
	Sched   []uint64
	Kind    string // assert | panic | hang | deadlock | race
}

type Sample struct {
	Inputs []*InputRec
	Reach  []string
	Obs    []string
	Status string
}

type Engine struct {
	prog   *ssa.Program
	sizes  types.Sizes
	vt     *VarTable
	params map[string]int64
	opt    Options

	rtErrType  types.Type
	utf8Decode *ssa.Function
	runeToStr  *ssa.Function
	runesToStr *ssa.Function
	strToRunes *ssa.Function

	hasher   typeutil.Hasher
	canonMu  sync.Mutex
	canonMap *typeutil.Map
	identC   sync.Map
	methC    sync.Map
	implC    sync.Map
	stdC     sync.Map

	// exploration state
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []*Item
	active   int
	stop     bool
	deadline time.Time

	entry   *ssa.Function
	harness string

	// results
	fnMu     sync.Mutex
	fns      map[string]bool
	intrs    map[string]bool
	status   map[string]int64
	msgs     map[string]int64
	viol     map[string][]*Violation
	reach    map[string]int64
	asserts  map[string]int64
	steps    int64
	maxDec   int
	samples  []*Sample
	nsample  int
	sstats   SolverStats
	unknowns int64
	quick    int64
	rng      *rand.Rand
	npop     int
}

type Options struct {
	Workers   int
	StepLimit int64
	Solver    []string
	TimeoutMs int
	XEvery    int
	Samples   int
	Debug     bool
	MaxViol   int
	Seed      int64
}

func (e *Engine) noteFn(n string) {
	e.fnMu.Lock()
	e.fns[n] = true
	e.fnMu.Unlock()
}

func (e *Engine) noteIntr(n string) {
	if _, ok := e.intrsC().Load(n); ok {
		return
	}
	e.intrsC().Store(n, true)
}

var intrSeen sync.Map

func (e *Engine) intrsC() *sync.Map { return &intrSeen }

// modelled: synchronisation primitives are themselves what the race
// detector takes as given.
func (e *Engine) modelled(fn *ssa.Function) bool {
	switch pkgPathOf(fn) {
	case "sync", "sync/atomic", "time", "internal/sync", symPkg + "/memfs", symPkg + "/memnet":
		return true
	}
	return false
}

func (e *Engine) inRepo(fn *ssa.Function) bool {
	return strings.HasPrefix(pkgPathOf(fn), "github.com/tychoish/birch")
}

func pkgPathOf(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	p := f.Pkg
	if p == nil {
		if ob := f.Object(); ob != nil && ob.Pkg() != nil {
			return ob.Pkg().Path()
		}
		return ""
	}
	return p.Pkg.Path()
}

func (e *Engine) isStd(p *ssa.Package) bool {
	if v, ok := e.stdC.Load(p); ok {
		return v.(bool)
	}
	path := p.Pkg.Path()
	first := path
	if i := strings.IndexByte(path, '/'); i >= 0 {
		first = path[:i]
	}
	std := !strings.Contains(first, ".") && first != "verif"
	e.stdC.Store(p, std)
	return std
}

func (e *Engine) canon(t types.Type) types.Type {
	if c, ok := e.identC.Load(t); ok {
		return c.(types.Type)
	}
	e.canonMu.Lock()
	defer e.canonMu.Unlock()
	if e.canonMap == nil {
		e.canonMap = new(typeutil.Map)
	}
	if c := e.canonMap.At(t); c != nil {
		e.identC.Store(t, c.(types.Type))
		return c.(types.Type)
	}
	e.canonMap.Set(t, t)
	e.identC.Store(t, t)
	return t
}

func (e *Engine) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	return e.canon(a) == e.canon(b)
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := e.methC.Load(k); ok {
		return f.(*ssa.Function)
	}
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.methC.Store(k, f)
	return f
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := e.implC.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, i)
	e.implC.Store(k, r)
	return r
}

// ---- world / path

func (e *Engine) newWorld(id int) *World {
	w := &World{eng: e, id: id}
	w.fresh()
	return w
}

func (w *World) fresh() {
	w.T = NewTerms(w.eng.vt)
	if w.S == nil {
		w.S = NewSolver(w.T, w.eng.opt.Solver, w.eng.opt.TimeoutMs)
		w.S.xevery = w.eng.opt.XEvery
	} else {
		w.S.Reset(w.T)
	}
	w.codes = map[*ssa.Function]*fcode{}
	w.stdGlobals = map[*ssa.Global]Ptr{}
	w.seenFn = map[*ssa.Function]bool{}
}

func (p *Path) find(v int32) int32 {
	r, ok := p.parent[v]
	if !ok {
		p.parent[v] = v
		return v
	}
	for r != p.parent[r] {
		p.parent[r] = p.parent[p.parent[r]]
		r = p.parent[r]
	}
	p.parent[v] = r
	return r
}

func (w *World) addCons(c *Term) {
	if c.isConst() {
		return
	}
	// split conjunctions
	if c.op == OAnd {
		w.addCons(c.a)
		w.addCons(c.b)
		return
	}
	p := w.P
	if len(c.vars) == 0 {
		return
	}
	r := p.find(c.vars[0])
	for _, v := range c.vars[1:] {
		q := p.find(v)
		if q != r {
			if len(p.cons[q]) > len(p.cons[r]) {
				q, r = r, q
			}
			p.parent[q] = r
			p.cons[r] = append(p.cons[r], p.cons[q]...)
			delete(p.cons, q)
		}
	}
	p.cons[r] = append(p.cons[r], c)
	p.all = append(p.all, c)
	w.learn(c, true)
}

// related gathers the constraints sharing variables (transitively) with c.
func (w *World) related(c *Term) []*Term {
	p := w.P
	seen := map[int32]bool{}
	out := []*Term{}
	for _, v := range c.vars {
		if _, ok := p.parent[v]; !ok {
			continue
		}
		r := p.find(v)
		if !seen[r] {
			seen[r] = true
			out = append(out, p.cons[r]...)
		}
	}
	return append(out, c)
}

func (w *World) evalNow(t *Term) uint64 {
	if t.isConst() {
		return t.c
	}
	w.T.NewEval()
	return w.T.Eval(t, w.P.model)
}

func mergeModel(base, m Model) Model {
	out := make(Model, len(base)+len(m))
	for k, v := range base {
		out[k] = v
	}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func (w *World) check(c *Term) (Res, Model) {
	if c.isFalse() {
		return Unsat, nil
	}
	r, m := w.S.Check(w.related(c))
	if r == Unknown {
		atomic.AddInt64(&w.eng.unknowns, 1)
	}
	return r, m
}

func (w *World) pushItem(d Decision, m Model) {
	p := w.P
	pre := make([]Decision, len(p.trace)+1)
	copy(pre, p.trace)
	pre[len(p.trace)] = d
	w.eng.push(&Item{pre, mergeModel(p.model, m)})
}

// decide forks on a boolean.
func (w *World) decide(c *Term) bool {
	if c.op == OConst {
		return c.c == 1
	}
	p := w.P
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		if !d.Forced {
			if d.Taken {
				w.addCons(c)
			} else {
				w.addCons(w.T.Not(c))
			}
		}
		return d.Taken
	}
	if w.initDepth > 0 && false {
		unsupported("symbolic branch in init")
	}
	w.checkStop()
	if v := w.pbool(c); v >= 0 {
		atomic.AddInt64(&w.eng.quick, 1)
		d := Decision{Taken: v == 1, Forced: true}
		p.pos++
		p.trace = append(p.trace, d)
		p.prefix = p.trace
		return d.Taken
	}
	side := w.evalNow(c) == 1
	other := c
	if side {
		other = w.T.Not(c)
	}
	r, m := w.check(other)
	d := Decision{Taken: side}
	switch r {
	case Sat:
		w.pushItem(Decision{Taken: !side}, m)
	case Unsat:
		d.Forced = true
	}
	p.pos++
	p.trace = append(p.trace, d)
	p.prefix = p.trace
	if !d.Forced {
		if side {
			w.addCons(c)
		} else {
			w.addCons(w.T.Not(c))
		}
	}
	return side
}

func (w *World) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.c
	}
	p := w.P
	for p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		c := w.T.Eq(t, w.T.Const(t.w, d.V))
		if d.Taken {
			if !d.Forced {
				w.addCons(c)
			}
			return d.V
		}
		w.addCons(w.T.Not(c))
	}
	w.checkStop()
	v := w.evalNow(t)
	c := w.T.Eq(t, w.T.Const(t.w, v))
	var r Res
	var m Model
	if pr := w.prange(t); pr.ul == pr.uh && !pr.empty() && pr.ul == v {
		r = Unsat
		atomic.AddInt64(&w.eng.quick, 1)
	} else {
		r, m = w.check(w.T.Not(c))
	}
	d := Decision{V: v, Taken: true}
	switch r {
	case Sat:
		w.pushItem(Decision{V: v, Taken: false}, m)
	case Unsat:
		d.Forced = true
	}
	p.pos++
	p.trace = append(p.trace, d)
	p.prefix = p.trace
	w.addCons(c)
	return v
}

func (w *World) concreteInt(t *Term) int {
	v := w.concretize(t)
	return int(sext64(v, t.w))
}

func (w *World) freshVar(name string, width uint8) *Term {
	p := w.P
	n := fmt.Sprintf("%s@%d", name, p.nvar)
	p.nvar++
	return w.T.Var(n, width)
}

func (w *World) input(name, kind string, width uint8, n int) []*Term {
	rec := &InputRec{Name: name, Kind: kind}
	for i := 0; i < n; i++ {
		rec.terms = append(rec.terms, w.freshVar(name, width))
	}
	w.P.inputs = append(w.P.inputs, rec)
	return rec.terms
}

func (w *World) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := w.input(name, "choose", 8, 1)[0]
	w.assume(w.T.Ult(v, w.T.Const(8, uint64(n))))
	return int(w.concretize(v))
}

func (w *World) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"infeasible", ""})
	}
	p := w.P
	if w.evalNow(c) == 1 {
		w.addCons(c)
		return
	}
	if p.pos < len(p.prefix) {
		// model satisfies the whole prefix by construction
		panic(pathEnd{"internal", "assume false under replay model"})
	}
	r, m := w.check(c)
	switch r {
	case Sat:
		p.model = mergeModel(p.model, m)
		w.addCons(c)
	case Unsat:
		panic(pathEnd{"infeasible", ""})
	default:
		panic(pathEnd{"unknown", "assume"})
	}
}

func (w *World) assert(label string, c *Term) {
	p := w.P
	w.eng.noteAssert(label)
	if c.isTrue() {
		return
	}
	if p.pos < len(p.prefix) && !c.isFalse() {
		// already judged by the path this one was forked from
		if w.evalNow(c) == 1 {
			w.addCons(c)
			return
		}
	}
	nc := w.T.Not(c)
	if w.evalNow(nc) == 1 {
		w.violation(label, "assertion")
	} else {
		r, m := w.check(nc)
		switch r {
		case Sat:
			sv := p.model
			p.model = mergeModel(p.model, m)
			w.violation(label, "assertion")
			p.model = sv
		case Unknown:
			atomic.AddInt64(&w.eng.unknowns, 1)
			w.eng.noteMsg("unknown", "assert "+label)
		}
	}
	w.assume(c)
}

func (w *World) snapshotInputs() []*InputRec {
	w.T.NewEval()
	var out []*InputRec
	for _, r := range w.P.inputs {
		n := &InputRec{Name: r.Name, Kind: r.Kind}
		for _, t := range r.terms {
			n.Vals = append(n.Vals, w.T.Eval(t, w.P.model))
		}
		out = append(out, n)
	}
	return out
}

// violation records a candidate counterexample under the current model.
func (w *World) violation(label, msg string) {
	e := w.eng
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.viol[label]) >= 4 {
		return
	}
	if w.lastPanic != "" && msg == "assertion" {
		msg += "\n" + w.lastPanic
	}
	v := &Violation{Label: label, Msg: msg, Harness: e.harness, Inputs: w.snapshotInputs()}
	e.viol[label] = append(e.viol[label], v)
	if len(e.viol) >= e.opt.MaxViol {
		e.stop = true
		e.cond.Broadcast()
	}
}

func (w *World) fatalPanic(p *targetPanic) {
	panic(p)
}

func (w *World) checkStop() {
	if w.eng.stop || time.Now().After(w.eng.deadline) {
		panic(pathEnd{"stopped", ""})
	}
}

func (e *Engine) noteAssert(l string) {
	e.fnMu.Lock()
	e.asserts[l]++
	e.fnMu.Unlock()
}

func (e *Engine) noteMsg(kind, msg string) {
	e.fnMu.Lock()
	e.msgs[kind+": "+msg]++
	e.fnMu.Unlock()
}

// ---- scheduler of paths

func (e *Engine) push(it *Item) {
	e.mu.Lock()
	e.stack = append(e.stack, it)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Engine) pop() *Item {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) {
			e.cond.Broadcast()
			return nil
		}
		if n := len(e.stack); n > 0 {
			// mostly depth first; sometimes a random open path, so that a run that ends early has
			// seen all parts of the tree
			if e.npop++; e.npop%4 == 0 {
				k := e.rng.Intn(n)
				e.stack[k], e.stack[n-1] = e.stack[n-1], e.stack[k]
			}
			it := e.stack[n-1]
			e.stack = e.stack[:n-1]
			e.active++
			return it
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) done() {
	e.mu.Lock()
	e.active--
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (w *World) runPath(it *Item) (status, msg string) {
	e := w.eng
	w.P = &Path{prefix: it.prefix, model: it.model, globals: map[*ssa.Global]Ptr{},
		parent: map[int32]int32{}, cons: map[int32][]*Term{},
		known: map[*Term]rng{}, facts: map[*Term]int8{}, pmemo: map[*Term]pmemo{}, pepoch: 1}
	w.gs = nil
	w.killing = false
	w.killAck = make(chan struct{})
	w.abort = nil
	w.noPreempt = 0
	w.initDepth = 0
	w.schedAll = false
	w.timersAny = 0
	w.preemptBound = 2
	w.delayBound, w.delays = 0, 0
	w.preemptions = 0
	w.race = nil
	w.nchan = 0
	w.steps = 0
	w.stepLimit = e.opt.StepLimit
	if n := e.params["MSTEPS"]; n > 0 {
		w.stepLimit = n * 1000000
	}
	w.lastPanic = ""
	w.clock = nil
	w.nclock = 0
	w.cur = w.newG()
	w.cur.resume = make(chan struct{}, 1)
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case pathEnd:
				status, msg = p.kind, p.msg
			case *targetPanic:
				status, msg = "panic", p.site
				w.violation("panic", w.lastPanic)
			default:
				status, msg = "internal", fmt.Sprint(r)
				if e.opt.Debug {
					fmt.Fprintf(os.Stderr, "internal error: %v\n%s\n%s\n", r, w.stack(), debug.Stack())
				}
			}
		}
		if status == "hang" {
			w.violation("hang", msg+"\n"+w.stack())
		}
		if status == "deadlock" {
			w.violation("deadlock", msg)
		}
		w.cur = w.gs[0]
		w.killAll()
	}()
	w.call(e.entry, nil, nil, nil)
	return "done", ""
}

func (e *Engine) worker(id int) {
	w := e.newWorld(id)
	for {
		it := e.pop()
		if it == nil {
			break
		}
		if len(w.T.tab) > 1500000 {
			w.fresh()
		}
		st, msg := w.runPath(it)
		e.fnMu.Lock()
		e.status[st]++
		if msg != "" && st != "done" {
			k := st + ": " + firstLine(msg)
			e.msgs[k]++
			if e.msgs[k] == 1 && e.opt.Debug && st != "infeasible" {
				fmt.Fprintf(os.Stderr, "[%s] %s\n%s\n", st, msg, w.stackSafe())
			}
		}
		for _, r := range w.P.reach {
			e.reach[r]++
		}
		e.steps += w.steps
		if len(w.P.trace) > e.maxDec {
			e.maxDec = len(w.P.trace)
		}
		if st == "done" {
			e.nsample++
			n := e.nsample
			take := len(e.samples) < e.opt.Samples
			slot := len(e.samples)
			if !take && e.opt.Samples > 0 && n%97 == 0 {
				take = true
				slot = (n / 97) % e.opt.Samples
			}
			if take {
				s := &Sample{Inputs: w.snapshotInputs(), Reach: w.P.reach, Status: st}
				w.T.NewEval()
				for _, o := range w.P.obs {
					b := make([]byte, len(o.terms))
					for i, t := range o.terms {
						b[i] = byte(w.T.Eval(t, w.P.model))
					}
					s.Obs = append(s.Obs, fmt.Sprintf("%s=%x", o.label, b))
				}
				if slot < len(e.samples) {
					e.samples[slot] = s
				} else {
					e.samples = append(e.samples, s)
				}
			}
		}
		e.fnMu.Unlock()
		e.done()
	}
	e.fnMu.Lock()
	e.sstats.add(&w.S.Stats)
	e.fnMu.Unlock()
	w.S.Close()
}

func (w *World) stackSafe() string {
	defer func() { recover() }()
	return w.stack()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// Explore runs the harness to completion or until the budget is spent.
func (e *Engine) Explore(entry *ssa.Function, name string, params map[string]int64, budget time.Duration) *Report {
	e.entry, e.harness, e.params = entry, name, params
	e.vt = NewVarTable()
	e.stack = []*Item{{nil, Model{}}}
	e.active = 0
	e.stop = false
	e.cond = sync.NewCond(&e.mu)
	e.fns = map[string]bool{}
	e.intrs = map[string]bool{}
	e.status = map[string]int64{}
	e.msgs = map[string]int64{}
	e.viol = map[string][]*Violation{}
	e.rng = rand.New(rand.NewSource(e.opt.Seed + 1))
	e.reach = map[string]int64{}
	e.asserts = map[string]int64{}
	e.samples = nil
	e.nsample = 0
	e.steps, e.maxDec, e.unknowns, e.quick = 0, 0, 0, 0
	e.sstats = SolverStats{}
	t0 := time.Now()
	e.deadline = t0.Add(budget)
	stopTick := make(chan struct{})
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stopTick:
				return
			case <-t.C:
				if time.Now().After(e.deadline) {
					e.mu.Lock()
					e.cond.Broadcast()
					e.mu.Unlock()
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < e.opt.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			e.worker(i)
		}(i)
	}
	wg.Wait()
	close(stopTick)
	r := &Report{Harness: name, Params: params, Paths: e.status, Msgs: e.msgs, Reach: e.reach, Asserts: e.asserts,
		Steps: e.steps, MaxDecisions: e.maxDec, Solver: e.sstats, Wall: time.Since(t0), Samples: e.samples, Left: len(e.stack)}
	for f := range e.fns {
		r.Fns = append(r.Fns, f)
	}
	sort.Strings(r.Fns)
	for _, v := range e.viol {
		r.Violations = append(r.Violations, v...)
	}
	intrSeen.Range(func(k, _ any) bool { r.Stubs = append(r.Stubs, k.(string)); return true })
	sort.SliceStable(r.Violations, func(i, j int) bool { return r.Violations[i].Label < r.Violations[j].Label })
	r.Quick = e.quick
	r.TimedOut = time.Now().After(e.deadline) && len(e.stack) > 0
	r.Complete = !r.TimedOut && !e.stop && e.unknowns == 0
	for k, n := range e.status {
		if n > 0 && (k == "unsupported" || k == "internal" || k == "unknown" || k == "stopped") {
			r.Complete = false
		}
	}
	return r
}

type Report struct {
	Harness      string
	Params       map[string]int64
	Paths        map[string]int64
	Msgs         map[string]int64
	Reach        map[string]int64
	Asserts      map[string]int64
	Fns          []string
	Steps        int64
	MaxDecisions int
	Solver       SolverStats
	Wall         time.Duration
	Violations   []*Violation
	Samples      []*Sample
	TimedOut     bool
	Complete     bool
	Left         int
	Stubs        []string
	Quick        int64
}
