package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// G is a goroutine of the program under analysis. Exactly one runs at a time.
type G struct {
	id     int
	resume chan struct{}
	depth  int
	top    *frame
	ready  func() bool // nil: runnable
	done   bool
	timer  bool         // a pending timer: only fires when chosen
	tdur   int64        // its duration, or -1
	tgone  int64        // how much of it has passed at least
	tbase  map[*G]int64 // of the timers that were pending when it started: how much had passed
	tstop  Ptr          // whether it was stopped
	daemon bool
	vc     []int32
}

type killed struct{}

func (w *World) newG() *G {
	g := &G{id: len(w.gs), resume: make(chan struct{}, 1)}
	w.gs = append(w.gs, g)
	return g
}

func (w *World) goStmt(fr *frame, in *ssa.Go, ops []ref) {
	fn, bi, args := w.prepCall(fr, &in.Call, ops)
	if bi != nil {
		unsupported("go builtin")
	}
	w.spawn(func() { w.callClosure(fn, args, nil) })
	w.preempt()
}

func (w *World) spawn(f func()) *G {
	live := 0
	for _, g := range w.gs {
		if !g.done {
			live++
		}
	}
	if live > 64 || len(w.gs) > 1000 {
		panic(pathEnd{"truncated", "goroutine bound"})
	}
	g := w.newG()
	if w.race != nil {
		w.race.fork(w.cur, g)
	}
	go func() {
		<-g.resume
		defer func() {
			r := recover()
			g.done = true
			if w.killing {
				w.killAck <- struct{}{}
				return
			}
			switch p := r.(type) {
			case nil:
			case killed:
				w.killAck <- struct{}{}
				return
			case *targetPanic:
				w.abort = &pathEnd{"gopanic", "panic in goroutine: " + p.site}
				w.abortPanic = p
			case pathEnd:
				w.abort = &p
			default:
				w.abort = &pathEnd{"internal", fmt.Sprint(r)}
			}
			if w.abort != nil {
				w.cur = w.gs[0]
				w.gs[0].resume <- struct{}{}
				return
			}
			// hand over to someone else
			if !w.handover(g) {
				return
			}
		}()
		if w.killing {
			panic(killed{})
		}
		f()
	}()
	return g
}

// runnable lists goroutines that can make progress.
func (w *World) runnable() (rs, timers []*G) {
	for _, g := range w.gs {
		if g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			if g.timer {
				if g.tstop != nil {
					if t, ok := (*g.tstop).(*Term); ok && t.isTrue() {
						continue
					}
				}
				timers = append(timers, g)
			} else {
				rs = append(rs, g)
			}
		}
	}
	all := timers
	timers = nil
	for _, j := range all {
		ok := true
		for _, i := range all {
			if base, later := j.tbase[i]; later && i.tdur >= 0 && j.tdur >= 0 && base+j.tdur > i.tdur {
				ok = false
			}
		}
		if ok {
			timers = append(timers, j)
		}
	}
	return
}

// startTimer notes which timers are pending, and endTimer how much of them has passed.
func (w *World) startTimer(g *G, stop Ptr, d Value) {
	g.timer, g.tstop, g.tdur, g.tgone = true, stop, -1, 0
	if t, ok := d.(*Term); ok && t.isConst() {
		g.tdur = max(t.sc(), 0)
	}
	g.tbase = map[*G]int64{}
	for _, i := range w.gs {
		if i.timer && i != g && !i.done {
			g.tbase[i] = i.tgone
		}
	}
}

func (w *World) endTimer(g *G) {
	g.timer = false
	for i, base := range g.tbase {
		if i.timer && g.tdur >= 0 {
			i.tgone = max(i.tgone, base+g.tdur)
		}
	}
	g.tbase = nil
}

// pick chooses the next goroutine. cur may be nil if it is finished/blocked.
func (w *World) pick(self *G) *G {
	rs, timers := w.runnable()
	if w.schedAll {
		cand := rs
		if w.timersAny > 0 {
			cand = append(append([]*G{}, rs...), timers...)
		}
		if len(cand) == 0 {
			cand = timers
		}
		if len(cand) == 0 {
			return nil
		}
		if len(cand) == 1 {
			return cand[0]
		}
		// keep self first so that choice 0 = no preemption
		for i, g := range cand {
			if g == self && i != 0 && !g.timer {
				cand[0], cand[i] = cand[i], cand[0]
			}
		}
		selfRun := cand[0] == self && !self.timer
		if w.delayBound > 0 {
			// one goroutine is next; each departure from that is counted
			if !selfRun {
				next := 0
				for i, g := range cand {
					if !g.timer && (cand[next].timer || self != nil && cand[next].id < self.id && g.id > self.id) {
						next = i
					}
				}
				cand[0], cand[next] = cand[next], cand[0]
			}
			if w.delays >= w.delayBound {
				return cand[0]
			}
			c := w.choose("sched", len(cand))
			if c != 0 {
				w.delays++
			}
			if cand[c].timer && len(rs) > 0 {
				w.timersAny--
			}
			return cand[c]
		}
		if selfRun && w.preemptions >= w.preemptBound {
			return self
		}
		c := w.choose("sched", len(cand))
		if selfRun && c != 0 {
			w.preemptions++
		}
		if cand[c].timer && len(rs) > 0 {
			w.timersAny--
		}
		return cand[c]
	}
	for _, g := range rs {
		if g == self {
			return g
		}
	}
	if len(rs) > 0 {
		// round robin after self
		sid := 0
		if self != nil {
			sid = self.id
		}
		for _, g := range rs {
			if g.id > sid {
				return g
			}
		}
		return rs[0]
	}
	if len(timers) > 0 {
		return timers[0]
	}
	return nil
}

// handover is called by a finished goroutine; returns false if it handed the baton over.
func (w *World) handover(self *G) bool {
	var n *G
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok {
					w.abort = &pe
				} else {
					w.abort = &pathEnd{"internal", fmt.Sprint(r)}
				}
			}
		}()
		n = w.pick(self)
	}()
	if w.abort == nil && n == nil {
		w.abort = &pathEnd{"deadlock", "all goroutines are asleep"}
	}
	if w.abort != nil {
		w.cur = w.gs[0]
		w.gs[0].resume <- struct{}{}
		return false
	}
	w.cur = n
	n.resume <- struct{}{}
	return false
}

func (w *World) switchTo(self, n *G) {
	if n == self {
		return
	}
	w.cur = n
	n.resume <- struct{}{}
	<-self.resume
	if w.killing {
		panic(killed{})
	}
	if w.abort != nil && self.id == 0 {
		a := *w.abort
		w.abort = nil
		if a.kind == "gopanic" {
			w.fatalPanic(w.abortPanic)
		}
		panic(a)
	}
}

// block parks the current goroutine until ready() holds.
func (w *World) block(ready func() bool) {
	self := w.cur
	if w.noPreempt == 0 && w.schedAll {
		w.preempt()
	}
	for !ready() {
		self.ready = ready
		n := w.pick(self)
		if n == nil {
			panic(pathEnd{"deadlock", "all goroutines are asleep\n" + w.stack()})
		}
		self.ready = nil
		if n != self {
			self.ready = ready
			w.switchTo(self, n)
			self.ready = nil
		}
	}
}

// preempt is a scheduling point.
func (w *World) preempt() {
	if w.noPreempt > 0 || !w.schedAll || len(w.gs) < 2 {
		return
	}
	self := w.cur
	n := w.pick(self)
	if n != nil && n != self {
		w.switchTo(self, n)
	}
}

// yield gives way to every other runnable goroutine (runtime.Gosched).
func (w *World) yield() {
	if w.schedAll {
		w.preempt()
		return
	}
	self := w.cur
	rs, _ := w.runnable()
	for _, g := range rs {
		if g.id > self.id {
			w.switchTo(self, g)
			return
		}
	}
	for _, g := range rs {
		if g != self {
			w.switchTo(self, g)
			return
		}
	}
}

// killAll unwinds every goroutine other than main at the end of a path.
func (w *World) killAll() {
	w.killing = true
	for _, g := range w.gs[1:] {
		if g.done {
			continue
		}
		g.resume <- struct{}{}
		<-w.killAck
	}
	w.killing = false
}

// ---- channels

func (w *World) popWait(q *[]chanWait) (chanWait, bool) {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if !x.w.done {
			return x, true
		}
	}
	return chanWait{}, false
}

func hasWait(q []chanWait) bool {
	for _, x := range q {
		if !x.w.done {
			return true
		}
	}
	return false
}

func (w *World) trySend(c *Chan, v Value) bool {
	if c.closed {
		w.rtPanic("send on closed channel")
	}
	if w.race != nil {
		w.race.release(w.cur, c)
	}
	if r, ok := w.popWait(&c.recvq); ok {
		r.w.done, r.w.idx, r.w.val, r.w.ok = true, r.idx, v, true
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (w *World) tryRecv(c *Chan, et types.Type) (Value, bool, bool) {
	if w.race != nil && c.cap == 0 {
		// a receive from an unbuffered channel precedes the end of the send
		w.race.release(w.cur, c)
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		if s, ok := w.popWait(&c.sendq); ok {
			c.buf = append(c.buf, s.val)
			s.w.done, s.w.idx = true, s.idx
		}
		return v, true, true
	}
	if s, ok := w.popWait(&c.sendq); ok {
		s.w.done, s.w.idx = true, s.idx
		return s.val, true, true
	}
	if c.closed {
		return w.zero(et), false, true
	}
	return nil, false, false
}

func (w *World) chanSend(c *Chan, v Value) {
	v = copyVal(v)
	w.preempt()
	if c == nil {
		w.block(func() bool { return false })
	}
	if w.trySend(c, v) {
		return
	}
	wt := &waiter{}
	c.sendq = append(c.sendq, chanWait{wt, 0, v})
	w.block(func() bool { return wt.done || c.closed })
	if !wt.done {
		wt.done = true
		w.rtPanic("send on closed channel")
	}
	w.raceAcq(c)
}

func (w *World) raceAcq(c *Chan) {
	if w.race != nil {
		w.race.acquire(w.cur, c)
	}
}

func (w *World) chanRecv(c *Chan, et types.Type) (Value, bool) {
	w.preempt()
	if c == nil {
		w.block(func() bool { return false })
	}
	if v, ok, done := w.tryRecv(c, et); done {
		w.raceAcq(c)
		return v, ok
	}
	wt := &waiter{}
	c.recvq = append(c.recvq, chanWait{wt, 0, nil})
	w.block(func() bool { return wt.done || c.closed })
	w.raceAcq(c)
	if wt.done {
		return wt.val, wt.ok
	}
	wt.done = true
	return w.zero(et), false
}

func (w *World) chanClose(c *Chan) {
	w.preempt()
	if c == nil {
		w.rtPanic("close of nil channel")
	}
	if c.closed {
		w.rtPanic("close of closed channel")
	}
	if w.race != nil {
		w.race.release(w.cur, c)
	}
	c.closed = true
}

func (w *World) doSelect(fr *frame, in *ssa.Select, ops []ref) Value {
	w.preempt()
	n := len(in.States)
	chans := make([]*Chan, n)
	sends := make([]Value, n)
	for i := range in.States {
		chans[i], _ = fr.get(ops[2*i]).(*Chan)
		if in.States[i].Dir == types.SendOnly {
			sends[i] = copyVal(fr.get(ops[2*i+1]))
		}
	}
	et := func(i int) types.Type {
		return in.States[i].Chan.Type().Underlying().(*types.Chan).Elem()
	}
	result := func(idx int, v Value, ok bool) Value {
		r := Tuple{w.T.Const(64, uint64(int64(idx))), w.T.Bool(ok)}
		for i := range in.States {
			if in.States[i].Dir == types.RecvOnly {
				if i == idx {
					r = append(r, v)
				} else {
					r = append(r, w.zero(et(i)))
				}
			}
		}
		return r
	}
	readyCases := func() []int {
		var out []int
		for i, c := range chans {
			if c == nil {
				continue
			}
			if in.States[i].Dir == types.SendOnly {
				if c.closed || len(c.buf) < c.cap || hasWait(c.recvq) {
					out = append(out, i)
				}
			} else if len(c.buf) > 0 || c.closed || hasWait(c.sendq) {
				out = append(out, i)
			}
		}
		return out
	}
	do := func(i int) Value {
		if in.States[i].Dir == types.SendOnly {
			w.trySend(chans[i], sends[i])
			return result(i, nil, false)
		}
		v, ok, _ := w.tryRecv(chans[i], et(i))
		w.raceAcq(chans[i])
		return result(i, v, ok)
	}
	if rc := readyCases(); len(rc) > 0 {
		c := 0
		if len(rc) > 1 {
			c = w.choose("select", len(rc))
		}
		return do(rc[c])
	}
	if !in.Blocking {
		return result(-1, nil, false)
	}
	wt := &waiter{}
	for i, c := range chans {
		if c == nil {
			continue
		}
		if in.States[i].Dir == types.SendOnly {
			if w.race != nil {
				w.race.release(w.cur, c)
			}
			c.sendq = append(c.sendq, chanWait{wt, i, sends[i]})
		} else {
			c.recvq = append(c.recvq, chanWait{wt, i, nil})
		}
	}
	anyClosed := func() bool {
		for _, c := range chans {
			if c != nil && c.closed {
				return true
			}
		}
		return false
	}
	w.block(func() bool { return wt.done || anyClosed() })
	if wt.done {
		w.raceAcq(chans[wt.idx])
		return result(wt.idx, wt.val, wt.ok)
	}
	wt.done = true
	for i, c := range chans {
		if c != nil && c.closed {
			return do(i)
		}
	}
	panic("select")
}

// ---- happens-before race detection (vector clocks), optional

type shadow struct {
	wg, wc int32
	rd     map[int32]int32
}

type Race struct {
	mem   map[Ptr]*shadow
	locks map[any][]int32
}

func newRace() *Race { return &Race{mem: map[Ptr]*shadow{}, locks: map[any][]int32{}} }

func vcGet(v []int32, i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func vcJoin(a, b []int32) []int32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}
func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (r *Race) fork(p, c *G) {
	p.tick()
	c.vc = append([]int32{}, p.vc...)
	c.tick()
	p.tick()
}
func (r *Race) release(g *G, o any) {
	g.tick()
	r.locks[o] = vcJoin(append([]int32{}, r.locks[o]...), g.vc)
	g.tick()
}
func (r *Race) acquire(g *G, o any) {
	g.vc = vcJoin(g.vc, r.locks[o])
}
func (r *Race) get(p Ptr) *shadow {
	s := r.mem[p]
	if s == nil {
		s = &shadow{wg: -1}
		r.mem[p] = s
	}
	return s
}
func (r *Race) read(w *World, p Ptr) {
	if len(w.gs) < 2 || w.noPreempt > 0 {
		return
	}
	g := w.cur
	if g.top != nil && g.top.code.model {
		return
	}
	s := r.get(p)
	if s.wg >= 0 && int(s.wg) != g.id && s.wc > vcGet(g.vc, int(s.wg)) {
		w.violation("data-race", "read after unsynchronised write\n"+w.stack())
	}
	if s.rd == nil {
		s.rd = map[int32]int32{}
	}
	s.rd[int32(g.id)] = vcGet(g.vc, g.id)
}
func (r *Race) write(w *World, p Ptr) {
	if len(w.gs) < 2 || w.noPreempt > 0 {
		return
	}
	g := w.cur
	if g.top != nil && g.top.code.model {
		return
	}
	s := r.get(p)
	if s.wg >= 0 && int(s.wg) != g.id && s.wc > vcGet(g.vc, int(s.wg)) {
		w.violation("data-race", "write after unsynchronised write\n"+w.stack())
	}
	for rg, rc := range s.rd {
		if int(rg) != g.id && rc > vcGet(g.vc, int(rg)) {
			w.violation("data-race", "write after unsynchronised read\n"+w.stack())
		}
	}
	s.wg, s.wc = int32(g.id), vcGet(g.vc, g.id)
	s.rd = nil
}
func (r *Race) writeSlice(w *World, s Slice, n int) {
	for i := len(s); i < len(s)+n && i < cap(s); i++ {
		r.write(w, &s[:i+1][i])
	}
}
