package events

import (
	"context"
	"errors"
	"sync"
	"time"

	ev "github.com/tychoish/birch/x/ftdc/events"
	"verif/harness/sym"
)

// model is what a recorder should have accounted for.
type model struct {
	n, ops, size, errs int64
	dur                time.Duration
	gauges             ev.PerformanceGauges
	id                 int64
}

// apply performs one arbitrary operation on the recorder and the model.
func (m *model) apply(r ev.Recorder, name string) {
	v := sym.Int64(name + "v")
	switch sym.Choose(name, 9) {
	case 0:
		r.IncIterations(v)
		m.n += v
	case 1:
		r.IncOperations(v)
		m.ops += v
	case 2:
		r.IncSize(v)
		m.size += v
	case 3:
		r.IncError(v)
		m.errs += v
	case 4:
		r.SetState(v)
		m.gauges.State = v
	case 5:
		r.SetWorkers(v)
		m.gauges.Workers = v
	case 6:
		r.SetFailed(v > 0)
		m.gauges.Failed = v > 0
	case 7:
		r.SetID(v)
		m.id = v
	}
}

func (m *model) matches(e *ev.Performance) bool {
	return sym.And(e.Counters.Number == m.n, e.Counters.Operations == m.ops, e.Counters.Size == m.size, e.Counters.Errors == m.errs,
		e.Timers.Duration == m.dur, e.Gauges == m.gauges, e.ID == m.id)
}

// Recorders: what the recorders persist of the iterations of a test.
func Recorders() {
	under := &log{}
	kind := sym.Choose("kind", 5)
	var r ev.Recorder
	elapsed := false
	switch kind {
	case 0:
		r = ev.NewRawRecorder(under)
	case 1:
		r = ev.NewSingleRecorder(under)
	case 2:
		r = ev.NewGroupedRecorder(under, 0)
		elapsed = true
	case 3:
		r = ev.NewGroupedRecorder(under, 100*time.Hour)
	default:
		r = ev.NewSynchronizedRecorder(ev.NewRawRecorder(under))
	}
	perIteration := kind == 0 || kind == 4 || elapsed
	m := &model{}
	n := 1 + sym.Choose("n", sym.Param("N", 2))
	events := 0
	var was []model
	last := int64(-1)
	for i := 0; i < n; i++ {
		mode := sym.Choose("begin", 3)
		before := time.Now()
		stamp := int64(0)
		if mode > 0 {
			r.BeginIteration()
		}
		if mode == 2 {
			stamp = time.UnixMilli(int64(1000 * (i + 1))).UnixMilli()
			r.SetTime(time.UnixMilli(stamp))
		}
		m.apply(r, "op")
		d := time.Duration(sym.Int32("dur"))
		r.EndIteration(d)
		m.n++
		m.dur += d
		if !perIteration {
			sym.Assert("not-yet", len(under.got) == 0)
			continue
		}
		events++
		sym.Assert("event", len(under.got) == events)
		e := under.event(events - 1)
		sym.Assert("iteration", m.matches(e))
		was = append(was, *m)
		if mode == 2 {
			sym.Assert("set-time", e.Timestamp.UnixMilli() == stamp)
		} else {
			sym.Assert("own-time", !e.Timestamp.Before(before.Truncate(time.Millisecond)) && !e.Timestamp.After(time.Now()))
		}
		sym.Assert("total", e.Timers.Total >= 0 && (mode == 0 || int64(e.Timers.Total) > last) && e.Timers.Total < time.Hour)
		last = int64(e.Timers.Total)
	}
	more := sym.Bool("more")
	if more {
		r.BeginIteration()
		m.apply(r, "after")
	}
	sym.Assert("end", r.EndTest() == nil)
	sym.Assert("persisted", len(under.got) >= 1 && len(under.got) <= events+1 && (perIteration || len(under.got) == 1))
	sym.Assert("all", m.matches(under.event(len(under.got)-1)))
	for i := range was {
		sym.Assert("kept", was[i].matches(under.event(i)))
	}

	// the next test starts over, with the gauges
	had := len(under.got)
	m2 := &model{gauges: m.gauges}
	if sym.Bool("reset") {
		r.BeginIteration()
		r.IncOperations(5)
		r.SetFailed(true)
		m2.gauges.Failed = true
		r.Reset()
		sym.Assert("reset-persists-nothing", len(under.got) == had)
	}
	r.BeginIteration()
	r.IncOperations(7)
	r.EndIteration(9)
	m2.n, m2.ops, m2.dur = 1, 7, 9
	sym.Assert("end-again", r.EndTest() == nil)
	sym.Assert("again", len(under.got) > had && m2.matches(under.event(len(under.got)-1)))
	sym.Reach("done")
}

// RecorderErrors: failures of the collector are reported by EndTest, once.
func RecorderErrors() {
	under := &log{}
	var r ev.Recorder
	switch sym.Choose("kind", 9) {
	case 0:
		r = ev.NewRawRecorder(under)
	case 1:
		r = ev.NewSingleRecorder(under)
	case 2:
		r = ev.NewGroupedRecorder(under, 0)
	case 3:
		r = ev.NewGroupedRecorder(under, time.Hour)
	case 4:
		r = ev.NewHistogramRecorder(under)
	case 5:
		r = ev.NewSingleHistogramRecorder(under)
	case 6:
		r = ev.NewHistogramGroupedRecorder(under, 0)
	case 7:
		r = ev.NewIntervalRecorder(context.Background(), under, time.Hour)
	default:
		r = ev.NewIntervalHistogramRecorder(context.Background(), under, time.Hour)
	}
	r = ev.NewSynchronizedRecorder(r)
	broken := errors.New("broken")
	fails := sym.Bool("fails")
	r.BeginIteration()
	r.IncOperations(1)
	if fails {
		under.fail = broken
	}
	r.EndIteration(time.Second)
	err := r.EndTest()
	sym.Assert("reported", (err != nil) == fails && (err == nil || errors.Is(err, broken)))
	under.fail = nil
	r.BeginIteration()
	r.EndIteration(time.Second)
	sym.Assert("forgotten", r.EndTest() == nil)
	sym.Reach("done")
}

// Intervals: however ticks, operations and the end interleave, every operation is in exactly one event.
func Intervals() {
	sym.Schedules(sym.Param("PREEMPT", 1))
	sym.TimersAnytime(sym.Param("TICKS", 2))
	sym.DetectRaces()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	under := &log{}
	r := ev.NewIntervalRecorder(ctx, under, time.Millisecond)
	two := sym.Bool("two")
	wg := &sync.WaitGroup{}
	r.BeginIteration()
	r.SetWorkers(3)
	if two {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.IncOperations(10)
			r.IncError(1)
		}()
	}
	r.IncOperations(1)
	if sym.Bool("cancel") {
		cancel()
	}
	r.EndIteration(5)
	wg.Wait()
	sym.Assert("end", r.EndTest() == nil)
	check := func(from int, ops, errs, n, dur int64) {
		for i := from; i < len(under.got); i++ {
			e := under.event(i)
			ops -= e.Counters.Operations
			errs -= e.Counters.Errors
			n -= e.Counters.Number
			dur -= int64(e.Timers.Duration)
			sym.Assert("time", !e.Timestamp.IsZero())
			if i == len(under.got)-1 {
				sym.Assert("gauge", e.Gauges.Workers == 3)
			}
		}
		sym.Assert("operations", ops == 0)
		sym.Assert("errors", errs == 0)
		sym.Assert("iterations", n == 0)
		sym.Assert("duration", dur == 0)
	}
	if two {
		check(0, 11, 1, 1, 5)
	} else {
		check(0, 1, 0, 1, 5)
	}
	had := len(under.got)
	r.BeginIteration()
	r.IncOperations(4)
	r.EndIteration(6)
	sym.Assert("end-again", r.EndTest() == nil)
	check(had, 4, 0, 1, 6)
	sym.Reach("done")
}

type timers struct{ resets, starts, stops int }

func (t *timers) ResetTimer() { t.resets++ }
func (t *timers) StartTimer() { t.starts++ }
func (t *timers) StopTimer()  { t.stops++ }

// SharedRecorder: a synchronized recorder used by two goroutines loses nothing.
func SharedRecorder() {
	sym.Schedules(sym.Param("PREEMPT", 2))
	sym.DetectRaces()
	under := &log{}
	r := ev.NewSynchronizedRecorder(ev.NewSingleRecorder(under))
	wg := &sync.WaitGroup{}
	wg.Add(2)
	go func() {
		defer wg.Done()
		r.IncOperations(1)
		r.EndIteration(2)
	}()
	go func() {
		defer wg.Done()
		switch sym.Choose("op", 9) {
		case 0:
			r.SetID(1)
		case 1:
			r.SetTime(time.UnixMilli(5))
		case 2:
			r.SetTotalDuration(1)
		case 3:
			r.SetDuration(0)
		case 4:
			r.SetState(1)
		case 5:
			r.SetWorkers(1)
		case 6:
			r.SetFailed(true)
		case 7:
			r.BeginIteration()
		default:
			r.IncSize(1)
		}
		r.IncError(1)
		r.IncIterations(1)
		r.EndIteration(3)
	}()
	wg.Wait()
	sym.Assert("end", r.EndTest() == nil && len(under.got) == 1)
	e := under.event(0)
	sym.Assert("sums", e.Counters.Operations == 1 && e.Counters.Errors == 1 && e.Counters.Number == 3 && e.Timers.Duration == 5)
	sym.Reach("done")
}
