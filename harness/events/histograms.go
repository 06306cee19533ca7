package events

import (
	"context"
	"time"

	"github.com/tychoish/birch"
	ev "github.com/tychoish/birch/x/ftdc/events"
	"github.com/tychoish/birch/x/ftdc/hdrhist"
	fh "github.com/tychoish/fun/dt/hdrhist"
	"verif/harness/sym"
)

// hist counts what the histograms of an event hold.
type hist struct {
	n, ops, size, errs, dur, total int64
	gauges                         ev.PerformanceGauges
	id                             int64
	ts                             time.Time
}

// histLog is a collector that notes the histograms as they are when added.
type histLog struct {
	log
	seen []hist
}

func (l *histLog) Add(in any) error {
	p := in.(*ev.PerformanceHDR)
	l.seen = append(l.seen, hist{p.Counters.Number.TotalCount(), p.Counters.Operations.TotalCount(), p.Counters.Size.TotalCount(), p.Counters.Errors.TotalCount(),
		p.Timers.Duration.TotalCount(), p.Timers.Total.TotalCount(), p.Gauges, p.ID, p.Timestamp})
	return nil
}

// Histograms: the histogram recorders record every value of every iteration once.
func Histograms() {
	under := &histLog{}
	kind := sym.Choose("kind", 5)
	var r ev.Recorder
	switch kind {
	case 0:
		r = ev.NewHistogramRecorder(under)
	case 1:
		r = ev.NewSingleHistogramRecorder(under)
	case 2:
		r = ev.NewHistogramGroupedRecorder(under, 0)
	case 3:
		r = ev.NewHistogramGroupedRecorder(under, 100*time.Hour)
	default:
		r = ev.NewIntervalHistogramRecorder(context.Background(), under, 100*time.Hour)
	}
	m := hist{}
	n := 2
	for i := 0; i < n; i++ {
		begin := i == 0 || sym.Bool("begin")
		before := time.Now()
		if begin {
			r.BeginIteration()
			m.total++
		}
		op := 1
		if i > 0 {
			op = sym.Choose("op", 9)
		}
		switch op {
		case 0:
			r.IncIterations(3)
			m.n++
		case 1:
			r.IncOperations(77)
			m.ops++
		case 2:
			r.IncSize(4)
			m.size++
		case 3:
			r.IncError(5)
			m.errs++
		case 4:
			v := sym.Int64("w")
			r.SetState(v)
			m.gauges.State = v
		case 5:
			r.SetWorkers(7)
			m.gauges.Workers = 7
			r.SetDuration(time.Second)
			m.dur++
		case 6:
			r.SetFailed(true)
			m.gauges.Failed = true
		case 7:
			r.SetID(9)
			m.id = 9
		default:
			r.SetTotalDuration(time.Second)
			m.total++
		}
		r.EndIteration(time.Duration(i+1) * time.Millisecond)
		m.n++
		m.dur++
		// the first iteration of a grouped recorder is persisted at once, as nothing was before
		switch {
		case kind == 0 || kind == 2:
			sym.Assert("event", len(under.seen) == i+1)
		case kind == 3:
			sym.Assert("grouped", len(under.seen) <= 1)
		default:
			sym.Assert("not-yet", len(under.seen) == 0)
		}
		if kind == 0 || kind == 2 {
			e := under.seen[i]
			sym.Assert("own-time", !e.ts.Before(before) && !e.ts.After(time.Now()))
			e.ts = time.Time{}
			sym.Assert("iteration", e == m)
		}
	}
	sym.Assert("end", r.EndTest() == nil)
	sym.Assert("persisted", len(under.seen) >= 1 && len(under.seen) <= n+1)
	e := under.seen[len(under.seen)-1]
	sym.Assert("time", !e.ts.IsZero())
	e.ts = time.Time{}
	sym.Assert("all", e == m)
	sym.Reach("done")
}

// Snapshot: the document of a histogram holds its range and counts.
func Snapshot() {
	h := fh.New(1, 100, 1)
	n := sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		v := sym.Uint8("v")
		sym.Assume(v <= 100)
		sym.Assert("record", h.RecordValue(int64(v)) == nil)
	}
	w := &hdrhist.Histogram{Histogram: h}
	d, err := w.MarshalDocument()
	sym.Assert("document", err == nil)
	vals := []*birch.Value{}
	s := h.Export()
	sum := int64(0)
	for _, c := range s.Counts {
		vals = append(vals, birch.VC.Int64(c))
		sum += c
	}
	sym.Assert("sum", sum == int64(n))
	want := birch.DC.Elements(birch.EC.Int64("lowest", 1), birch.EC.Int64("highest", 100), birch.EC.Int64("figures", 1), birch.EC.ArrayFromElements("counts", vals...))
	sym.Assert("same", raw(d) == raw(want))
	b, err := w.MarshalBSON()
	sym.Assert("bson", err == nil && string(b) == raw(d))
	sym.Reach("done")
}

// IntervalHistograms: the same for intervals, with ticks at any time.
func IntervalHistograms() {
	sym.Schedules(sym.Param("PREEMPT", 1))
	sym.TimersAnytime(sym.Param("TICKS", 1))
	sym.DetectRaces()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	under := &histLog{}
	r := ev.NewIntervalHistogramRecorder(ctx, under, time.Millisecond)
	r.BeginIteration()
	r.IncOperations(1)
	r.EndIteration(5)
	sym.Assert("end", r.EndTest() == nil)
	m := hist{}
	for _, e := range under.seen {
		m.n += e.n
		m.ops += e.ops
		m.dur += e.dur
		m.total += e.total
	}
	sym.Assert("each-once", m.n == 1 && m.ops == 1 && m.dur == 1 && m.total == 1)
	r.Reset()
	sym.Reach("done")
}
