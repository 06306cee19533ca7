package events

import (
	"bytes"
	"errors"
	"sync"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	ft "github.com/tychoish/birch/x/ftdc"
	ev "github.com/tychoish/birch/x/ftdc/events"
	"verif/harness/sym"
)

// event makes an event with one field that is anything (which), the others small.
func event(name string, which int) *ev.Performance {
	small := func(f string, k int) int64 {
		if k == which {
			return sym.Int64(name + f)
		}
		return int64(k + 1)
	}
	return &ev.Performance{
		Timestamp: time.UnixMilli(small("ts", 0)).UTC(),
		ID:        small("id", 1),
		Counters:  ev.PerformanceCounters{Number: small("n", 2), Operations: small("ops", 3), Size: small("size", 4), Errors: small("errors", 5)},
		Timers:    ev.PerformanceTimers{Duration: time.Duration(small("dur", 6)), Total: time.Duration(small("total", 7))},
		Gauges:    ev.PerformanceGauges{State: small("state", 8), Workers: small("workers", 9), Failed: which == 10 && sym.Bool(name+"failed")},
	}
}

// same compares events, their times as moments.
func same(a, b *ev.Performance) bool {
	return sym.And(a.Timestamp.UnixMilli() == b.Timestamp.UnixMilli(), a.ID == b.ID, a.Counters == b.Counters, a.Timers == b.Timers, a.Gauges == b.Gauges)
}

func asDoc(e *ev.Performance, ts int64) *birch.Document {
	return birch.DC.Elements(birch.EC.DateTime("ts", ts), birch.EC.Int64("id", e.ID),
		birch.EC.SubDocumentFromElements("counters", birch.EC.Int64("n", e.Counters.Number), birch.EC.Int64("ops", e.Counters.Operations),
			birch.EC.Int64("size", e.Counters.Size), birch.EC.Int64("errors", e.Counters.Errors)),
		birch.EC.SubDocumentFromElements("timers", birch.EC.Int64("dur", int64(e.Timers.Duration)), birch.EC.Int64("total", int64(e.Timers.Total))),
		birch.EC.SubDocumentFromElements("gauges", birch.EC.Int64("state", e.Gauges.State), birch.EC.Int64("workers", e.Gauges.Workers), birch.EC.Boolean("failed", e.Gauges.Failed)))
}

func raw(d *birch.Document) string {
	b, err := d.MarshalBSON()
	sym.Assert("marshal", err == nil)
	return string(b)
}

// Document: an event is a document of all its fields and is restored from it.
func Document() {
	which := sym.Choose("which", 11)
	e := event("e", which)
	if which == 0 {
		ms := e.Timestamp.UnixMilli()
		sym.Assume(ms > -1<<52 && ms < 1<<52)
	}
	d, err := e.MarshalDocument()
	sym.Assert("document", err == nil && raw(d) == raw(asDoc(e, e.Timestamp.UnixMilli())))
	b, err := e.MarshalBSON()
	sym.Assert("bson", err == nil && string(b) == raw(d))
	back := &ev.Performance{}
	sym.Assert("unmarshal", back.UnmarshalDocument(d) == nil)
	sym.Assert("restored", same(back, e))
	sym.Reach("done")
}

// Wrong: documents with fields of other types are refused, and fields that are none are ignored.
func Wrong() {
	at := sym.Choose("field", 14)
	vals := []*birch.Value{birch.VC.Int32(1), birch.VC.Int64(2), birch.VC.Double(3), birch.VC.String("4"), birch.VC.DocumentFromElements(), birch.VC.ArrayFromValues(),
		birch.VC.Boolean(true), birch.VC.DateTime(5), birch.VC.Timestamp(6, 7), birch.VC.Null(), birch.VC.Binary([]byte{8}), birch.VC.Undefined(), birch.VC.Regex("9", "")}
	v := vals[sym.Choose("value", len(vals))]
	path := [][2]string{{"ts"}, {"id"}, {"counters"}, {"timers"}, {"gauges"}, {"counters", "n"}, {"counters", "ops"}, {"counters", "size"}, {"counters", "errors"},
		{"timers", "dur"}, {"timers", "total"}, {"gauges", "state"}, {"gauges", "failed"}, {"other"}}[at]
	var d *birch.Document
	if path[1] == "" {
		d = birch.DC.Elements(birch.EC.Value(path[0], v))
	} else {
		d = birch.DC.Elements(birch.EC.SubDocumentFromElements(path[0], birch.EC.Value("zzz", v), birch.EC.Value(path[1], v)))
	}
	d.Append(birch.EC.Int64("last", 1))
	err := (&ev.Performance{}).UnmarshalDocument(d)
	want := bsontype.Int64
	switch {
	case at == 0:
		want = bsontype.DateTime
	case at >= 2 && at <= 4:
		want = bsontype.EmbeddedDocument
	case at == 12:
		want = bsontype.Boolean
	}
	if at == 13 || v.Type() == want {
		sym.Assert("restored", err == nil)
		sym.Reach("restored")
	} else if at < 2 || at > 4 || v.Type() != bsontype.Array {
		sym.Assert("refused", err != nil)
		sym.Reach("refused")
	}
}

// log is a collector that keeps what it was given, and reads it only later.
type log struct {
	got  []any
	fail error
}

func (l *log) SetMetadata(any) error       { return nil }
func (l *log) Add(in any) error            { l.got = append(l.got, in); return l.fail }
func (l *log) Resolve() ([]byte, error)    { return nil, nil }
func (l *log) Reset()                      { l.got = nil }
func (l *log) Info() ft.CollectorInfo      { return ft.CollectorInfo{SampleCount: len(l.got)} }
func (l *log) event(i int) *ev.Performance { return decode(l.got[i]) }

func decode(in any) *ev.Performance {
	d, err := in.(birch.DocumentMarshaler).MarshalDocument()
	sym.Assert("event", err == nil)
	out := &ev.Performance{}
	sym.Assert("event-fields", out.UnmarshalDocument(d) == nil)
	return out
}

func sum(a, b *ev.Performance) *ev.Performance {
	id := b.ID
	if id == 0 {
		id = a.ID + 1
	}
	return &ev.Performance{
		Timestamp: b.Timestamp, ID: id, Gauges: b.Gauges,
		Counters: ev.PerformanceCounters{Number: a.Counters.Number + b.Counters.Number, Operations: a.Counters.Operations + b.Counters.Operations,
			Size: a.Counters.Size + b.Counters.Size, Errors: a.Counters.Errors + b.Counters.Errors},
		Timers: ev.PerformanceTimers{Duration: a.Timers.Duration + b.Timers.Duration, Total: a.Timers.Total + b.Timers.Total},
	}
}

// Events: what every collector of events records of a series.
func Events() {
	n := 1 + sym.Choose("n", sym.Param("N", 3))
	which := 1 + sym.Choose("which", 10)
	kind := sym.Choose("kind", 7)
	under := &log{}
	every := 1 + sym.Choose("every", 3)
	pass := 0
	if kind == 4 {
		pass = sym.Choose("interval", 3)
	}
	var c ev.Collector
	switch kind {
	case 0:
		c = ev.NewBasicCollector(under)
	case 1:
		c = ev.NewPassthroughCollector(under)
	case 2:
		c = ev.NewSamplingCollector(under, every)
	case 3:
		c = ev.NewRandomSamplingCollector(under, true, []int{100, 0, 101}[every-1])
	case 4:
		c = ev.NewIntervalCollector(under, []time.Duration{0, 100 * time.Hour, 80 * time.Millisecond}[pass])
	case 5:
		c = ev.NewSynchronizedCollector(ev.NewBasicCollector(under))
	default:
		c = ev.NewBasicCollector(under)
		under.fail = errors.New("refused")
	}
	sym.Assert("nil", c.AddEvent(nil) != nil && len(under.got) == 0)
	sym.Assert("no-documents", c.Add(map[string]string{"a": "b"}) == nil && c.Add(nil) == nil && len(under.got) == 0)
	reuse := sym.Bool("reuse")
	var one *ev.Performance
	var total *ev.Performance
	var want []*ev.Performance
	due := true
	for i := 0; i < n; i++ {
		if !reuse || one == nil {
			one = event("e", which)
		}
		keep := *one
		err := c.AddEvent(one)
		sym.Assert("added", (err != nil) == (kind == 6))
		sym.Assert("callers-event", same(one, &keep))
		if total == nil || kind == 1 {
			total = &keep
		} else {
			total = sum(total, &keep)
		}
		take := true
		switch kind {
		case 2:
			take = i%every == 0
		case 3:
			take = every != 2
		case 4:
			take = due
			due = pass == 0
			if pass == 2 && sym.Bool("wait") {
				sym.Advance(90 * time.Millisecond)
				due = true
			}
		}
		if take {
			want = append(want, total)
		}
	}
	sym.Assert("count", len(under.got) == len(want) && c.Info().SampleCount == len(want))
	for i := range want {
		sym.Assert("recorded", same(under.event(i), want[i]))
	}
	sym.Reach("done")
}

// Recorded: events that went through FTDC are the events that were added.
func Recorded() {
	which := 1 + sym.Choose("which", 10)
	fc := ft.NewBaseCollector(4)
	c := ev.NewBasicCollector(fc)
	a, b := event("a", which), event("b", -1)
	sym.Assert("add", c.AddEvent(a) == nil && c.AddEvent(b) == nil)
	data, err := c.Resolve()
	sym.Assert("resolve", err == nil)
	want := []*ev.Performance{a, sum(a, b)}
	it := ft.ReadStructuredMetrics(bytes.NewReader(data))
	i := 0
	for d := range it.Iterator() {
		got := &ev.Performance{}
		sym.Assert("unmarshal", got.UnmarshalDocument(d) == nil)
		sym.Assert("value", i < 2 && same(got, want[i]))
		i++
	}
	sym.Assert("all", i == 2 && it.Close() == nil)
	sym.Reach("done")
}

// Shared: a synchronized collector of events adds every event once.
func Shared() {
	sym.Schedules(sym.Param("PREEMPT", 2))
	sym.DetectRaces()
	under := &log{}
	c := ev.NewSynchronizedCollector(ev.NewBasicCollector(under))
	wg := &sync.WaitGroup{}
	wg.Add(2)
	go func() {
		defer wg.Done()
		e := event("a", -1)
		e.Counters.Operations = 1
		sym.Assert("add1", c.AddEvent(e) == nil)
		sym.Assert("add2", c.AddEvent(e) == nil)
	}()
	go func() {
		defer wg.Done()
		switch sym.Choose("op", 5) {
		case 0:
			n := c.Info().SampleCount
			sym.Assert("info", n >= 0 && n <= 2)
		case 1:
			sym.Assert("metadata", c.SetMetadata(nil) == nil)
		case 2:
			_, err := c.Resolve()
			sym.Assert("resolve", err == nil)
		case 3:
			sym.Assert("add", c.Add(nil) == nil)
		}
		e := event("b", -1)
		e.Counters.Operations = 100
		sym.Assert("add3", c.AddEvent(e) == nil)
	}()
	wg.Wait()
	sym.Assert("count", len(under.got) == 3)
	last := int64(0)
	for i := range under.got {
		v := under.event(i).Counters.Operations
		sym.Assert("cumulative", v == last+1 || v == last+100)
		last = v
	}
	sym.Assert("total", last == 102)
	sym.Reach("done")
}

// Points: custom points are a document of all of them, in order of their names.
func Points() {
	c := ev.MakeCustom(2)
	n := 1 + sym.Choose("n", sym.Param("N", 3))
	var want []*birch.Element
	keys := []string{"b", "a", "b", "c"}
	for i := 0; i < n; i++ {
		k := keys[sym.Choose("key", 3)+i%2]
		var v any
		var e *birch.Element
		switch sym.Choose("type", 14) {
		case 0:
			x := sym.Int64("x")
			v, e = x, birch.EC.Int64(k, x)
		case 1:
			x := sym.Int32("x32")
			v, e = x, birch.EC.Int32(k, x)
		case 2:
			x := sym.Bool("xb")
			v, e = x, birch.EC.Boolean(k, x)
		case 3:
			x := sym.Float64("xf")
			v, e = x, birch.EC.Double(k, x)
		case 4:
			x := int64(sym.Int32("xt"))
			v, e = time.UnixMilli(x), birch.EC.DateTime(k, x)
		case 5:
			x := int(sym.Int64("x"))
			v = x
			if x != 1<<31-1 && int64(int32(x)) == int64(x) {
				e = birch.EC.Int32(k, int32(x))
			} else {
				e = birch.EC.Int64(k, int64(x))
			}
		case 6:
			x := sym.Int64("x")
			v, e = []int64{x, 2}, birch.EC.ArrayFromElements(k, birch.VC.Int64(x), birch.VC.Int64(2))
		case 7:
			x := sym.Bool("xb")
			v, e = []bool{x, true}, birch.EC.ArrayFromElements(k, birch.VC.Boolean(x), birch.VC.Boolean(true))
		case 12:
			x := sym.Uint32("xu")
			sym.Assume(x < 100 || x > 1<<31)
			y := birch.VC.Int64(int64(x))
			if x < 100 {
				y = birch.VC.Int32(int32(x))
			}
			v, e = []uint32{x}, birch.EC.ArrayFromElements(k, y)
		case 13:
			x := sym.Uint64("xv")
			sym.Assume(x > 1<<31 && x < 1<<63)
			v, e = []uint64{x}, birch.EC.ArrayFromElements(k, birch.VC.Int64(int64(x)))
		case 8:
			v = "text"
		case 9:
			v = nil
		case 10:
			v = []string{"text"}
		default:
			v = struct{}{}
		}
		err := c.Add(k, v)
		sym.Assert("accepted", (err == nil) == (e != nil))
		if e == nil {
			sym.Reach("refused")
			continue
		}
		// stable insertion
		at := len(want)
		for at > 0 && want[at-1].Key() > k {
			at--
		}
		want = append(want, nil)
		copy(want[at+1:], want[at:])
		want[at] = e
	}
	sym.Assert("len", c.Len() == len(want))
	d, err := c.MarshalDocument()
	sym.Assert("document", err == nil && raw(d) == raw(birch.DC.Elements(want...)))
	b, err := c.MarshalBSON()
	sym.Assert("bson", err == nil && string(b) == raw(d))
	var back ev.Custom
	sym.Assert("unmarshal", back.UnmarshalBSON(b) == nil && len(back) == len(want))
	for i := range back {
		sym.Assert("name", back[i].Name == want[i].Key())
	}
	sym.Reach("done")
}
