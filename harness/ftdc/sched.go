package ftdc

import (
	"bytes"
	"context"
	"errors"
	"io"
	"sync"
	"time"

	"github.com/tychoish/birch"
	ft "github.com/tychoish/birch/x/ftdc"
	"verif/harness/sym"
)

func one(v int64) *birch.Document { return birch.DC.Elements(birch.EC.Int64("a", v)) }

// ints reads the one field of every sample.
func ints(data []byte) []int64 {
	var out []int64
	it := ft.ReadMetrics(bytes.NewReader(data))
	for d := range it.Iterator() {
		out = append(out, d.Lookup("a").Int64())
	}
	sym.Assert("read-error", it.Close() == nil)
	return out
}

type failing struct {
	data []byte
	err  error
}

func (f *failing) Read(p []byte) (int, error) {
	if len(f.data) == 0 {
		return 0, f.err
	}
	n := copy(p, f.data)
	f.data = f.data[n:]
	return n, nil
}

// ReadEnds: whatever the interleaving, reading delivers the chunks before the damage and ends with its error.
func ReadEnds() {
	sym.Schedules(sym.Param("PREEMPT", 1))
	sym.DetectRaces()
	c := ft.NewBaseCollector(4)
	_ = c.Add(one(5))
	_ = c.Add(one(6))
	good, err := c.Resolve()
	sym.Assert("resolve", err == nil)
	broken := errors.New("broken")
	var r io.Reader
	fails, n := true, 2
	switch sym.Choose("end", 5) {
	case 0:
		r, fails = bytes.NewReader(good), false
	case 1:
		r = bytes.NewReader(join(good, []byte{1, 2, 3}))
	case 2:
		r = &failing{good, broken}
	case 3:
		r = bytes.NewReader(join(good, chunkDoc([]byte{1})))
	default:
		r = bytes.NewReader(join(good, chunkDoc(join([]byte(raw(one(1))), le32(1), le32(2)))))
	}
	it := ft.ReadMetrics(r)
	got := 0
	for d := range it.Iterator() {
		sym.Assert("value", d.Lookup("a").Int64() == int64(5+got))
		got++
	}
	sym.Assert("all", got == n)
	sym.Assert("error", (it.Close() != nil) == fails)
	sym.Reach("done")
}

// StopEarly: a consumer that stops is not an error and leaves nothing running.
func StopEarly() {
	sym.Schedules(sym.Param("PREEMPT", 1))
	sym.DetectRaces()
	b := ft.NewBatchCollector(1)
	for i := 0; i < 3; i++ {
		_ = b.Add(one(int64(i)))
	}
	data, err := b.Resolve()
	sym.Assert("resolve", err == nil)
	stop := sym.Choose("stop", 3)
	it := ft.ReadMetrics(bytes.NewReader(data))
	got := 0
	for range it.Iterator() {
		if got == stop {
			break
		}
		got++
	}
	sym.Assert("no-error", it.Close() == nil)
	sym.Reach("done")
}

// recorder is a collector that remembers what it was given.
type recorder struct {
	vals []int64
	meta bool
}

func (r *recorder) SetMetadata(any) error { r.meta = true; return nil }
func (r *recorder) Add(in any) error {
	r.vals = append(r.vals, in.(int64))
	return nil
}
func (r *recorder) Resolve() ([]byte, error) {
	out := make([]byte, len(r.vals))
	for i, v := range r.vals {
		out[i] = byte(v)
	}
	return out, nil
}
func (r *recorder) Reset() { r.vals = nil }
func (r *recorder) Info() ft.CollectorInfo {
	return ft.CollectorInfo{SampleCount: len(r.vals)}
}

// Synchronized: concurrent use of a synchronized collector loses nothing.
func Synchronized() {
	sym.Schedules(sym.Param("PREEMPT", 1))
	sym.DetectRaces()
	out := &bytes.Buffer{}
	c := ft.NewSynchronizedCollector(&recorder{})
	wg := &sync.WaitGroup{}
	wg.Add(2)
	var first []byte
	go func() {
		defer wg.Done()
		sym.Assert("add1", c.Add(int64(1)) == nil)
		sym.Assert("add2", c.Add(int64(2)) == nil)
	}()
	go func() {
		defer wg.Done()
		switch sym.Choose("op", 5) {
		case 0:
			n := c.Info().SampleCount
			sym.Assert("info", n >= 0 && n <= 2)
		case 1:
			sym.Assert("metadata", c.SetMetadata(one(9)) == nil)
		case 2:
			b, err := c.Resolve()
			sym.Assert("resolve", err == nil && len(b) <= 2)
		case 3:
			c.Reset()
			first = []byte{0}
		}
		sym.Assert("add3", c.Add(int64(3)) == nil)
	}()
	wg.Wait()
	sym.Assert("flush", ft.FlushCollector(c, out) == nil)
	got := out.Bytes()
	n := [4]int{}
	for i, v := range got {
		n[v]++
		if v == 2 && first == nil {
			sym.Assert("order", i > 0 && n[1] == 1)
		}
	}
	sym.Assert("mine", n[3] == 1 && n[1] <= 1 && n[2] <= 1)
	if first == nil {
		sym.Assert("each", n[1] == 1 && n[2] == 1)
	}
	sym.Reach("done")
}

// Buffered: every sample whose Add succeeded is in the output, in order, also when the context ends.
func Buffered() {
	sym.Schedules(sym.Param("PREEMPT", 1))
	sym.DetectRaces()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	size := sym.Choose("size", 3)
	c := ft.NewBufferedCollector(ctx, size, &recorder{})
	switch sym.Choose("cancel", 3) {
	case 0:
		go cancel()
	case 1:
		cancel()
	}
	var want []int64
	for i := 0; i < 3; i++ {
		if err := c.Add(int64(i)); err == nil {
			want = append(want, int64(i))
		} else {
			sym.Assert("canceled", errors.Is(err, context.Canceled))
			sym.Reach("canceled")
		}
	}
	switch sym.Choose("op", 3) {
	case 0:
		sym.Assert("info", c.Info().SampleCount == len(want))
	case 1:
		sym.Assert("metadata", c.SetMetadata(one(9)) == nil)
	}
	out := &bytes.Buffer{}
	sym.Assert("flush", ft.FlushCollector(c, out) == nil)
	got := out.Bytes()
	sym.Assert("count", len(got) == len(want))
	for i := range got {
		sym.Assert("order", int64(got[i]) == want[i])
	}
	sym.Assert("emptied", c.Info().SampleCount == 0)
	sym.Reach("done")
}

// BufferedErrors: an error of the underlying collector is reported when resolving.
func BufferedErrors() {
	sym.Schedules(sym.Param("PREEMPT", 1))
	sym.DetectRaces()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c := ft.NewBufferedCollector(ctx, sym.Choose("size", 3), ft.NewBaseCollector(1))
	sym.Assert("add", c.Add(one(1)) == nil)
	sym.Assert("add", c.Add(one(2)) == nil)
	bad := sym.Bool("bad")
	if bad {
		sym.Assert("accepted", c.Add(one(3)) == nil)
	}
	_, err := c.Resolve()
	sym.Assert("reported", (err != nil) == bad)
	sym.Reach("done")
}

// Sampling: with an interval that has not passed only the first sample counts, with none all do.
func Sampling() {
	long := sym.Bool("long")
	d := time.Duration(0)
	if long {
		d = 100 * time.Hour
	}
	c := ft.NewSamplingCollector(d, ft.NewBaseCollector(8))
	n := 1 + sym.Choose("n", 4)
	vals := []int64{}
	for i := 0; i < n; i++ {
		v := int64(sym.Int8("v"))
		vals = append(vals, v)
		sym.Assert("add", c.Add(one(v)) == nil)
	}
	data, err := c.Resolve()
	sym.Assert("resolve", err == nil)
	got := ints(data)
	if long {
		vals = vals[:1]
	}
	sym.Assert("count", len(got) == len(vals))
	for i := range got {
		sym.Assert("value", got[i] == vals[i])
	}
	sym.Reach("done")
}
