// Package metrics checks the collection of metrics.
package metrics

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"verif/harness/sym"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/metrics"
)

func raw(d *birch.Document) string {
	b, err := d.MarshalBSON()
	sym.Assert("marshal", err == nil)
	return string(b)
}

// recorded are the samples of all files of a prefix, in their order.
func recorded(prefix string) (docs []string, files int) {
	for ; ; files++ {
		b, err := os.ReadFile(fmt.Sprintf("%s.%d", prefix, files))
		if errors.Is(err, os.ErrNotExist) {
			return docs, files
		}
		sym.Assert("file", err == nil)
		it := ftdc.ReadStructuredMetrics(bytes.NewReader(b))
		for d := range it.Iterator() {
			docs = append(docs, raw(d))
		}
		sym.Assert("readable", it.Close() == nil)
	}
}

// source is a reader of lines that may fail at the end, and may cancel before a line.
type source struct {
	lines  []string
	at     int
	cancel func()
	when   int
	err    error
}

func (s *source) Read(b []byte) (int, error) {
	if s.at == s.when {
		s.cancel()
	}
	if s.at >= len(s.lines) {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := copy(b, s.lines[s.at])
	s.lines[s.at] = s.lines[s.at][n:]
	if s.lines[s.at] == "" {
		s.at++
	}
	return n, nil
}

// JSON: collecting a JSON stream records the documents of the stream, all of them unless canceled.
func JSON() {
	sym.Schedules(sym.Param("PREEMPT", 1))
	sym.TimersAnytime(sym.Param("TICKS", 1))
	dir := sym.TempDir()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	n := sym.Choose("n", sym.Param("N", 3)+1)
	var want []string
	var lines []string
	for i := 0; i < n; i++ {
		k := "a"
		if sym.Bool("schema") {
			k = "b"
		}
		lines = append(lines, fmt.Sprintf("{\"%s\": %d}\n", k, 5*i+1))
		want = append(want, raw(birch.DC.Elements(birch.EC.Int32(k, int32(5*i+1)))))
	}
	bad := errors.New("bad")
	end := sym.Choose("end", 4)
	src := &source{cancel: cancel, when: -1}
	switch end {
	case 1:
		lines = append(lines, "{\"a\": \n")
	case 2:
		src.err = bad
	case 3:
		src.when = sym.Choose("when", n+1)
	}
	src.lines = lines
	opts := metrics.CollectJSONOptions{
		OutputFilePrefix: dir + "/out",
		SampleCount:      1 + sym.Choose("samples", 2),
		FlushInterval:    time.Millisecond,
	}
	from := sym.Choose("from", 4)
	switch {
	case from == 0 || end > 1:
		from = 0
		opts.InputSource = src
	case from == 1:
		opts.FileName = dir + "/in"
		sym.Assert("write", os.WriteFile(opts.FileName, []byte(strings.Join(lines, "")), 0600) == nil)
	case from == 2:
		opts.FileName = dir + "/none"
	default:
		opts.InputSource = src
		opts.OutputFilePrefix = dir + "/none/out"
	}
	err := metrics.CollectJSONStream(ctx, opts)
	sym.Schedules(-1)
	got, files := recorded(opts.OutputFilePrefix)
	sym.Assert("closed", sym.OpenFiles() == 0)
	if from == 2 || (from == 3 && n > 0) {
		sym.Assert("refused", err != nil && files == 0)
		sym.Reach("refused")
		return
	}
	switch end {
	case 0:
		sym.Assert("complete", err == nil)
	case 2:
		sym.Assert("error", errors.Is(err, bad))
	default:
		sym.Assert("malformed", err != nil || end == 3)
	}
	sym.Assert("all", len(got) == len(want) || (end == 3 && len(got) < len(want)))
	for i := range got {
		sym.Assert("document", i < len(want) && got[i] == want[i])
	}
	sym.Reach("done")
	if end == 3 {
		sym.Reach("canceled")
	}
}

// Refused: options that make no sense are refused before anything is read or written.
func Refused() {
	dir := sym.TempDir()
	src := &source{when: -1}
	j := metrics.CollectJSONOptions{OutputFilePrefix: dir + "/out", SampleCount: 1, FlushInterval: time.Second}
	ok := false
	if sym.Bool("source") {
		j.InputSource = src
		ok = true
	}
	if sym.Bool("file") {
		j.FileName = dir + "/in"
		ok = !ok
	}
	j.Follow = sym.Bool("follow")
	if j.FileName == "" && j.Follow {
		ok = false
	}
	if !ok {
		sym.Assert("json", metrics.CollectJSONStream(context.Background(), j) != nil)
	}
	o := metrics.NewCollectOptions(dir + "/out")
	sym.Assert("defaults", o.Validate() == nil)
	o.FlushInterval = time.Duration(sym.Int32("flush"))
	o.CollectionInterval = time.Duration(sym.Int32("collect"))
	o.SampleCount = sym.Int("samples")
	o.SkipGolang, o.SkipProcess, o.SkipSystem = sym.Bool("g"), sym.Bool("p"), sym.Bool("s")
	o.RunParallelCollectors = sym.Bool("parallel")
	if sym.Bool("custom") {
		o.Collectors = metrics.Collectors{{Name: "c"}}
	}
	good := sym.And(o.FlushInterval >= time.Millisecond, o.CollectionInterval >= time.Millisecond, o.CollectionInterval <= o.FlushInterval, o.SampleCount >= 10) &&
		!(o.SkipGolang && o.SkipProcess && o.SkipSystem) && !(o.RunParallelCollectors && len(o.Collectors) == 0)
	err := o.Validate()
	sym.Assert("valid", (err == nil) == good)
	if !good {
		sym.Assert("collect", metrics.CollectRuntime(context.Background(), o) != nil)
	}
	_, files := recorded(dir + "/out")
	sym.Assert("nothing", files == 0)
	sym.Reach("done")
}

// Collect: runtime collection records every sample of every collector, once, in order.
func Collect() {
	sym.Schedules(sym.Param("PREEMPT", 1))
	sym.TimersAnytime(sym.Param("TICKS", 3))
	sym.DetectRaces()
	dir := sym.TempDir()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	stop := sym.Choose("stop", sym.Param("N", 2))
	fail := sym.Bool("fail")
	calls := [2]int32{}
	more := sym.Param("MORE", 0) // collectors that do nothing special
	op := func(i int) metrics.CustomCollector {
		return metrics.CustomCollector{Name: []string{"x", "b"}[i], Operation: func(context.Context) *birch.Document {
			calls[i]++
			sym.Assume(int(calls[i]) <= stop+2)
			if i == 0 && int(calls[i]) > stop {
				if fail {
					panic("failed")
				}
				cancel()
			}
			return birch.DC.Elements(birch.EC.Int32("v", 10*calls[i]+int32(i)))
		}}
	}
	o := metrics.CollectOptions{
		OutputFilePrefix:      dir + "/out",
		SampleCount:           10,
		FlushInterval:         3 * time.Millisecond,
		CollectionInterval:    time.Millisecond,
		SkipSystem:            true,
		SkipProcess:           true,
		RunParallelCollectors: sym.Bool("parallel"),
		Collectors:            metrics.Collectors{op(0), op(1)},
	}
	for i := more; i > 0; i-- {
		n := int32(0)
		name := "m" + string(rune('a'+i))
		o.Collectors = append(o.Collectors, metrics.CustomCollector{Name: name, Operation: func(context.Context) *birch.Document {
			n++
			return birch.DC.Elements(birch.EC.Int32("v", 10*n+int32(i)))
		}})
	}
	if fail {
		sym.Assume(o.RunParallelCollectors)
	}
	if more > 0 {
		sym.Assume(!o.RunParallelCollectors)
	}
	none := sym.Bool("no-directory")
	if none {
		o.OutputFilePrefix = dir + "/none/out"
	}
	err := metrics.CollectRuntime(ctx, o)
	if none {
		sym.Assert("no-file", err != nil && calls[0] == 0)
		sym.Reach("refused")
		return
	}
	sym.Assert("result", (err != nil) == fail)
	sym.Assert("closed", sym.OpenFiles() == 0)
	sym.Schedules(-1)
	id := 0
	for f := 0; ; f++ {
		b, err := os.ReadFile(fmt.Sprintf("%s.%d", o.OutputFilePrefix, f))
		if errors.Is(err, os.ErrNotExist) {
			break
		}
		it := ftdc.ReadStructuredMetrics(bytes.NewReader(b))
		for d := range it.Iterator() {
			rt, ok := d.Lookup("runtime").MutableDocumentOK()
			sym.Assert("runtime", ok && d.Len() == 3+more)
			got, ok := rt.Lookup("id").IntOK()
			sym.Assert("id", ok && got == id)
			pid, ok := rt.Lookup("pid").IntOK()
			sym.Assert("pid", ok && pid == os.Getpid())
			id++
			last := ""
			for e := range d.Iterator() {
				k := e.Key()
				if k == "runtime" {
					continue
				}
				sym.Assert("ordered", last < k)
				last = k
				c, ok := e.Value().MutableDocumentOK()
				sym.Assert("custom", ok)
				v, ok := c.Lookup("v").Int32OK()
				extra := 0
				switch k[0] {
				case 'b':
					extra = 1
				case 'm':
					extra = int(k[1] - 'a')
				}
				sym.Assert("value", ok && int(v) == 10*id+extra)
			}
		}
		sym.Assert("readable", it.Close() == nil)
	}
	if fail {
		sym.Assert("kept", id == int(calls[0])-1)
		sym.Reach("failed")
	} else {
		sym.Assert("all", id == int(calls[0]) && id > stop)
	}
	sym.Reach("done")
}
