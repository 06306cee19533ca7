package ftdc

import (
	"bytes"

	"github.com/tychoish/birch"
	ft "github.com/tychoish/birch/x/ftdc"
	"verif/harness/sym"
)

type shape struct {
	keys   []string
	schema []int
}

// shapes that are easily confused with one another.
var shapes = [][2]shape{
	{{[]string{"a"}, []int{0}}, {[]string{"b"}, []int{0}}},
	{{[]string{"a"}, []int{0}}, {[]string{"a"}, []int{1}}},
	{{[]string{"a"}, []int{3}}, {[]string{"a"}, []int{1}}},
	{{[]string{"a", "b"}, []int{0, 1}}, {[]string{"b", "a"}, []int{1, 0}}},
	{{[]string{"a", "b"}, []int{0, 0}}, {[]string{"ab", ""}, []int{0, 0}}},
	{{[]string{"a"}, []int{8}}, {[]string{"a.x", "a.y"}, []int{0, 3}}},
	{{[]string{"a"}, []int{9}}, {[]string{"a"}, []int{8}}},
	{{[]string{"a", "b"}, []int{8, 0}}, {[]string{"a", "b", "c"}, []int{0, 3, 0}}},
	{{[]string{"a"}, []int{5}}, {[]string{"a", "a.inc"}, []int{0, 0}}},
	{{[]string{"a"}, []int{0}}, {[]string{"a", "b"}, []int{0, 0}}},
	{{[]string{"a"}, []int{0}}, {[]string{}, []int{}}},
	{{[]string{"a", "b"}, []int{11, 0}}, {[]string{"a", "b"}, []int{0, 11}}},
}

func read(data []byte, structured bool) []string {
	if structured {
		return readAll(ft.ReadStructuredMetrics(bytes.NewReader(data)))
	}
	return readAll(ft.ReadMetrics(bytes.NewReader(data)))
}

// Collect: samples of one or several shapes through every collector.
func Collect() {
	kind := sym.Choose("collector", 8)
	max := 1 + sym.Choose("max", sym.Param("MAX", 3))
	n := 1 + sym.Choose("n", sym.Param("N", 4))
	dynamic := kind == 2 || kind == 4 || kind == 6
	pair := shapes[0]
	if dynamic {
		pair = shapes[sym.Choose("shapes", len(shapes))]
	}
	structured := sym.Bool("structured")
	meta := !structured
	c, finish := collector(kind, max, n)
	if meta {
		sym.Assert("set-metadata", c.SetMetadata(birch.DC.Elements(birch.EC.String("m", "x"))) == nil)
	}
	var want []sample
	for i := 0; i < n; i++ {
		s := pair[0]
		if dynamic && i > 0 && sym.Bool("other") {
			s = pair[1]
		}
		v := makeSample(s.keys, s.schema, string(rune('p'+i)), -1)
		want = append(want, v)
		sym.Assert("add", c.Add(v.in) == nil)
		if kind < 3 || kind == 5 || kind == 6 {
			sym.Assert("sample-count", c.Info().SampleCount == i+1)
		} else {
			sym.Assert("kept", c.Info().SampleCount >= 1 && c.Info().SampleCount <= max)
		}
	}
	data := finish()
	sym.Assert("emptied", c.Info().SampleCount == 0)
	got := read(data, structured)
	sym.Assert("samples", len(got) == n)
	for i := range got {
		if structured {
			sym.Assert("structured", got[i] == want[i].structured)
		} else {
			sym.Assert("flat", got[i] == want[i].flat)
		}
	}
	if meta {
		it := ft.ReadChunks(bytes.NewReader(data))
		for ch := range it.Iterator() {
			d, err := ch.Metadata().LookupErr("doc")
			sym.Assert("chunk-metadata", err == nil && raw(d.MutableDocument()) == raw(birch.DC.Elements(birch.EC.String("m", "x"))))
		}
		d, err := it.Metadata().LookupErr("doc")
		sym.Assert("metadata", err == nil && raw(d.MutableDocument()) == raw(birch.DC.Elements(birch.EC.String("m", "x"))))
	}
	// the collector can be used again
	v := makeSample(pair[0].keys, pair[0].schema, "z", -1)
	sym.Assert("add-again", c.Add(v.in) == nil)
	got = read(finish(), structured)
	last := n
	sym.Assert("samples-again", len(got) == n+1)
	if structured {
		sym.Assert("structured-again", got[last] == v.structured)
	} else {
		sym.Assert("flat-again", got[last] == v.flat)
	}
	sym.Reach("done")
}

// Refuse: what a collector refuses leaves what it recorded alone.
func Refuse() {
	kind := []int{0, 1, 3, 5, 7}[sym.Choose("collector", 5)]
	max := 1 + sym.Choose("max", 2)
	c, finish := collector(kind, max, max)
	var want []sample
	n := 0
	steps := sym.Param("N", 4)
	for i := 0; i < steps; i++ {
		s := makeSample([]string{"a", "b"}, []int{0, 8}, string(rune('p'+i)), -1)
		switch sym.Choose("what", 7) {
		case 0:
			err := c.Add(s.in)
			if kind == 0 {
				sym.Assert("limit", (err == nil) == (n <= max))
			} else {
				sym.Assert("add", err == nil)
			}
			if err == nil {
				n++
				want = append(want, s)
			} else {
				sym.Reach("overfull")
			}
		case 1:
			other := makeSample([]string{"a"}, []int{0}, string(rune('p'+i)), -1)
			if n == 0 {
				return
			}
			err := c.Add(other.in)
			if err == nil {
				// a new chunk begins
				sym.Assert("schema-change", kind != 0)
				want = append(want, other)
				return
			}
		case 2:
			if n == 0 {
				return
			}
			other := makeSample([]string{"a", "b"}, []int{1, 8}, string(rune('p'+i)), -1)
			if c.Add(other.in) == nil {
				sym.Assert("type-change", kind != 0)
				return
			}
			sym.Reach("type-change")
		case 3:
			sym.Assert("nil", c.Add(nil) != nil)
		case 4:
			sym.Assert("strings", c.Add(map[string]string{"a": "b"}) != nil)
		case 5:
			sym.Assert("garbage", c.Add([]byte{9, 0, 0, 0, 1}) != nil)
		default:
			sym.Assert("nil-metadata", c.SetMetadata(nil) == nil)
		}
	}
	if n == 0 {
		_, err := c.Resolve()
		sym.Assert("nothing", err != nil)
		return
	}
	got := read(finish(), true)
	sym.Assert("samples", len(got) == len(want))
	for i := range got {
		sym.Assert("sample", got[i] == want[i].structured)
	}
	sym.Reach("done")
}
