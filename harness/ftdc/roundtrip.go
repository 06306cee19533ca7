package ftdc

import (
	"bytes"
	"math"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	ft "github.com/tychoish/birch/x/ftdc"
	"verif/harness/sym"
)

// Values: one field of any kind with any values, alone or after another, over some samples.
func Values() {
	n := sym.Param("N", 2)
	kind := sym.Choose("kind", 11)
	if k := sym.Param("KIND", -1); k >= 0 {
		sym.Assume(kind == k)
	}
	schema, keys, wide := []int{kind}, []string{"a"}, 0
	if sym.Bool("second") {
		schema, keys, wide = []int{3, kind}, []string{"b", "a"}, 1
	}
	c := ft.NewBaseCollector(n)
	var want []sample
	for i := 0; i < n; i++ {
		s := makeSample(keys, schema, string(rune('p'+i)), wide)
		want = append(want, s)
		sym.Assert("add", c.Add(s.in) == nil)
	}
	data, err := c.Resolve()
	sym.Assert("resolve", err == nil)
	switch sym.Choose("reader", 4) {
	case 0:
		got := readAll(ft.ReadStructuredMetrics(bytes.NewReader(data)))
		sym.Assert("samples", len(got) == n)
		for i := range got {
			sym.Assert("structured", got[i] == want[i].structured)
		}
	case 1:
		got := readAll(ft.ReadMetrics(bytes.NewReader(data)))
		sym.Assert("samples", len(got) == n)
		for i := range got {
			sym.Assert("flat", got[i] == want[i].flat)
		}
	case 2:
		got := readAll(ft.ReadMatrix(bytes.NewReader(data)))
		sym.Assert("one-matrix", len(got) == 1)
		m := birch.DC.Elements()
		for col, p := range leaves("", want[0].in) {
			a := birch.MakeArray(n)
			for i := range want {
				a.Append(leaves("", want[i].in)[col].val)
			}
			m.Append(birch.EC.Array(p.key, a))
		}
		sym.Assert("matrix", got[0] == raw(m))
	default:
		it := ft.ReadChunks(bytes.NewReader(data))
		chunks := 0
		for c := range it.Iterator() {
			chunks++
			sym.Assert("chunk-size", c.Size() == n && c.Len() == want[0].flatDoc.Len())
			for i := 0; i < n; i++ {
				for j, e := range want[i].flatDoc.Elements() {
					sym.Assert("chunk-key", c.Metrics[j].Key() == e.Key() && len(c.Metrics[j].Values) == n)
					v := c.Metrics[j].Values[i]
					switch e.Value().Type() {
					case bsontype.Int64:
						sym.Assert("chunk-int64", v == e.Value().Int64())
					case bsontype.Int32:
						sym.Assert("chunk-int32", v == int64(e.Value().Int32()))
					case bsontype.Boolean:
						sym.Assert("chunk-bool", (v != 0) == e.Value().Boolean() && (v == 0 || v == 1))
					case bsontype.DateTime:
						sym.Assert("chunk-date", v == e.Value().DateTime())
					case bsontype.Double:
						sym.Assert("chunk-double", uint64(v) == math.Float64bits(e.Value().Double()))
					}
				}
			}
		}
		sym.Assert("one-chunk", chunks == 1 && it.Close() == nil)
	}
	sym.Reach("done")
}

type leaf struct {
	key string
	val *birch.Value
}

// leaves are the metrics of a document with their paths.
func leaves(path string, d *birch.Document) []leaf {
	var out []leaf
	for e := range d.Iterator() {
		out = append(out, leavesOf(path+e.Key(), e.Value())...)
	}
	return out
}

func leavesOf(key string, v *birch.Value) []leaf {
	switch v.Type() {
	case bsontype.EmbeddedDocument:
		return leaves(key+".", v.MutableDocument())
	case bsontype.Array:
		var out []leaf
		i := 0
		for x := range v.MutableArray().Iterator() {
			out = append(out, leavesOf(key+"."+string(rune('0'+i)), x)...)
			i++
		}
		return out
	case bsontype.Int64, bsontype.Int32, bsontype.Double, bsontype.Boolean, bsontype.DateTime, bsontype.Timestamp:
		return []leaf{{key, v}}
	}
	return nil
}
