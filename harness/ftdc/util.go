package ftdc

import (
	"bytes"
	"context"

	"github.com/tychoish/birch"
	ft "github.com/tychoish/birch/x/ftdc"
	"verif/harness/sym"
)

func raw(d *birch.Document) string {
	b, err := d.MarshalBSON()
	sym.Assert("marshal", err == nil)
	return string(b)
}

// num is an integer: any at all when wide, one from a small range otherwise.
func num(name string, wide bool) int64 {
	if wide {
		return sym.Int64(name)
	}
	return int64(sym.Int8(name)) & 1
}

// field makes one field of a sample: the element as added, as restored with its structure (nil
// when it is no metric), and the flattened elements.
func field(key, path string, kind int, name string, wide bool) (*birch.Element, *birch.Element, []*birch.Element) {
	full := key
	if path != "" {
		full = path + "." + key
	}
	same := func(e func(string) *birch.Element) (*birch.Element, *birch.Element, []*birch.Element) {
		return e(key), e(key), []*birch.Element{e(full)}
	}
	switch kind {
	case 0:
		v := num(name, wide)
		return same(func(k string) *birch.Element { return birch.EC.Int64(k, v) })
	case 1:
		v := int32(num(name, false))
		if wide {
			v = sym.Int32(name + "w")
		}
		return same(func(k string) *birch.Element { return birch.EC.Int32(k, v) })
	case 2:
		v := []float64{0, -1.5, 2e300}[sym.Choose(name, 3)]
		if wide {
			v = sym.Float64(name + "w")
		}
		return same(func(k string) *birch.Element { return birch.EC.Double(k, v) })
	case 3:
		v := sym.Bool(name)
		return same(func(k string) *birch.Element { return birch.EC.Boolean(k, v) })
	case 4:
		v := num(name, wide)
		return same(func(k string) *birch.Element { return birch.EC.DateTime(k, v) })
	case 5:
		t, i := uint32(num(name+"t", false)), uint32(num(name+"i", false))
		if wide {
			if sym.Bool(name + "which") {
				t = sym.Uint32(name + "wt")
			} else {
				i = sym.Uint32(name + "wi")
			}
		}
		return birch.EC.Timestamp(key, t, i), birch.EC.Timestamp(key, t, i), []*birch.Element{birch.EC.Int64(full, int64(t)), birch.EC.Int64(full+".inc", int64(i))}
	case 6:
		return birch.EC.String(key, "s"), nil, nil
	case 7:
		return birch.EC.Null(key), nil, nil
	case 8: // a nested document, with a field that is no metric
		a, as, af := field("x", full, 0, name+"x", wide)
		b, bs, bf := fixed("y", full, name, wide)
		return birch.EC.SubDocumentFromElements(key, a, birch.EC.String("z", "s"), b),
			birch.EC.SubDocumentFromElements(key, as, bs), append(af, bf...)
	case 9: // an array
		a, as, af := field(key+".0", path, 0, name+"x", wide)
		b, bs, bf := fixed(key+".2", path, name, wide)
		return birch.EC.ArrayFromElements(key, a.Value(), birch.VC.String("s"), b.Value()),
			birch.EC.ArrayFromElements(key, as.Value(), bs.Value()), append(af, bf...)
	case 10: // documents in documents
		a, as, af := field("d", full+".m", 8, name+"x", wide)
		b, bs, bf := field("e", full, 5, name+"y", false)
		return birch.EC.SubDocumentFromElements(key, birch.EC.SubDocumentFromElements("m", a), b),
			birch.EC.SubDocumentFromElements(key, birch.EC.SubDocumentFromElements("m", as), bs), append(af, bf...)
	default:
		return birch.EC.SubDocumentFromElements(key), birch.EC.SubDocumentFromElements(key), nil
	}
}

// fixed is a boolean, any at all when wide.
func fixed(key, path, name string, wide bool) (*birch.Element, *birch.Element, []*birch.Element) {
	if wide {
		return field(key, path, 3, name+"y", false)
	}
	full := key
	if path != "" {
		full = path + "." + key
	}
	v := name[0]&1 == 1
	return birch.EC.Boolean(key, v), birch.EC.Boolean(key, v), []*birch.Element{birch.EC.Boolean(full, v)}
}

// sample is one document to collect and what should be read back.
type sample struct {
	in         *birch.Document
	structured string
	flat       string
	flatDoc    *birch.Document
}

func makeSample(keys []string, schema []int, name string, wide int) sample {
	in, st, fl := birch.DC.Elements(), birch.DC.Elements(), birch.DC.Elements()
	for i, k := range schema {
		a, s, f := field(keys[i], "", k, name+keys[i], i == wide)
		in.Append(a)
		if s != nil {
			st.Append(s)
		}
		fl.Append(f...)
	}
	return sample{in, raw(st), raw(fl), fl}
}

// collector makes a collector and the function that gives everything it recorded.
func collector(kind, max, n int) (ft.Collector, func() []byte) {
	out := &bytes.Buffer{}
	var c ft.Collector
	switch kind {
	case 0:
		c = ft.NewBaseCollector(n)
	case 1:
		c = ft.NewBatchCollector(max)
	case 2:
		c = ft.NewDynamicCollector(max)
	case 3:
		c = ft.NewStreamingCollector(max, out)
	case 4:
		c = ft.NewStreamingDynamicCollector(max, out)
	case 5:
		c = ft.NewSynchronizedCollector(ft.NewBatchCollector(max))
	case 6:
		c = ft.NewBufferedCollector(context.Background(), 1, ft.NewDynamicCollector(max))
	default:
		c = ft.NewSamplingCollector(0, ft.NewStreamingCollector(max, out))
	}
	return c, func() []byte {
		sym.Assert("flush", ft.FlushCollector(c, out) == nil)
		return out.Bytes()
	}
}

func readAll(it *ft.Iterator[*birch.Document]) []string {
	var out []string
	for d := range it.Iterator() {
		out = append(out, raw(d))
	}
	sym.Assert("read-error", it.Close() == nil)
	return out
}
