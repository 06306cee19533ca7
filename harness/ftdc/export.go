package ftdc

import (
	"bytes"
	"errors"
	"strconv"

	"github.com/tychoish/birch"
	ft "github.com/tychoish/birch/x/ftdc"
	"verif/harness/sym"
)

// Uncompressed: the output is the documents themselves, once each and in order.
func Uncompressed() {
	js := sym.Bool("json")
	max := 1 + sym.Choose("max", 3)
	out := &bytes.Buffer{}
	kind := sym.Choose("kind", 3)
	var c ft.Collector
	switch {
	case kind == 0 && js:
		c = ft.NewUncompressedCollectorJSON(max)
	case kind == 0:
		c = ft.NewUncompressedCollectorBSON(max)
	case kind == 1 && js:
		c = ft.NewStreamingUncompressedCollectorJSON(max, out)
	case kind == 1:
		c = ft.NewStreamingUncompressedCollectorBSON(max, out)
	case js:
		c = ft.NewStreamingDynamicUncompressedCollectorJSON(max, out)
	default:
		c = ft.NewStreamingDynamicUncompressedCollectorBSON(max, out)
	}
	want := ""
	emit := func(d *birch.Document) {
		if !js {
			want += raw(d)
			return
		}
		b, err := d.MarshalJSON()
		sym.Assert("json", err == nil)
		want += string(b) + "\n"
	}
	if kind == 0 && sym.Bool("metadata") {
		m := birch.DC.Elements(birch.EC.String("m", "x"))
		sym.Assert("set-metadata", c.SetMetadata(m) == nil)
		emit(m)
	}
	n := 1 + sym.Choose("n", sym.Param("N", 3))
	taken := 0
	for i := 0; i < n; i++ {
		d := birch.DC.Elements(birch.EC.Boolean("a", sym.Bool("v")), birch.EC.String("s", "t"))
		if i > 0 && sym.Bool("other") {
			d.Append(birch.EC.Int32("b", 1))
			if kind < 2 && taken > 0 {
				// only an empty collector takes another schema
				at := c.Info().SampleCount
				err := c.Add(d)
				sym.Assert("schema", (err == nil) == (kind == 1 && at == max))
				if err == nil {
					emit(d)
				}
				break
			}
		}
		err := c.Add(d)
		sym.Assert("add", (err == nil) == (kind > 0 || taken < max))
		if err == nil {
			taken++
			emit(d)
		} else {
			sym.Reach("overfull")
		}
	}
	sym.Assert("flush", ft.FlushCollector(c, out) == nil)
	sym.Assert("output", out.String() == want)
	sym.Reach("done")
}

type closer struct {
	bytes.Buffer
	closed    int
	failWrite bool
	failClose bool
}

func (c *closer) Write(b []byte) (int, error) {
	if c.failWrite {
		return 0, errors.New("write")
	}
	return c.Buffer.Write(b)
}
func (c *closer) Close() error {
	c.closed++
	if c.failClose {
		return errors.New("close")
	}
	return nil
}

// Writer: documents written as bytes, from one reused buffer, are all recorded.
func Writer() {
	out := &closer{}
	max := 1 + sym.Choose("max", 3)
	w := ft.NewWriterCollector(max, out)
	n := 1 + sym.Choose("n", sym.Param("N", 3))
	buf := make([]byte, 64)
	var want []string
	for i := 0; i < n; i++ {
		k := sym.Choose("what", 3)
		s := makeSample([]string{"a"}, []int{0}, string(rune('p'+i)), -1)
		if k == 1 {
			s = makeSample([]string{"a", "b"}, []int{0, 8}, string(rune('p'+i)), -1)
		}
		if k == 2 {
			m, err := w.Write([]byte{6, 0, 0, 0, 1, 0})
			sym.Assert("malformed", m == 0 && err != nil)
			continue
		}
		b := []byte(raw(s.in))
		copy(buf, b)
		m, err := w.Write(buf[:len(b)])
		sym.Assert("written", m == len(b) && err == nil)
		for j := range buf {
			buf[j] = 0xff
		}
		want = append(want, s.structured)
	}
	switch sym.Choose("fault", 3) {
	case 1:
		out.failWrite = true
	case 2:
		out.failClose = true
	}
	err := w.Close()
	if out.failWrite {
		sym.Assert("write-fault", (err != nil) == (len(want) > 0))
		return
	}
	if out.failClose {
		sym.Assert("close-fault", err != nil)
		return
	}
	sym.Assert("closed", err == nil && out.closed == 1)
	got := read(out.Bytes(), true)
	sym.Assert("samples", len(got) == len(want))
	for i := range got {
		sym.Assert("sample", got[i] == want[i])
	}
	sym.Reach("done")
}

// CSV: the table holds a row for every sample and converts back into the same metrics.
func CSV() {
	n := 1 + sym.Choose("n", sym.Param("N", 2))
	key := []string{"a", "a,b", "a\"b", "n.x"}[sym.Choose("key", 4)]
	c := ft.NewBatchCollector(1 + sym.Choose("max", 2))
	text := ""
	switch key {
	case "a,b":
		text = "\"a,b\",d,n.c.1,f\n"
	case "a\"b":
		text = "\"a\"\"b\",d,n.c.1,f\n"
	default:
		text = key + ",d,n.c.1,f\n"
	}
	var vals [][2]int64
	var dbl []float64
	for i := 0; i < n; i++ {
		v := int64(-42)
		if i == 0 {
			v = int64(7 * sym.Choose("v", 2))
		}
		if base := sym.Choose("base", 3); base == 1 {
			v = 1<<63 - 1
		} else if base == 2 {
			v = -1 << 63
		}
		d := []float64{0.5, 1e21}[sym.Choose("d", 2)]
		b := i == 0
		bi := int64(1 - i)
		sym.Assert("add", c.Add(birch.DC.Elements(birch.EC.Int64(key, v), birch.EC.String("s", "x"), birch.EC.Boolean("d", b),
			birch.EC.SubDocumentFromElements("n", birch.EC.ArrayFromElements("c", birch.VC.String(""), birch.VC.Int32(int32(i)))), birch.EC.Double("f", d))) == nil)
		text += strconv.FormatInt(v, 10) + "," + strconv.FormatInt(bi, 10) + "," + strconv.Itoa(i) + "," + strconv.FormatFloat(d, 'g', -1, 64) + "\n"
		vals = append(vals, [2]int64{v, bi})
		dbl = append(dbl, d)
	}
	data, err := c.Resolve()
	sym.Assert("resolve", err == nil)
	it := ft.ReadChunks(bytes.NewReader(data))
	out := &bytes.Buffer{}
	sym.Assert("csv", ft.WriteCSV(it.Iterator(), out) == nil && it.Close() == nil)
	sym.Assert("text", out.String() == text)

	// numbers convert back
	back := &bytes.Buffer{}
	sym.Assert("convert", ft.ConvertFromCSV(2, out, back) == nil)
	i := 0
	ms := ft.ReadMetrics(back)
	for d := range ms.Iterator() {
		v, ok := d.Lookup(key).Int64OK()
		b, ok2 := d.Lookup("d").Int64OK()
		f, ok3 := d.Lookup("f").DoubleOK()
		sym.Assert("back", i < n && ok && ok2 && ok3 && v == vals[i][0] && b == vals[i][1] && f == dbl[i])
		i++
	}
	sym.Assert("rows", i == n && ms.Close() == nil)
	sym.Reach("done")
}

// CSVFaults: errors of the input and of the output are reported.
func CSVFaults() {
	out := &closer{failWrite: sym.Bool("write")}
	in := "a,b\n1,2\n3,4\n"
	bad := sym.Choose("bad", 3)
	switch bad {
	case 1:
		in = "a,b\n1,2\n\"3,4\n"
	case 2:
		in = ""
	}
	err := ft.ConvertFromCSV(1+sym.Choose("bucket", 3), bytes.NewReader([]byte(in)), out)
	sym.Assert("reported", (err != nil) == (out.failWrite || bad > 0))
	if err != nil {
		sym.Reach("error")
	} else {
		sym.Reach("done")
	}
}

// CSVNumbers: the digits of any small number.
func CSVNumbers() {
	v := int16(sym.Int8("w"))
	if sym.Param("BITS", 16) == 16 {
		v = sym.Int16("v")
	}
	c := ft.NewBaseCollector(1)
	sym.Assert("add", c.Add(one(int64(v))) == nil)
	data, err := c.Resolve()
	sym.Assert("resolve", err == nil)
	it := ft.ReadChunks(bytes.NewReader(data))
	out := &bytes.Buffer{}
	sym.Assert("csv", ft.WriteCSV(it.Iterator(), out) == nil && it.Close() == nil)
	got := out.String()
	sym.Assert("frame", len(got) > 3 && got[:2] == "a\n" && got[len(got)-1] == '\n')
	got = got[2 : len(got)-1]
	neg := got[0] == '-'
	if neg {
		got = got[1:]
	}
	x := 0
	for i := 0; i < len(got); i++ {
		sym.Assert("digit", got[i] >= '0' && got[i] <= '9')
		x = x*10 + int(got[i]-'0')
	}
	if neg {
		x = -x
	}
	sym.Assert("value", x == int(v))
	sym.Reach("done")
}
