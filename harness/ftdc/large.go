package ftdc

import (
	"bytes"
	"strconv"

	"github.com/tychoish/birch"
	ft "github.com/tychoish/birch/x/ftdc"
	"verif/harness/sym"
)

// Large: many samples of many metrics, most of which stay the same from one sample to the next, with any change anywhere.
func Large() {
	sizes := [][2]int{{130, 1}, {5, 140}, {300, 3}, {140, 130}, {1100, 2}}
	sz := sizes[sym.Choose("size", sym.Param("NS", 3))]
	n, m := sz[0], sz[1]
	max := []int{n, 128}[sym.Choose("max", 2)]
	kind := []int{0, 1, 3, 4}[sym.Choose("collector", 4)]
	c, finish := collector(kind, max, n)
	at := []int{1, n / 2, n - 1}[sym.Choose("sample", 3)]
	col := []int{0, m - 1}[sym.Choose("metric", 2)]
	how := sym.Choose("how", 3)
	x := sym.Int64("x")
	sym.Assume(sym.And(x >= 0, x < 4))
	if how == 0 {
		x += []int64{0, 300, -1 << 63}[sym.Choose("base", 3)]
	}
	var want []*birch.Document
	for i := 0; i < n; i++ {
		d := birch.DC.Make(m)
		sub := birch.DC.Make(m)
		for j := 0; j < m; j++ {
			v := int64(j)
			switch {
			case how == 0 && i == at && j == col: // once
				v = x
			case how == 1 && i >= at && j == col: // from then on
				v = x
			case how == 2 && (j == col || j == 0) && i%7 == at%7: // now and then
				v = int64(i)
			}
			if j%5 == 4 {
				sub.Append(birch.EC.Int64("s"+strconv.Itoa(j), v))
			} else {
				d.Append(birch.EC.Int64("m"+strconv.Itoa(j), v))
			}
		}
		if sub.Len() > 0 {
			d.Append(birch.EC.SubDocument("sub", sub))
		}
		want = append(want, d)
		sym.Assert("add", c.Add(d) == nil)
	}
	data := finish()
	i := 0
	switch sym.Choose("reader", 2) {
	case 0:
		it := ft.ReadStructuredMetrics(bytes.NewReader(data))
		for d := range it.Iterator() {
			sym.Assert("structured", i < n && raw(d) == raw(want[i]))
			i++
		}
		sym.Assert("read", it.Close() == nil)
	default:
		it := ft.ReadChunks(bytes.NewReader(data))
		for ch := range it.Iterator() {
			sym.Assert("chunk", ch.Len() == m && i+ch.Size() <= n)
			for k := 0; k < ch.Size(); k++ {
				for j, l := range leaves("", want[i+k]) {
					sym.Assert("value", j < m && ch.Metrics[j].Values[k] == l.val.Int64())
				}
			}
			i += ch.Size()
		}
		sym.Assert("read", it.Close() == nil)
	}
	sym.Assert("samples", i == n)
	sym.Reach("done")
}
