package ftdc

import (
	"bytes"
	"compress/zlib"
	"io"

	"github.com/tychoish/birch"
	ft "github.com/tychoish/birch/x/ftdc"
	"verif/harness/sym"
)

func le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

func join(ps ...[]byte) []byte {
	var out []byte
	for _, p := range ps {
		out = append(out, p...)
	}
	return out
}

// chunkDoc wraps a payload into the document that carries it.
func chunkDoc(payload []byte) []byte {
	buf := bytes.NewBuffer(le32(uint32(len(payload))))
	z := zlib.NewWriter(buf)
	_, _ = z.Write(payload)
	_ = z.Close()
	return []byte(raw(birch.DC.Elements(birch.EC.DateTime("_id", 1), birch.EC.Int32("type", 1), birch.EC.Binary("data", buf.Bytes()))))
}

// readAny reads through one of the readers and reports how many items there were and the error.
func readAny(how int, r io.Reader) (int, error) {
	n := 0
	if how == 4 {
		it := ft.ReadChunks(r)
		for c := range it.Iterator() {
			for range c.Iterator().Iterator() {
				n++
			}
			sym.Assert("chunk-size", c.Size() >= 1 && c.Len() == len(c.Metrics))
		}
		return n, it.Close()
	}
	var it *ft.Iterator[*birch.Document]
	switch how {
	case 0:
		it = ft.ReadMetrics(r)
	case 1:
		it = ft.ReadStructuredMetrics(r)
	case 2:
		it = ft.ReadMatrix(r)
	default:
		it = ft.ReadSeries(r)
	}
	for d := range it.Iterator() {
		sym.Assert("document", d != nil)
		n++
	}
	return n, it.Close()
}

// refs are reference documents a chunk may start with.
func refDoc(k int) ([]byte, int) {
	switch k {
	case 0:
		return []byte(raw(birch.DC.Elements(birch.EC.Int64("a", 5)))), 1
	case 1:
		return []byte(raw(birch.DC.Elements(birch.EC.Double("a", 5), birch.EC.SubDocumentFromElements("b", birch.EC.Boolean("c", true))))), 2
	case 2:
		return []byte(raw(birch.DC.Elements(birch.EC.Timestamp("a", 5, 6), birch.EC.ArrayFromElements("b", birch.VC.Int32(4), birch.VC.DateTime(7))))), 4
	default:
		return []byte(raw(birch.DC.Elements())), 0
	}
}

// Payload: a chunk whose counts and deltas are anything.
func Payload() {
	ref, nm := refDoc(sym.Choose("ref", 4))
	nd := sym.Choose("deltas", 4)
	body := sym.BytesUpTo("body", 0, sym.Param("N", 3))
	if sym.Bool("other-count") {
		nm = int(sym.Uint8("metrics"))
	}
	payload := join(ref, le32(uint32(nm)), le32(uint32(nd)), body)
	how := sym.Choose("how", 4)
	if how == 3 {
		how = 4
	}
	n, err := readAny(how, bytes.NewReader(join(chunkDoc(payload))))
	if err != nil {
		sym.Assert("no-samples", n == 0)
		sym.Reach("error")
		return
	}
	if how == 2 {
		sym.Assert("matrix", n == 1)
	} else {
		sym.Assert("count", n == nd+1)
	}
	sym.Reach("read")
}

// Damaged: a chunk with some bytes replaced, or cut, inside the payload.
func Damaged() {
	ref, nm := refDoc(sym.Choose("ref", 4))
	payload := join(ref, le32(uint32(nm)), le32(1), bytes.Repeat([]byte{1}, nm))
	if sym.Bool("cut") {
		payload = payload[:sym.Choose("at", len(payload))]
	} else {
		w := sym.Param("W", 2)
		at := sym.Choose("at", len(payload))
		for i := 0; i < w && at+i < len(payload); i++ {
			// sizes and the number of deltas stay small: they are how much memory a reader needs
			if p := at + i; (p >= len(ref)+4 && p < len(ref)+8) || (p >= 1 && p <= 3) {
				continue
			}
			payload[at+i] = sym.Uint8("b")
		}
	}
	_, err := readAny(sym.Choose("how", 3), bytes.NewReader(chunkDoc(payload)))
	if err == nil {
		sym.Reach("read")
	} else {
		sym.Reach("error")
	}
}

// Stream: documents of all kinds one after the other, with bytes replaced or cut anywhere.
func Stream() {
	c := ft.NewBaseCollector(4)
	_ = c.SetMetadata(birch.DC.Elements(birch.EC.Int32("m", 1)))
	_ = c.Add(birch.DC.Elements(birch.EC.Int64("a", 5)))
	_ = c.Add(birch.DC.Elements(birch.EC.Int64("a", 6)))
	one, err := c.Resolve()
	sym.Assert("resolve", err == nil)
	other := []byte(raw(birch.DC.Elements(birch.EC.Int32("type", 2))))
	data := join(one, other, one)
	how := sym.Choose("how", 2)
	if sym.Bool("cut") {
		md := int(one[0])
		ends := []int{0, md, len(one), len(one) + len(other), len(one) + len(other) + md, len(data)}
		// near the start or the end of any of the documents
		doc := sym.Choose("doc", len(ends))
		at := ends[doc] - 6 + sym.Choose("off", 46)
		if at < 0 || at > len(data) || (doc+1 < len(ends) && at >= ends[doc+1]) {
			return
		}
		n, err := readAny(how, bytes.NewReader(data[:at]))
		between, want := false, 0
		for _, e := range ends {
			between = between || e == at
		}
		if at >= len(one) {
			want += 2
		}
		if at == len(data) {
			want += 2
		}
		sym.Assert("complete-chunks", n == want)
		sym.Assert("cut", (err == nil) == between)
		sym.Reach("cut")
		return
	}
	w := sym.Param("W", 2)
	at := sym.Choose("at", int(one[0])+40)
	for i := 0; i < w; i++ {
		// sizes of documents, which are how much memory a reader needs, stay small
		if p := at + i; (p >= 1 && p <= 3) || (p > int(one[0]) && p <= int(one[0])+3) {
			continue
		}
		data[at+i] = sym.Uint8("b")
	}
	_, err = readAny(how, bytes.NewReader(data))
	if err == nil {
		sym.Reach("read")
	} else {
		sym.Reach("error")
	}
}
