package smoke

import (
	"encoding/binary"
	"fmt"
	"github.com/tychoish/birch"
	"strconv"
	"verif/harness/sym"
)

func Basic() {
	x := sym.Uint32("x")
	var b [4]byte
	binary.LittleEndian.PutUint32(b[:], x)
	sym.Assert("rt", binary.LittleEndian.Uint32(b[:]) == x)
	y := sym.Int32("y")
	if y > 10 && y < 20 {
		sym.Reach("mid")
		sym.Assert("bad", y != 15)
	}
}

func Str() {
	s := sym.StringUpTo("s", 0, 3)
	n, err := strconv.Atoi(s)
	if err == nil {
		sym.Reach("num")
		sym.Assert("lt", n < 999)
	}
	sym.Assert("fmt", fmt.Sprintf("%s-%d", "a", 5) == "a-5")
}

func Doc() {
	i := sym.Int64("i")
	d := birch.DC.Elements(birch.EC.Int64("a", i), birch.EC.String("b", sym.StringUpTo("s", 0, 3)))
	b, err := d.MarshalBSON()
	sym.Assert("noerr", err == nil)
	d2, err := birch.ReadDocument(b)
	sym.Assert("noerr2", err == nil)
	sym.Assert("eq", d.Len() == d2.Len())
	sym.Assert("val", d2.Lookup("a").Int64() == i)
	sym.Reach("end")
}

func Raw() {
	b := sym.BytesUpTo("b", 0, sym.Param("N", 8))
	sym.NoPanic("read", func() {
		d, err := birch.ReadDocument(b)
		if err == nil {
			sym.Reach("ok")
			_ = d
		}
	})
}
