package rand

// Model of crypto/rand: a fixed, non-repeating byte sequence. Nothing in the library may depend on
// which bytes these are; harnesses that care state their own.

import (
	"io"
	"math/big"
)

type reader struct{ n uint32 }

func (r *reader) Read(b []byte) (int, error) {
	for i := range b {
		r.n = r.n*1664525 + 1013904223
		b[i] = byte(r.n >> 24)
	}
	return len(b), nil
}

var Reader io.Reader = &reader{n: 1}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(rand io.Reader, max *big.Int) (*big.Int, error) { return big.NewInt(0), nil }

func Prime(rand io.Reader, bits int) (*big.Int, error) { return big.NewInt(3), nil }

func Text() string { return "MODELMODELMODELMODELMODELM" }
