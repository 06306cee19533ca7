package zlib

// Model of compress/zlib: compression is a lossless framing of the payload. A stream is the
// marker 'Z','L', the payload length as four little-endian bytes, and the payload. Malformed
// streams are rejected with an error, as the real package does.

import (
	"errors"
	"io"
)

const (
	NoCompression      = 0
	BestSpeed          = 1
	BestCompression    = 9
	DefaultCompression = -1
	HuffmanOnly        = -2
)

var (
	ErrChecksum   = errors.New("zlib: invalid checksum")
	ErrDictionary = errors.New("zlib: invalid dictionary")
	ErrHeader     = errors.New("zlib: invalid header")
)

type Resetter interface {
	Reset(r io.Reader, dict []byte) error
}

type Writer struct {
	w      io.Writer
	buf    []byte
	err    error
	closed bool
}

func NewWriter(w io.Writer) *Writer { return &Writer{w: w} }
func NewWriterLevel(w io.Writer, level int) (*Writer, error) {
	if level < HuffmanOnly || level > BestCompression {
		return nil, errors.New("zlib: invalid compression level")
	}
	return &Writer{w: w}, nil
}
func NewWriterLevelDict(w io.Writer, level int, dict []byte) (*Writer, error) {
	return NewWriterLevel(w, level)
}
func (z *Writer) Reset(w io.Writer) { *z = Writer{w: w} }
func (z *Writer) Write(p []byte) (int, error) {
	if z.err != nil {
		return 0, z.err
	}
	z.buf = append(z.buf, p...)
	return len(p), nil
}
func (z *Writer) Flush() error { return z.err }
func (z *Writer) Close() error {
	if z.closed || z.err != nil {
		return z.err
	}
	z.closed = true
	n := len(z.buf)
	out := []byte{'Z', 'L', byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
	out = append(out, z.buf...)
	_, z.err = z.w.Write(out)
	return z.err
}

type reader struct {
	r io.Reader
	n int
}

func NewReader(r io.Reader) (io.ReadCloser, error) {
	z := &reader{}
	if err := z.Reset(r, nil); err != nil {
		return nil, err
	}
	return z, nil
}
func NewReaderDict(r io.Reader, dict []byte) (io.ReadCloser, error) { return NewReader(r) }

func (z *reader) Reset(r io.Reader, dict []byte) error {
	var h [6]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return err
	}
	if h[0] != 'Z' || h[1] != 'L' {
		return ErrHeader
	}
	z.r = r
	z.n = int(h[2]) | int(h[3])<<8 | int(h[4])<<16 | int(h[5])<<24
	return nil
}

func (z *reader) Read(p []byte) (int, error) {
	if z.n == 0 {
		return 0, io.EOF
	}
	if len(p) > z.n {
		p = p[:z.n]
	}
	n, err := z.r.Read(p)
	z.n -= n
	if err == io.EOF && z.n > 0 {
		err = io.ErrUnexpectedEOF
	}
	if z.n == 0 {
		err = nil
	}
	return n, err
}

func (z *reader) Close() error { return nil }
