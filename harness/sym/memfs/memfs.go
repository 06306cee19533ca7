// Package memfs is the file system the engine gives to the code it runs: its functions replace those
// of os (see engine/load.go). There is one directory, Dir; files live for one path.
package memfs

import (
	"io"
	"io/fs"
	"os"
	"runtime"
)

const Dir = "/scratch"

type node struct{ data []byte }

type handle struct {
	name   string
	n      *node
	pos    int
	read   bool
	write  bool
	closed bool
}

var (
	files   = map[string]*node{}
	handles = map[*os.File]*handle{}
	// Open counts the handles that were not closed.
	Open int
)

func fail(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func inDir(name string) bool {
	if len(name) <= len(Dir)+1 || name[:len(Dir)+1] != Dir+"/" {
		return false
	}
	for _, c := range []byte(name[len(Dir)+1:]) {
		if c == '/' {
			return false
		}
	}
	return true
}

func open(name string, n *node, read, write bool) *os.File {
	f := new(os.File)
	handles[f] = &handle{name: name, n: n, read: read, write: write}
	Open++
	return f
}

func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if !inDir(name) {
		return nil, fail("open", name, fs.ErrNotExist)
	}
	n := files[name]
	if n == nil && flag&os.O_CREATE == 0 {
		return nil, fail("open", name, fs.ErrNotExist)
	}
	if n != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, fail("open", name, fs.ErrExist)
	}
	if n == nil {
		n = &node{}
		files[name] = n
	}
	if flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	f := open(name, n, flag&os.O_WRONLY == 0, flag&(os.O_WRONLY|os.O_RDWR) != 0)
	if flag&os.O_APPEND != 0 {
		handles[f].pos = -1
	}
	return f, nil
}

func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenRead(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func ReadFile(name string) ([]byte, error) {
	n := files[name]
	if n == nil {
		return nil, fail("open", name, fs.ErrNotExist)
	}
	return append([]byte{}, n.data...), nil
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = Write(f, data)
	if e := Close(f); e != nil && err == nil {
		err = e
	}
	return err
}

func get(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, fs.ErrInvalid
	}
	h := handles[f]
	if h == nil {
		return nil, fs.ErrInvalid
	}
	if h.closed {
		return nil, fail(op, h.name, fs.ErrClosed)
	}
	return h, nil
}

func Write(f *os.File, b []byte) (int, error) {
	h, err := get(f, "write")
	if err != nil {
		return 0, err
	}
	if !h.write {
		return 0, fail("write", h.name, fs.ErrPermission)
	}
	if h.pos < 0 {
		h.n.data = append(h.n.data, b...)
		return len(b), nil
	}
	end := h.pos + len(b)
	if end > len(h.n.data) {
		h.n.data = append(h.n.data, make([]byte, end-len(h.n.data))...)
	}
	copy(h.n.data[h.pos:end], b)
	h.pos = end
	return len(b), nil
}

func WriteString(f *os.File, s string) (int, error) { return Write(f, []byte(s)) }

func Read(f *os.File, b []byte) (int, error) {
	h, err := get(f, "read")
	if err != nil {
		return 0, err
	}
	if !h.read {
		return 0, fail("read", h.name, fs.ErrPermission)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos < 0 || h.pos >= len(h.n.data) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.pos:])
	h.pos += n
	return n, nil
}

func Close(f *os.File) error {
	h, err := get(f, "close")
	if err != nil {
		return err
	}
	h.closed = true
	Open--
	return nil
}

func Sync(f *os.File) error { _, err := get(f, "sync"); return err }

func Name(f *os.File) string {
	if h := handles[f]; h != nil {
		return h.name
	}
	return ""
}

func Remove(name string) error {
	if files[name] == nil {
		return fail("remove", name, fs.ErrNotExist)
	}
	delete(files, name)
	return nil
}

func Rename(from, to string) error {
	if files[from] == nil || !inDir(to) {
		return fail("rename", from, fs.ErrNotExist)
	}
	files[to] = files[from]
	delete(files, from)
	return nil
}

func Mkdir() string { return Dir }

func OpenFiles() int { return Open }

var reads uint64

// ReadMemStats has counters that grow.
func ReadMemStats(m *runtime.MemStats) {
	reads++
	*m = runtime.MemStats{Alloc: 1000, Mallocs: 5000 + 7*reads, Frees: 3000 + 5*reads, HeapObjects: 2000 + 2*reads, HeapSys: 9000, HeapIdle: 5500, HeapInuse: 3500,
		NumGC: uint32(3 + reads/2), LastGC: 1700000000000000000}
	for i := range m.PauseNs {
		m.PauseNs[i] = uint64(i) + 1
	}
}
