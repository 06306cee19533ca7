// Package sym is the harness vocabulary. Under the engine these functions introduce symbolic
// values, assumptions and assertions; compiled natively they replay one concrete assignment.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"net"
	"os"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	_ "verif/harness/sym/memfs"
	_ "verif/harness/sym/memnet"
)

type rec struct {
	Name string   `json:"name"`
	Kind string   `json:"kind"`
	Vals []uint64 `json:"vals"`
}

type file struct {
	Harness string           `json:"harness"`
	Params  map[string]int64 `json:"params"`
	Inputs  []rec            `json:"inputs"`
}

var (
	mu       sync.Mutex
	in       file
	pos      int
	Reached  []string
	Observed []string
	failedL  string
)

// Exit statuses of a native replay.
const (
	ExitOK       = 0
	ExitFail     = 3
	ExitAssume   = 4
	ExitMismatch = 5
	ExitPanic    = 6
)

// Load reads the assignment to replay.
func Load(path string) {
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &in)
	}
	if err != nil {
		fmt.Println("REPLAY cannot read assignment:", err)
		os.Exit(ExitMismatch)
	}
	pos = 0
}

func Harness() string { return in.Harness }

// Finish prints what the native run saw.
func Finish() {
	for _, r := range Reached {
		fmt.Println("REACH", r)
	}
	for _, o := range Observed {
		fmt.Println("OBS", o)
	}
}

func next(name, kind string, n int) []uint64 {
	mu.Lock()
	defer mu.Unlock()
	for pos < len(in.Inputs) && (in.Inputs[pos].Name == "sched" || in.Inputs[pos].Name == "select" || in.Inputs[pos].Kind == "rand") {
		pos++
	}
	if pos >= len(in.Inputs) {
		// past the recorded prefix: any value will do
		return make([]uint64, n)
	}
	r := in.Inputs[pos]
	if r.Name != name || len(r.Vals) != n {
		fmt.Printf("REPLAY mismatch: want %s/%d have %s/%d\n", name, n, r.Name, len(r.Vals))
		os.Exit(ExitMismatch)
	}
	pos++
	return r.Vals
}

func Bool(name string) bool       { return next(name, "bool", 1)[0] == 1 }
func Uint8(name string) uint8     { return uint8(next(name, "u8", 1)[0]) }
func Int8(name string) int8       { return int8(next(name, "i8", 1)[0]) }
func Uint16(name string) uint16   { return uint16(next(name, "u16", 1)[0]) }
func Int16(name string) int16     { return int16(next(name, "i16", 1)[0]) }
func Uint32(name string) uint32   { return uint32(next(name, "u32", 1)[0]) }
func Int32(name string) int32     { return int32(next(name, "i32", 1)[0]) }
func Uint64(name string) uint64   { return next(name, "u64", 1)[0] }
func Int64(name string) int64     { return int64(next(name, "i64", 1)[0]) }
func Int(name string) int         { return int(next(name, "i64", 1)[0]) }
func Float64(name string) float64 { return math.Float64frombits(next(name, "f64", 1)[0]) }

// Bytes is n unconstrained bytes.
func Bytes(name string, n int) []byte {
	v := next(name, "bytes", n)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v[i])
	}
	return b
}

func String(name string, n int) string { return string(Bytes(name, n)) }

// BytesUpTo is between lo and hi unconstrained bytes.
func BytesUpTo(name string, lo, hi int) []byte {
	return Bytes(name, lo+Choose(name+".len", hi-lo+1))
}

func StringUpTo(name string, lo, hi int) string {
	return String(name, lo+Choose(name+".len", hi-lo+1))
}

// Choose is an arbitrary value in [0,n).
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(name, "choose", 1)[0])
}

func Assume(c bool) {
	if !c {
		fmt.Println("REPLAY assumption does not hold")
		os.Exit(ExitAssume)
	}
}

func Assert(label string, c bool) {
	if !c {
		Finish()
		fmt.Println("REPRODUCED", label)
		os.Exit(ExitFail)
	}
}

func Reach(label string) { mu.Lock(); Reached = append(Reached, label); mu.Unlock() }

func Observe(label string, b []byte) {
	Observed = append(Observed, fmt.Sprintf("%s=%x", label, b))
}
func ObserveString(label string, s string) { Observe(label, []byte(s)) }

// Param is a bound of the exploration.
func Param(name string, def int) int {
	if v, ok := in.Params[name]; ok {
		return int(v)
	}
	return def
}

func Symbolic() bool     { return false }
func Concrete(n int) int { return n }

// Schedules explores all interleavings with at most bound preemptions from here on; one if it is negative.
func Schedules(bound int) {}

// Delays explores all interleavings with at most bound departures from a round robin from here on.
func Delays(bound int) {}

func TimersAnytime(n int) {}
func DetectRaces()        {}
func Yield()              { time.Sleep(2 * time.Millisecond) }
func LastPanic() string   { return "" }
func SetClock(ns int64)   {}

// Advance lets time pass.
func Advance(d time.Duration) { time.Sleep(d) }
func Debug(v any)             {}

// And/Or do not branch under the engine.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	p = true
	defer func() {
		if r := recover(); r != nil && os.Getenv("VERIF_TRACE") != "" {
			fmt.Println("PANIC", r)
		}
	}()
	f()
	return false
}

// NoPanic asserts that f returns normally.
func NoPanic(label string, f func()) {
	Assert(label, !Panics(f))
}

// helpers executed by the engine for string conversions
func RuneToString(r int64) string {
	var b [4]byte
	rr := rune(r)
	if int64(rr) != r {
		rr = utf8.RuneError
	}
	n := utf8.EncodeRune(b[:], rr)
	return string(b[:n])
}

func RunesToString(rs []rune) string {
	var out []byte
	for _, r := range rs {
		out = utf8.AppendRune(out, r)
	}
	return string(out)
}

func StringToRunes(s string) []rune {
	var out []rune
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		out = append(out, r)
		s = s[n:]
	}
	return out
}

var _ = strings.ToLower

// TempDir is a directory for the files of one run.
func TempDir() string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "verif-run")
	if err != nil {
		panic(err)
	}
	return d
}

// OpenFiles is the number of files of such directories that are open.
func OpenFiles() int {
	n := 0
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.Contains(to, "/verif-run") {
			n++
		}
	}
	return n
}

// FreePort is a port of 127.0.0.1 that nobody listens on.
func FreePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// Dial connects to a service that is about to listen.
func Dial(address string) net.Conn {
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", address)
		if err == nil {
			return c
		}
		if i > 3000 {
			panic(err)
		}
		time.Sleep(time.Millisecond)
	}
}

// CloseWrite tells the other side of a connection that nothing follows.
func CloseWrite(c net.Conn) {
	c.(interface{ CloseWrite() error }).CloseWrite()
}
