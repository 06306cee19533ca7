package wire

import (
	"bytes"
	"context"
	"errors"
	"io"
	"sync"

	"github.com/tychoish/birch/x/mrpc"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"verif/harness/sym"
)

var errBroken = errors.New("broken connection")

// conn delivers data in pieces of arbitrary size.
type conn struct {
	data  []byte
	off   int
	end   error
	early bool
	free  int
	stall int
}

func (c *conn) Read(p []byte) (int, error) {
	if c.off >= len(c.data) {
		return 0, c.end
	}
	n := len(p)
	if left := len(c.data) - c.off; n > left {
		n = left
	}
	if c.free > 0 {
		c.free--
		switch sym.Choose("piece", 5) {
		case 0:
			n = 1
		case 1:
			if n > 1 {
				n--
			}
		case 2:
			n = (n + 1) / 2
		case 3:
			if c.stall > 0 {
				c.stall--
				return 0, nil
			}
		}
	}
	copy(p, c.data[c.off:c.off+n])
	c.off += n
	if c.early && c.off == len(c.data) {
		return n, c.end
	}
	return n, nil
}

func small(k int) mongowire.Message {
	switch k {
	case 0:
		return mongowire.NewInsert("n", read(docBytes("i", 0)))
	case 1:
		return mongowire.NewGetMore("", sym.Int32("g"), 7)
	}
	return mongowire.NewKillCursors(sym.Int64("k"))
}

// large is a small message or, with BIG, one of a size.
func large(k int) mongowire.Message {
	if n := sym.Param("BIG", 0); n > 0 {
		return mongowire.NewInsert("n", read(bigDoc("i", sizes[sym.Choose("size", n)])))
	}
	return small(k)
}

// ReadMany: a connection carries any number of messages.
func ReadMany() {
	n := []int{10, 40}[sym.Choose("n", 2)]
	var all []byte
	var want []string
	for i := 0; i < n; i++ {
		m := mongowire.NewInsert("n", read(bigDoc("i", 60+13*i)), read(docBytes("j", 0))).Serialize()
		all = append(all, m...)
		want = append(want, string(m))
	}
	c := &conn{data: all, end: io.EOF, free: 2}
	var got []mongowire.Message
	for {
		m, err := mongowire.ReadMessage(context.Background(), c)
		if err != nil {
			sym.Assert("end", errors.Is(err, io.EOF))
			break
		}
		got = append(got, m)
	}
	sym.Assert("all", len(got) == n)
	for i, m := range got {
		sym.Assert("same", i < n && string(m.Serialize()) == want[i])
	}
	sym.Reach("done")
}

// ReadStream: messages come off a connection whole, in order, however it fragments or joins them.
func ReadStream() {
	ctx := context.Background()
	a, b := large(sym.Choose("a", 3)).Serialize(), small(sym.Choose("b", 2)).Serialize()
	all := join(a, b)
	cut := len(all)
	if sym.Choose("cut", 2) == 1 {
		if len(all) <= 250 {
			cut = sym.Choose("at", len(all))
		} else {
			cut = []int{3, 16, 20, 4096, 65536, len(a) - 1, len(a), len(a) + 3, len(a) + 16, len(all) - 1}[sym.Choose("at", 10)]
			sym.Assume(cut < len(all))
		}
	}
	c := &conn{data: all[:cut], end: io.EOF, early: sym.Choose("early", 2) == 1, free: sym.Param("FREE", 4), stall: 1}
	if sym.Choose("broken", 2) == 1 {
		c.end = errBroken
	}
	for i, want := range [][]byte{a, b} {
		start := c.off
		m, err := mongowire.ReadMessage(ctx, c)
		if cut-start < len(want) {
			sym.Assert("incomplete", err != nil && m == nil)
			if cut == start && !(c.early && i > 0) {
				sym.Assert("end-reported", errors.Is(err, c.end))
			}
			sym.Reach("incomplete")
			return
		}
		sym.Assert("read", err == nil)
		sym.Assert("whole", c.off == start+len(want))
		sym.Assert("same", string(m.Serialize()) == string(want))
		sym.Assert("header", int(m.Header().Size) == len(want))
	}
	m, err := mongowire.ReadMessage(ctx, c)
	sym.Assert("end", m == nil && errors.Is(err, c.end))
	sym.Reach("done")
}

// ReadHostile: any header is refused or answered without a panic, without reading beyond its size.
func ReadHostile() {
	head := sym.Bytes("head", 4)
	rest := sym.BytesUpTo("rest", 0, sym.Param("N", 20))
	c := &conn{data: join(head, rest), end: io.EOF}
	size := int(int32(uint32(head[0]) | uint32(head[1])<<8 | uint32(head[2])<<16 | uint32(head[3])<<24))
	if size > 64 && size <= 200*1024*1024 {
		sym.Assume(size == 65 || size == 4096)
	}
	m, err := mongowire.ReadMessage(context.Background(), c)
	if err != nil {
		return
	}
	sym.Assert("message", m != nil)
	sym.Assert("size", sym.And(size >= 16, size <= 4+len(rest)))
	sym.Assert("consumed", c.off == size)
	sym.Reach("read")
}

type sink struct {
	got   []byte
	fail  int // writes that succeed before an error
	free  int
	block chan struct{}
}

func (s *sink) Write(p []byte) (int, error) {
	if s.block != nil {
		<-s.block
	}
	n := len(p)
	if s.fail == 0 {
		n = sym.Choose("partial", 2) * (n / 2)
		s.got = append(s.got, p[:n]...)
		return n, errBroken
	}
	s.fail--
	if s.free > 0 && n > 0 {
		s.free--
		switch sym.Choose("take", 4) {
		case 0:
			n = 1
		case 1:
			n--
			if n == 0 {
				n = 1
			}
		case 2:
			n = (n + 1) / 2
		}
	}
	s.got = append(s.got, p[:n]...)
	return n, nil
}

// Send: a message is written whole and once, however much each write takes; a failed write is an error.
func Send() {
	m := large(sym.Choose("m", 3))
	w := &sink{fail: -1, free: sym.Param("FREE", 3)}
	if sym.Choose("fails", 2) == 1 {
		w.fail = sym.Choose("fail", 3)
	}
	err := mongowire.SendMessage(context.Background(), m, w)
	want := m.Serialize()
	if err != nil {
		sym.Assert("failed", w.fail == 0 && errors.Is(err, errBroken))
		sym.Assert("prefix", bytes.HasPrefix(want, w.got))
		sym.Reach("failed")
		return
	}
	sym.Assert("written", string(w.got) == string(want))
	sym.Reach("done")
}

type blocked struct{ ch chan struct{} }

func (b *blocked) Read(p []byte) (int, error) {
	<-b.ch
	return 0, io.EOF
}

// Cancelled: cancelling the context ends a read or a write that is stuck, with an error.
func Cancelled() {
	sym.Schedules(sym.Param("PREEMPT", 1))
	ctx, cancel := context.WithCancel(context.Background())
	stuck := make(chan struct{})
	before := sym.Choose("before", 2) == 1
	if before {
		cancel()
	} else {
		go cancel()
	}
	defer cancel()
	if sym.Choose("dir", 2) == 0 {
		// stuck at the start or in the middle of a message
		var r io.Reader = &blocked{stuck}
		whole := small(1).Serialize()
		if sym.Choose("some", 2) == 1 {
			r = io.MultiReader(bytes.NewReader(whole[:[]int{2, 4, 10}[sym.Choose("n", 3)]]), r)
		}
		m, err := mongowire.ReadMessage(ctx, r)
		sym.Assert("read-ends", m == nil && errors.Is(err, context.Canceled))
	} else {
		w := &sink{fail: -1, block: stuck}
		err := mongowire.SendMessage(ctx, small(1), w)
		sym.Assert("write-ends", errors.Is(err, context.Canceled))
		if before {
			sym.Assert("nothing-written", len(w.got) == 0)
		}
	}
	close(stuck)
	sym.Reach("done")
}

// Namespaces: database, collection and command parts of any namespace.
func Namespaces() {
	ns := sym.StringUpTo("ns", 0, sym.Param("N", 5))
	db, coll := mongowire.NamespaceToDB(ns), mongowire.NamespaceToCollection(ns)
	for i := 0; i < len(db); i++ {
		sym.Assert("db-no-dot", db[i] != '.')
	}
	if len(db) == len(ns) {
		sym.Assert("no-dot", db == ns && coll == "")
		sym.Assert("no-command", !mongowire.NamespaceIsCommand(ns))
		return
	}
	sym.Assert("parts", db+"."+coll == ns)
	sym.Assert("command", mongowire.NamespaceIsCommand(ns) == (len(coll) > 0 && coll[0] == '$'))
	sym.Reach("dotted")
}

// Scopes: which request scopes are valid.
func Scopes() {
	s := &mongowire.OpScope{Type: mongowire.OpType(sym.Int32("type")), Context: []string{"", "db.c"}[sym.Choose("ctx", 2)], Command: []string{"", "ping"}[sym.Choose("cmd", 2)]}
	ctx, cmd := s.Context != "", s.Command != ""
	want := false
	switch s.Type {
	case mongowire.OP_COMMAND, mongowire.OP_MSG:
		want = cmd
	case mongowire.OP_DELETE, mongowire.OP_UPDATE, mongowire.OP_QUERY, mongowire.OP_INSERT, mongowire.OP_GET_MORE:
		want = ctx && !cmd
	case mongowire.OP_KILL_CURSORS:
		want = !ctx && !cmd
	}
	sym.Assert("valid", (s.Validate() == nil) == want)
	sym.Reach("done")
}

var called int

func handler(k int) mrpc.HandlerFunc {
	return func(context.Context, io.Writer, mongowire.Message) { called = k }
}

func pick(n string) mongowire.OpScope {
	t := []mongowire.OpType{mongowire.OP_COMMAND, mongowire.OP_MSG, mongowire.OP_INSERT}[sym.Choose(n+".t", 3)]
	return mongowire.OpScope{Type: t, Context: []string{"", "x", "y"}[sym.Choose(n+".ctx", 3)], Command: []string{"", "p", "q"}[sym.Choose(n+".cmd", 3)]}
}

// Registry: a handler is found for exactly its scope, or for any context when it has none; a
// scope is registered once and never replaced.
func Registry() {
	reg := &mrpc.OperationRegistry{}
	type entry struct {
		s mongowire.OpScope
		k int
	}
	var have []entry
	n := sym.Param("N", 2)
	for i := 0; i < n; i++ {
		s := pick("s")
		k := i + 1
		dup := false
		for _, e := range have {
			if e.s == s {
				dup = true
			}
		}
		if sym.Choose("nil", 4) == 3 {
			sym.Assert("nil-handler", reg.Add(s, nil) != nil)
			continue
		}
		err := reg.Add(s, handler(k))
		sym.Assert("added", (err == nil) == (s.Validate() == nil && !dup))
		if err == nil {
			have = append(have, entry{s, k})
		}
	}
	q := pick("q")
	want, fallback := 0, 0
	for _, e := range have {
		if e.s == q {
			want = e.k
		}
		if g := q; e.s.Context == "" {
			g.Context = ""
			if e.s == g {
				fallback = e.k
			}
		}
	}
	if want == 0 {
		want = fallback
	}
	asked := q
	h, ok := reg.Get(&q)
	sym.Assert("query-kept", asked == q)
	sym.Assert("found", ok == (want != 0))
	if ok {
		called = 0
		h(context.Background(), nil, nil)
		sym.Assert("right-handler", called == want)
		sym.Reach("found")
	}
	sym.Reach("done")
}

// RegistryShared: registration and lookup from several goroutines.
func RegistryShared() {
	sym.Schedules(sym.Param("PREEMPT", 2))
	sym.DetectRaces()
	reg := &mrpc.OperationRegistry{}
	var wg sync.WaitGroup
	errs := make([]error, 2)
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_, _ = reg.Get(&mongowire.OpScope{Type: mongowire.OP_COMMAND, Command: "p"})
			errs[g] = reg.Add(mongowire.OpScope{Type: mongowire.OP_COMMAND, Command: "p"}, handler(g+1))
		}()
	}
	wg.Wait()
	sym.Assert("exactly-one", (errs[0] == nil) != (errs[1] == nil))
	sym.Reach("done")
}
