package wire

import (
	"context"
	"fmt"
	"io"
	"net"
	"sync"

	"verif/harness/sym"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"github.com/tychoish/birch/x/mrpc/shell"
)

// client is a connection to the service under test, and what is expected of it.
type client struct {
	conn   net.Conn
	want   map[int32]bool
	errors int
	ended  bool
}

func (c *client) send(kind int, id int32) {
	name := []string{"ok", "boom", "none"}
	if kind == 3 {
		c.conn.Write([]byte{5, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0})
	} else {
		m, err := shell.RequestToMessage(mongowire.OP_MSG, birch.DC.Elements(birch.EC.Int32(name[kind], id), birch.EC.String("$db", "db")))
		sym.Assert("request", err == nil)
		sym.Assert("sent", mongowire.SendMessage(context.Background(), m, c.conn) == nil || c.ended)
	}
	switch {
	case c.ended:
	case kind == 0:
		c.want[id] = true
	default:
		c.errors++
		c.ended = kind > 1
	}
}

// drain reads all responses until the connection ends.
func (c *client) drain() {
	for {
		m, err := mongowire.ReadMessage(context.Background(), c.conn)
		if err != nil {
			break
		}
		d, err := shell.ResponseMessageToDocument(m)
		sym.Assert("response", err == nil)
		id, ok := d.Lookup("id").Int32OK()
		sym.Assert("answers", ok && c.want[id])
		delete(c.want, id)
	}
}

// Service: every request on every connection is answered exactly once, whatever else happens on the
// connections, and the service ends when its context does.
func Service() {
	ending := sym.Param("END", 0) == 1
	explore := func(yes bool) {
		if yes {
			sym.Delays(sym.Param("DELAYS", 2))
		} else {
			sym.Delays(-1)
		}
	}
	sym.DetectRaces()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	port := sym.FreePort()
	svc := mrpc.NewBasicService("127.0.0.1", port)
	mu := &sync.Mutex{}
	failures := 0
	svc.RegisterErrorHandler(func(err error) {
		mu.Lock()
		defer mu.Unlock()
		sym.Assert("error", err != nil)
		failures++
	})
	scope := func(name string) *mongowire.OpScope {
		return &mongowire.OpScope{Type: mongowire.OP_MSG, Command: name}
	}
	sym.Assert("register", svc.RegisterOperation(scope("ok"), func(ctx context.Context, w io.Writer, m mongowire.Message) {
		d, err := shell.RequestMessageToDocument(m)
		sym.Assert("request-document", err == nil)
		id, ok := d.Lookup("ok").Int32OK()
		sym.Assert("id", ok)
		sym.Yield()
		out, err := shell.ResponseToMessage(mongowire.OP_MSG, birch.DC.Elements(birch.EC.Int32("id", id)))
		sym.Assert("made", err == nil)
		_ = shell.WriteResponse(ctx, w, out, "ok")
	}) == nil)
	sym.Assert("register", svc.RegisterOperation(scope("boom"), func(context.Context, io.Writer, mongowire.Message) {
		panic("boom")
	}) == nil)

	ended := make(chan error, 1)
	go func() { ended <- svc.Run(ctx) }()
	n := 1 + sym.Choose("clients", sym.Param("CLIENTS", 2))
	clients := make([]*client, n)
	id := int32(0)
	for i := range clients {
		clients[i] = &client{conn: sym.Dial(fmt.Sprintf("127.0.0.1:%d", port)), want: map[int32]bool{}}
	}
	if !ending && sym.Bool("taken") {
		sym.Assert("taken", mrpc.NewBasicService("127.0.0.1", port).Run(ctx) != nil)
		sym.Reach("taken")
	}
	k := 1 + sym.Choose("n", sym.Param("N", 2))
	explore(!ending)
	for i := 0; i < k; i++ {
		c := clients[i%n]
		id++
		c.send(sym.Choose("kind", 4), id)
	}
	expect := 0
	for _, c := range clients {
		expect += c.errors
		if sym.Bool("leave") {
			// gone: what it was to get is lost
			c.conn.Close()
			expect = -1000
			continue
		}
		sym.CloseWrite(c.conn)
		c.drain()
		sym.Assert("all-answered", len(c.want) == 0)
		c.conn.Close()
	}
	mu.Lock()
	sym.Assert("errors-reported", failures == expect || expect < 0)
	mu.Unlock()

	idle := ending && sym.Bool("idle")
	var last net.Conn
	explore(ending)
	if idle {
		last = sym.Dial(fmt.Sprintf("127.0.0.1:%d", port))
	}
	cancel()
	sym.Assert("ends", <-ended == nil)
	if idle {
		_, err := last.Read(make([]byte, 1))
		sym.Assert("disconnected", err != nil)
		last.Close()
		sym.Reach("idle")
	}
	sym.Reach("done")
}
