package wire

import (
	"bytes"
	"context"
	"errors"
	"io"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"github.com/tychoish/birch/x/mrpc/shell"
	"verif/harness/sym"
)

// table is a service that only keeps its handlers.
type table struct {
	reg mrpc.OperationRegistry
}

func (t *table) Address() string { return "here:1" }
func (t *table) RegisterOperation(s *mongowire.OpScope, h mrpc.HandlerFunc) error {
	return t.reg.Add(*s, h)
}
func (t *table) Run(context.Context) error        { return nil }
func (t *table) RegisterErrorHandler(func(error)) {}

func opKind() mongowire.OpType {
	return []mongowire.OpType{mongowire.OP_COMMAND, mongowire.OP_MSG}[sym.Choose("op", 2)]
}

// exchange sends a request document through the wire to its handler and returns the response document.
func exchange(svc *table, t mongowire.OpType, req *birch.Document) (*birch.Document, bool) {
	ctx := context.Background()
	m, err := shell.RequestToMessage(t, req)
	sym.Assert("request", err == nil)
	var toServer, toClient bytes.Buffer
	sym.Assert("sent", mongowire.SendMessage(ctx, m, &toServer) == nil)
	got, err := mongowire.ReadMessage(ctx, &toServer)
	sym.Assert("received", err == nil)
	d, err := shell.RequestMessageToDocument(got)
	sym.Assert("request-document", err == nil && string(raw(d)) == string(raw(req)))
	h, ok := svc.reg.Get(got.Scope())
	if !ok {
		return nil, false
	}
	h(ctx, &toClient, got)
	back, err := mongowire.ReadMessage(ctx, &toClient)
	sym.Assert("answered", err == nil && toClient.Len() == 0)
	if t == mongowire.OP_MSG {
		sym.Assert("answer-op", back.Header().OpCode == mongowire.OP_MSG)
	} else {
		sym.Assert("answer-op", back.Header().OpCode == mongowire.OP_REPLY)
	}
	out, err := shell.ResponseMessageToDocument(back)
	sym.Assert("answer-document", err == nil)
	return out, true
}

// ShellExchange: the built-in commands are answered, to the right protocol, exactly once.
func ShellExchange() {
	svc := &table{}
	_, err := shell.MakeShellService(svc)
	sym.Assert("registered", err == nil)
	type cmd struct {
		name string
		ok   int
		key  string
	}
	cmds := []cmd{{"isMaster", 1, "maxWireVersion"}, {"whatsmyuri", 1, "you"}, {"buildinfo", 1, "version"}, {"buildInfo", 1, "version"}, {"getLog", 1, "log"}, {"endSessions", 0, ""}, {"replSetGetStatus", 0, ""}, {"getFreeMonitoringStatus", 0, ""}, {"listCollections", 0, ""}, {"getCmdLineOpts", 0, ""}, {"other", 0, ""}}
	c := cmds[sym.Choose("cmd", len(cmds))]
	req := birch.DC.Elements(birch.EC.Int32(c.name, sym.Int32("arg")), birch.EC.String("$db", "admin"))
	resp, ok := exchange(svc, opKind(), req)
	sym.Assert("known", ok == (c.name != "other"))
	if !ok {
		return
	}
	var er shell.ErrorResponse
	sym.Assert("understood", er.UnmarshalDocument(resp) == nil)
	sym.Assert("status", er.OK == c.ok && er.ErrorMessage == "" && (er.SuccessOrError() == nil) == (c.ok == 1))
	if c.key != "" {
		v, err := resp.LookupErr(c.key)
		sym.Assert("payload", err == nil)
		if c.key == "you" {
			s, ok := v.StringValueOK()
			sym.Assert("address", ok && s == "here:1")
		}
	}
	sym.Reach("done")
}

// ShellResponses: an error or success written by a handler is what the client sees.
func ShellResponses() {
	svc := &table{}
	msg := sym.StringUpTo("msg", 0, 3)
	how := sym.Choose("how", 4)
	arg := sym.Int32("arg")
	t := opKind()
	var werr error
	handler := func(ctx context.Context, w io.Writer, m mongowire.Message) {
		switch how {
		case 0:
			werr = shell.WriteOKResponse(ctx, w, m.Header().OpCode, "p")
		case 1:
			werr = shell.WriteNotOKResponse(ctx, w, m.Header().OpCode, "p")
		case 2:
			werr = shell.WriteErrorResponse(ctx, w, m.Header().OpCode, errors.New(msg), "p")
		case 3:
			d, err := shell.RequestMessageToDocument(m)
			sym.Assert("handler-document", err == nil)
			r, err := shell.ResponseToMessage(m.Header().OpCode, d)
			sym.Assert("handler-response", err == nil)
			werr = shell.WriteResponse(ctx, w, r, "p")
		}
	}
	for _, op := range []mongowire.OpType{mongowire.OP_COMMAND, mongowire.OP_MSG} {
		sym.Assert("added", svc.RegisterOperation(&mongowire.OpScope{Type: op, Command: "p"}, handler) == nil)
	}
	req := birch.DC.Elements(birch.EC.Int32("p", arg), birch.EC.String("s", msg))
	resp, ok := exchange(svc, t, req)
	sym.Assert("handled", ok && werr == nil)
	if how == 3 {
		sym.Assert("echo", string(raw(resp)) == string(raw(req)))
		sym.Reach("echo")
		return
	}
	var er shell.ErrorResponse
	sym.Assert("understood", er.UnmarshalDocument(resp) == nil)
	err := er.SuccessOrError()
	switch how {
	case 0:
		sym.Assert("ok", err == nil && er.OK == 1 && er.ErrorMessage == "")
	case 1:
		sym.Assert("not-ok", err != nil && er.OK == 0)
	case 2:
		sym.Assert("error", er.OK == 0 && er.ErrorMessage == msg && err != nil && (msg == "" || err.Error() == msg))
	}
	sym.Reach("done")
}

// ShellWrong: error responses of any shape are read or refused.
func ShellWrong() {
	t := sym.Uint8("t")
	b := sym.BytesUpTo("v", 0, sym.Param("N", 6))
	key := []string{"ok", "errmsg"}[sym.Choose("key", 2)]
	body := join([]byte{t}, []byte(key), []byte{0}, b)
	d, err := birch.ReadDocument(join(put32(len(body)+5), body, []byte{0}))
	if err != nil {
		return
	}
	var er shell.ErrorResponse
	if er.UnmarshalDocument(d) == nil {
		_ = er.SuccessOrError()
		sym.Reach("read")
	}
}
