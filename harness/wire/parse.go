// Package wire holds the harnesses for the wire protocol.
package wire

import (
	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"github.com/tychoish/birch/x/mrpc/shell"
	"verif/harness/sym"
)

var ops = []mongowire.OpType{mongowire.OP_REPLY, mongowire.OP_UPDATE, mongowire.OP_INSERT, mongowire.OP_QUERY, mongowire.OP_GET_MORE, mongowire.OP_DELETE, mongowire.OP_KILL_CURSORS, mongowire.OP_COMMAND, mongowire.OP_COMMAND_REPLY, mongowire.OP_MSG, mongowire.RESERVED}

func put32(v int) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

func put64(v int64) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)}
}

func join(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// use does with a parsed message what a service does.
func use(m mongowire.Message) {
	scope := m.Scope()
	if scope != nil {
		_ = scope.Validate()
	}
	reg := &mrpc.OperationRegistry{}
	_, ok := reg.Get(scope)
	sym.Assert("no-handler", !ok)
	_ = m.HasResponse()
	_ = m.Header()
	_, _ = mongowire.GetModel(m)
	_, _ = shell.RequestMessageToDocument(m)
	_, _ = shell.ResponseMessageToDocument(m)
	out := m.Serialize()
	sym.Assert("serialized-size", len(out) >= 16 && int(m.Header().Size) == len(out))
	sym.Assert("size-field", string(out[:4]) == string(put32(len(out))))
}

// ParseAny: any bytes after a header are a message or an error.
func ParseAny() {
	n := sym.Param("N", 10)
	op := ops[sym.Choose("op", len(ops))]
	body := sym.BytesUpTo("body", 0, n)
	h := mongowire.MessageHeader{Size: int32(16 + len(body)), RequestID: 1, OpCode: op}
	m, err := h.Parse(body)
	if err != nil {
		return
	}
	sym.Assert("message", m != nil)
	sym.Assert("known-op", op != mongowire.RESERVED)
	use(m)
	sym.Reach("parsed")
}

// ParseNear: bodies that are well formed except for a few arbitrary bytes and a cut end.
func ParseNear() {
	doc := docBytes("a", 0)
	ns := []byte("d.c\x00")
	if sym.Choose("cmd", 2) == 1 {
		ns = []byte("d.$cmd\x00")
	}
	k := sym.Choose("op", 10)
	var b []byte
	switch ops[k] {
	case mongowire.OP_REPLY:
		b = join(put32(0), put64(0), put32(0), put32(1), doc)
	case mongowire.OP_UPDATE:
		b = join(put32(0), ns, put32(0), doc, doc)
	case mongowire.OP_INSERT:
		b = join(put32(0), ns, doc)
	case mongowire.OP_QUERY:
		b = join(put32(0), ns, put32(0), put32(0), doc, doc)
	case mongowire.OP_GET_MORE:
		b = join(put32(0), ns, put32(0), put64(0))
	case mongowire.OP_DELETE:
		b = join(put32(0), ns, put32(0), doc)
	case mongowire.OP_KILL_CURSORS:
		b = join(put32(0), put32(2), put64(1), put64(2))
	case mongowire.OP_COMMAND:
		b = join([]byte("d\x00c\x00"), doc, doc, doc)
	case mongowire.OP_COMMAND_REPLY:
		b = join(doc, doc, doc)
	case mongowire.OP_MSG:
		switch sym.Choose("form", 4) {
		case 0:
			b = join(put32(0), []byte{0}, doc)
		case 1:
			b = join(put32(1), []byte{0}, doc, put32(7))
		case 2:
			b = join(put32(0), []byte{1}, put32(4+2+2*len(doc)), []byte("x\x00"), doc, doc)
		case 3:
			b = join(put32(1), []byte{0}, doc, []byte{1}, put32(4+2+len(doc)), []byte("x\x00"), doc, put32(7))
		}
	}
	if sym.Choose("cut", 2) == 1 {
		b = b[:sym.Choose("at", len(b))]
	} else {
		// four consecutive arbitrary bytes: any length or count field
		w := sym.Param("W", 4)
		at := sym.Choose("hole", len(b))
		for i := 0; i < w && at+i < len(b); i++ {
			b[at+i] = sym.Uint8("x")
		}
	}
	h := mongowire.MessageHeader{Size: int32(16 + len(b)), RequestID: 1, OpCode: ops[k]}
	m, err := h.Parse(b)
	if err != nil {
		return
	}
	sym.Assert("message", m != nil)
	use(m)
	sym.Reach("parsed")
}

// docBytes: 0: {a: int32}; 1: {}; 2: {"": bool}
func docBytes(name string, shape int) []byte {
	switch shape {
	case 0:
		return join(put32(12), []byte{0x10, 'a', 0}, put32(int(sym.Int32(name))), []byte{0})
	case 1:
		return join(put32(5), []byte{0})
	}
	return join(put32(8), []byte{0x08, 0}, []byte{sym.Uint8(name) & 1}, []byte{0})
}

func anyDoc(name string) []byte { return docBytes(name, sym.Choose(name+".shape", 3)) }

func read(b []byte) *birch.Document {
	d, err := birch.ReadDocument(append([]byte(nil), b...))
	sym.Assert("doc", err == nil)
	return d
}
