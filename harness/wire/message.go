package wire

import (
	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc/model"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"github.com/tychoish/birch/x/mrpc/shell"
	"verif/harness/sym"
)

var sizes = []int{120, 127, 255, 300, 1000, 5000, 33000, 70000}

// name is any text without a NUL of up to max bytes or, if max is negative, a text of one of the sizes.
func name(n string, max int) string {
	if max < 0 {
		b := make([]byte, sizes[sym.Choose(n+".size", -max)])
		for i := range b {
			b[i] = "name.of-something"[i%17]
		}
		x := sym.Bytes(n, 1)[0]
		sym.Assume(x != 0)
		b[len(b)-1] = x
		return string(b)
	}
	s := sym.StringUpTo(n, 0, max)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != 0)
	}
	return s
}

// count is a number of things, few or, with MANY, more.
func count(n string) int {
	if m := sym.Param("MANY", 0); m > 0 {
		return []int{4, 33, 260}[sym.Choose(n, m)]
	}
	return sym.Choose(n, 3)
}

// bigDoc is a document of about n bytes.
func bigDoc(name string, n int) []byte {
	b := put32(0)
	for i := 0; len(b)+40 < n; i++ {
		b = append(b, 0x02, 'k', byte('0'+i%10), 0)
		l := 11 + (n-len(b))/3
		b = append(b, put32(l)...)
		for j := 0; j < l-1; j++ {
			b = append(b, byte('a'+j%26))
		}
		b = append(b, 0)
	}
	b = append(b, 0x10, 'x', 0)
	b = append(append(b, sym.Bytes(name, 4)...), 0)
	copy(b, put32(len(b)))
	return b
}

func raw(d *birch.Document) []byte {
	b, err := d.MarshalBSON()
	sym.Assert("marshal", err == nil)
	return b
}

// message makes a message of a given kind and the exact bytes the protocol gives its body.
func message(kind int) (mongowire.Message, []byte, mongowire.OpType, func(mongowire.Message)) {
	nsz := sym.Param("NS", 1)
	a, b := anyDoc("a"), docBytes("b", 0)
	if n := sym.Param("BIG", 0); n > 0 {
		a = bigDoc("a", sizes[sym.Choose("a.size", n)])
	}
	da, db := read(a), read(b)
	flags := sym.Int32("flags")
	switch kind {
	case 0:
		n := count("docs")
		docs, want := []birch.Document{}, []byte{}
		for i := 0; i < n; i++ {
			docs = append(docs, *[]*birch.Document{da, db}[i%2])
			want = append(want, [][]byte{a, b}[i%2]...)
		}
		cur, from, num := sym.Int64("cursor"), sym.Int32("from"), sym.Int32("num")
		return mongowire.NewReply(cur, flags, from, num, docs), join(put32(int(flags)), put64(cur), put32(int(from)), put32(int(num)), want), mongowire.OP_REPLY, func(m mongowire.Message) {
			r := m.(*mongowire.ReplyMessage)
			sym.Assert("reply-fields", sym.And(r.CursorId == cur, r.StartingFrom == from, r.NumberReturned == num, r.Flags == flags))
			sym.Assert("reply-docs", len(r.Docs) == n)
			for i := range r.Docs {
				sym.Assert("reply-doc", string(raw(&r.Docs[i])) == string([][]byte{a, b}[i%2]))
			}
			md, op := mongowire.GetModel(m)
			mr := md.(*model.Reply)
			sym.Assert("reply-model", sym.And(op == mongowire.OP_REPLY, mr.CursorID == cur, mr.StartingFrom == from, len(mr.Contents) == n, mr.CursorNotFound == (flags&1 == 1), mr.QueryFailure == (flags&2 == 2)))
			d, err := shell.ResponseMessageToDocument(m)
			sym.Assert("response", (err == nil) == (n > 0))
			if err == nil {
				sym.Assert("response-doc", string(raw(d)) == string(a))
			}
			sym.Assert("no-scope", m.Scope() == nil && !m.HasResponse())
		}
	case 1:
		ns := name("ns", nsz)
		return mongowire.NewUpdate(ns, flags, da, db), join(put32(0), []byte(ns), []byte{0}, put32(int(flags)), a, b), mongowire.OP_UPDATE, func(m mongowire.Message) {
			md, op := mongowire.GetModel(m)
			u := md.(*model.Update)
			sym.Assert("update", op == mongowire.OP_UPDATE && u.Namespace == ns && string(raw(u.Filter)) == string(a) && string(raw(u.Update)) == string(b))
			sym.Assert("update-flags", sym.And(u.Upsert == (flags&1 == 1), u.Multi == (flags&2 == 2)))
			scope(m, mongowire.OP_UPDATE, ns, "", false)
		}
	case 2:
		ns := name("ns", nsz)
		n := count("docs")
		docs, want := []*birch.Document{}, []byte{}
		for i := 0; i < n; i++ {
			docs = append(docs, []*birch.Document{da, db}[i%2])
			want = append(want, [][]byte{a, b}[i%2]...)
		}
		return mongowire.NewInsert(ns, docs...), join(put32(0), []byte(ns), []byte{0}, want), mongowire.OP_INSERT, func(m mongowire.Message) {
			md, op := mongowire.GetModel(m)
			u := md.(*model.Insert)
			sym.Assert("insert", op == mongowire.OP_INSERT && u.Namespace == ns && len(u.Documents) == n)
			for i := range u.Documents {
				sym.Assert("insert-doc", string(raw(&u.Documents[i])) == string([][]byte{a, b}[i%2]))
			}
			scope(m, mongowire.OP_INSERT, ns, "", false)
		}
	case 3:
		nsq := nsz + 2
		if nsz < 0 {
			nsq = nsz
		}
		ns := name("ns", nsq)
		skip, ret := sym.Int32("skip"), sym.Int32("ret")
		body := join(put32(int(flags)), []byte(ns), []byte{0}, put32(int(skip)), put32(int(ret)), a)
		proj := sym.Choose("project", 2) == 1
		var dp *birch.Document
		if proj {
			dp = db
			body = append(body, b...)
		}
		dot := -1
		for i := 0; i < len(ns); i++ {
			if ns[i] == '.' {
				dot = i
				break
			}
		}
		cmd := dot >= 0 && dot+1 < len(ns) && ns[dot+1] == '$'
		return mongowire.NewQuery(ns, flags, skip, ret, da, dp), body, mongowire.OP_QUERY, func(m mongowire.Message) {
			if cmd && m.Header().OpCode == mongowire.OP_QUERY {
				return // the unparsed message
			}
			md, op := mongowire.GetModel(m)
			if cmd {
				c := md.(*model.Command)
				e, ok := da.ElementAtOK(0)
				sym.Assert("command-doc", ok)
				sym.Assert("command", op == mongowire.OP_COMMAND && c.DB == ns[:dot] && c.ConvertedFromQuery && c.Command == e.Key() && string(raw(c.Arguments)) == string(a))
				scope(m, mongowire.OP_COMMAND, ns[:dot], e.Key(), true)
				d, err := shell.RequestMessageToDocument(m)
				sym.Assert("request", err == nil && string(raw(d)) == string(a))
				sym.Reach("command")
				return
			}
			q := md.(*model.Query)
			sym.Assert("query", op == mongowire.OP_QUERY && q.Namespace == ns && sym.And(q.Skip == skip, q.NReturn == ret) && string(raw(q.Query)) == string(a) && (q.Project != nil) == proj)
			if proj {
				sym.Assert("query-project", string(raw(q.Project)) == string(b))
			}
			scope(m, mongowire.OP_QUERY, ns, "", true)
		}
	case 4:
		ns := name("ns", nsz)
		num, cur := sym.Int32("num"), sym.Int64("cursor")
		return mongowire.NewGetMore(ns, num, cur), join(put32(0), []byte(ns), []byte{0}, put32(int(num)), put64(cur)), mongowire.OP_GET_MORE, func(m mongowire.Message) {
			md, op := mongowire.GetModel(m)
			g := md.(*model.GetMore)
			sym.Assert("getmore", op == mongowire.OP_GET_MORE && g.Namespace == ns && sym.And(g.NReturn == num, g.CursorID == cur))
			scope(m, mongowire.OP_GET_MORE, ns, "", true)
		}
	case 5:
		ns := name("ns", nsz)
		return mongowire.NewDelete(ns, flags, da), join(put32(0), []byte(ns), []byte{0}, put32(int(flags)), a), mongowire.OP_DELETE, func(m mongowire.Message) {
			md, op := mongowire.GetModel(m)
			g := md.(*model.Delete)
			sym.Assert("delete", op == mongowire.OP_DELETE && g.Namespace == ns && string(raw(g.Filter)) == string(a))
			scope(m, mongowire.OP_DELETE, ns, "", false)
		}
	case 6:
		n := count("cursors")
		ids, want := []int64{}, []byte{}
		for i := 0; i < n; i++ {
			ids = append(ids, sym.Int64("id"))
			want = append(want, put64(ids[i])...)
		}
		return mongowire.NewKillCursors(ids...), join(put32(0), put32(n), want), mongowire.OP_KILL_CURSORS, func(m mongowire.Message) {
			scope(m, mongowire.OP_KILL_CURSORS, "", "", false)
		}
	case 7:
		d, c := name("db", nsz), name("cmd", nsz)
		n := count("docs")
		docs, want := []birch.Document{}, []byte{}
		for i := 0; i < n; i++ {
			docs = append(docs, *[]*birch.Document{da, db}[i%2])
			want = append(want, [][]byte{a, b}[i%2]...)
		}
		return mongowire.NewCommand(d, c, da, db, docs), join([]byte(d), []byte{0}, []byte(c), []byte{0}, a, b, want), mongowire.OP_COMMAND, func(m mongowire.Message) {
			md, op := mongowire.GetModel(m)
			g := md.(*model.Command)
			sym.Assert("command-fields", op == mongowire.OP_COMMAND && g.DB == d && g.Command == c && !g.ConvertedFromQuery && len(g.Inputs) == n)
			sym.Assert("command-docs", string(raw(g.Arguments)) == string(a) && string(raw(g.Metadata)) == string(b))
			for i := range g.Inputs {
				sym.Assert("command-input", string(raw(&g.Inputs[i])) == string([][]byte{a, b}[i%2]))
			}
			scope(m, mongowire.OP_COMMAND, d, c, true)
		}
	case 8:
		n := count("docs")
		docs, want := []birch.Document{}, []byte{}
		for i := 0; i < n; i++ {
			docs = append(docs, *[]*birch.Document{da, db}[i%2])
			want = append(want, [][]byte{a, b}[i%2]...)
		}
		return mongowire.NewCommandReply(da, db, docs), join(a, b, want), mongowire.OP_COMMAND_REPLY, func(m mongowire.Message) {
			r := m.(*mongowire.CommandReplyMessage)
			sym.Assert("reply-docs", len(r.OutputDocs) == n && string(raw(r.CommandReply)) == string(a) && string(raw(r.Metadata)) == string(b))
			for i := range r.OutputDocs {
				sym.Assert("reply-doc", string(raw(&r.OutputDocs[i])) == string([][]byte{a, b}[i%2]))
			}
			d, err := shell.ResponseMessageToDocument(m)
			sym.Assert("response-doc", err == nil && string(raw(d)) == string(a))
			sym.Assert("no-scope", m.Scope() == nil && !m.HasResponse())
		}
	}
	// OP_MSG
	more := sym.Choose("more", 2) == 1
	body := put32(0)
	if more {
		body = put32(2)
	}
	var docs []birch.Document
	nd := count("bodies")
	for i := 0; i < nd; i++ {
		docs = append(docs, *[]*birch.Document{da, db}[i%2])
		body = join(body, []byte{0}, [][]byte{a, b}[i%2])
	}
	ni := sym.Choose("items", 3)
	var items []model.SequenceItem
	if ni > 0 {
		id := name("id", nsz)
		in, wire := []birch.Document{*db, *da}, join(b, a)
		for i := count("more") - 2; i > 0; i-- {
			in = append(in, *[]*birch.Document{db, da}[len(in)%2])
			wire = append(wire, [][]byte{b, a}[(len(in)-1)%2]...)
		}
		items = append(items, model.SequenceItem{Identifier: id, Documents: in})
		body = join(body, []byte{1}, put32(4+len(id)+1+len(wire)), []byte(id), []byte{0}, wire)
	}
	if ni > 1 {
		items = append(items, model.SequenceItem{Identifier: "e"})
		body = join(body, []byte{1}, put32(6), []byte("e\x00"))
	}
	return mongowire.NewOpMessage(more, docs, items...), body, mongowire.OP_MSG, func(m mongowire.Message) {
		md, op := mongowire.GetModel(m)
		g := md.(*model.Message)
		sym.Assert("msg", op == mongowire.OP_MSG && g.MoreToCome == more && !g.Checksum && len(g.Items) == nd+ni)
		for i, it := range g.Items {
			if i < nd {
				sym.Assert("msg-body", len(it.Documents) == 1 && string(raw(&it.Documents[0])) == string([][]byte{a, b}[i%2]))
				continue
			}
			src := items[i-nd]
			sym.Assert("msg-sequence", it.Identifier == src.Identifier && len(it.Documents) == len(src.Documents))
			for j := range it.Documents {
				sym.Assert("msg-sequence-doc", string(raw(&it.Documents[j])) == string([][]byte{b, a}[j%2]))
			}
		}
		d, err := shell.RequestMessageToDocument(m)
		sym.Assert("request", (err == nil) == (nd > 0))
		r, err2 := shell.ResponseMessageToDocument(m)
		sym.Assert("response", (err2 == nil) == (nd > 0))
		if nd > 0 {
			sym.Assert("request-doc", string(raw(d)) == string(a) && string(raw(r)) == string(a))
			first, cmd := da, ""
			if e, ok := first.ElementAtOK(0); ok {
				cmd = e.Key()
			}
			s := m.Scope()
			sym.Assert("msg-scope", s.Type == mongowire.OP_MSG && s.Command == cmd && s.Context == "")
		}
	}
}

func scope(m mongowire.Message, op mongowire.OpType, ctx, cmd string, resp bool) {
	s := m.Scope()
	sym.Assert("scope", s.Type == op && s.Context == ctx && s.Command == cmd)
	sym.Assert("has-response", m.HasResponse() == resp)
}

// RoundTrip: every message serializes to the bytes the protocol prescribes and they parse to the same message.
func RoundTrip() {
	kind := sym.Param("KIND", -1)
	if kind < 0 {
		kind = sym.Choose("kind", 10)
	}
	m, body, op, check := message(kind)
	check(m)
	out := m.Serialize()
	want := join(put32(16+len(body)), put32(19), put32(0), put32(int(op)), body)
	sym.Assert("bytes", string(out) == string(want))
	sym.Assert("header", m.Header() == mongowire.MessageHeader{Size: int32(len(want)), RequestID: 19, OpCode: op})
	sym.Assert("again", string(m.Serialize()) == string(want))
	check(m)
	id, to := sym.Int32("rid"), sym.Int32("to")
	h := mongowire.MessageHeader{Size: int32(len(want)), RequestID: id, ResponseTo: to, OpCode: op}
	p, err := h.Parse(body)
	if err != nil {
		// only a command without a document has no form that parses
		sym.Assert("parses", op == mongowire.OP_QUERY && len(body) >= 5)
		sym.Reach("refused")
		return
	}
	check(p)
	if p.Header().OpCode == op {
		sym.Assert("parsed-header", p.Header() == h)
		back := p.Serialize()
		sym.Assert("reserialized", string(back[16:]) == string(body) && string(back[4:8]) == string(put32(int(id))) && string(back[8:12]) == string(put32(int(to))))
	}
	sym.Reach("done")
}

// Checksum: OP_MSG flags and checksum survive.
func Checksum() {
	doc := anyDoc("a")
	sum := sym.Int32("sum")
	flags := sym.Int32("flags")
	sym.Assume(flags&1 == 1)
	body := join(put32(int(flags)), []byte{0}, doc, put32(int(sum)))
	h := mongowire.MessageHeader{Size: int32(16 + len(body)), RequestID: 3, OpCode: mongowire.OP_MSG}
	m, err := h.Parse(body)
	sym.Assert("parses", err == nil)
	o := m.(*mongowire.OpMessage)
	sym.Assert("fields", sym.And(o.Checksum == sum, o.Flags == uint32(flags)) && len(o.Items) == 1)
	md, _ := mongowire.GetModel(m)
	g := md.(*model.Message)
	sym.Assert("model", sym.And(g.Checksum, g.MoreToCome == (flags&2 == 2)))
	out := m.Serialize()
	sym.Assert("reserialized", string(out[16:]) == string(body))
	sym.Reach("done")
}
