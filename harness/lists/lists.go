// Package lists checks the linked documents.
package lists

import (
	"verif/harness/sym"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/blist"
)

func recovered(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

func keys() string { return []string{"a", "b", "ab"}[sym.Choose("key", 3)] }

func element(k string) *birch.Element {
	switch sym.Choose("type", 4) {
	case 0:
		return birch.EC.Int64(k, sym.Int64("i"))
	case 1:
		return birch.EC.String(k, string(sym.Bytes("s", 1)))
	case 2:
		return birch.EC.Null(k)
	default:
		return birch.EC.SubDocumentFromElements(k, birch.EC.Boolean("x", sym.Bool("b")))
	}
}

// Lists: every sequence of operations leaves the document a list of them would be.
func Lists() {
	d := &blist.Document{}
	var want []*birch.Element
	n := 1 + sym.Choose("n", sym.Param("N", 3))
	for i := 0; i < n; i++ {
		switch sym.Choose("op", 7) {
		case 0:
			a := element(keys())
			sym.Assert("self", d.Append(a) == d)
			want = append(want, a)
		case 1:
			a, b := birch.EC.Null("a"), element("b")
			d.Append(a, b)
			want = append(want, a, b)
		case 2:
			a := element(keys())
			sym.Assert("self", d.Prepend(a) == d)
			want = append([]*birch.Element{a}, want...)
		case 3:
			a := element(keys())
			sym.Assert("self", d.Set(a) == d)
			found := false
			for j := range want {
				if want[j].Key() == a.Key() {
					want[j] = a
					found = true
					break
				}
			}
			if !found {
				want = append(want, a)
			}
		case 4:
			k := keys()
			got := d.Delete(k)
			var gone *birch.Element
			for j := range want {
				if want[j].Key() == k {
					gone = want[j]
					want = append(want[:j:j], want[j+1:]...)
					break
				}
			}
			sym.Assert("deleted", got == gone)
		case 5:
			a := element("a")
			sym.Assert("self", d.AppendOmitEmpty(nil, a) == d)
			if !a.Value().IsEmpty() {
				want = append(want, a)
			}
		default:
			sym.Assert("nil-append", recovered(func() { d.Append(nil) }) != nil)
			sym.Assert("nil-prepend", recovered(func() { d.Prepend(nil) }) != nil)
			sym.Assert("nil-set", recovered(func() { d.Set(nil) }) != nil)
		}
	}
	sym.Assert("len", d.Len() == len(want))
	i := 0
	for e := d.Front(); e.Ok(); e = e.Next() {
		sym.Assert("element", i < len(want) && e.Value() == want[i])
		i++
	}
	sym.Assert("forward", i == len(want))
	for e := d.Back(); e.Ok(); e = e.Previous() {
		i--
		sym.Assert("element-back", i >= 0 && e.Value() == want[i])
	}
	sym.Assert("backward", i == 0)
	size, err := d.Validate()
	b, merr := birch.DC.Elements(want...).MarshalBSON()
	sym.Assert("size", err == nil && merr == nil && int(size) == len(b))
	var none *blist.Document
	_, err = none.Validate()
	sym.Assert("nil", err != nil)
	sym.Reach("done")
}
