package main

import (
	"go/types"
)

func structOf(t types.Type) *types.Struct { return under(t).(*types.Struct) }

func (x *Exec) frameEq(st *State, name string, a, b Value, t types.Type) {
	tb := x.tb
	var g *Term
	switch p := a.(type) {
	case *Term:
		g = tb.Eq(p, b.(*Term))
	case SeqV:
		g = tb.Eq(p.t, b.(SeqV).t)
	case BufC:
		g = tb.Eq(p.t, b.(BufC).t)
	case MapC:
		q := b.(MapC)
		g = tb.And(tb.Eq(p.dom, q.dom), tb.Eq(p.val, q.val))
	case SliceV:
		q := b.(SliceV)
		if p.obj == q.obj && p.off == q.off && p.len == q.len {
			return
		}
		g = tb.Eq(x.view(p, st), x.view(q, x.entry))
	case PtrV:
		q := b.(PtrV)
		if p.obj == q.obj && pathStr(p.path) == pathStr(q.path) {
			g = tb.Eq(p.nilc, q.nilc)
		} else {
			g = tb.And(p.nilc, q.nilc)
		}
	case MapV:
		q := b.(MapV)
		if p.obj == q.obj {
			return
		}
		g = tb.And(p.nilc, q.nilc)
	case IfaceV:
		q := b.(IfaceV)
		if p.id != nil && p.id == q.id {
			return
		}
		g = x.goEq(st, p, q, t)
	case StructV:
		q := b.(StructV)
		u := structOf(t)
		for i := range p.fields {
			x.frameEq(st, name+"."+u.Field(i).Name(), p.fields[i], q.fields[i], u.Field(i).Type())
		}
		return
	case OpaqueV:
		q, ok := b.(OpaqueV)
		if ok && p.t == q.t {
			return
		}
		g = tb.False()
	default:
		return
	}
	x.oblige(st, "frame", "frame: "+name+" unchanged", 0, g, nil)
}
