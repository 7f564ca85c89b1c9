package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, b *ssa.BasicBlock, i int, in *ssa.Call, st *State, ret retCont) {
	c := in.Call
	cont := func(st *State, v Value) {
		if x.restart {
			return
		}
		if v != nil {
			st.set(fr, in, v)
		}
		x.instrs(fr, b, i+1, st, ret)
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		var args []Value
		for _, a := range c.Args {
			args = append(args, x.val(fr, st, a))
		}
		v, ok := x.builtin(fr, st, in, bi.Name(), args)
		if !ok {
			return
		}
		cont(st, v)
		return
	}
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	if c.IsInvoke() {
		recv := x.val(fr, st, c.Value)
		iv, ok := recv.(IfaceV)
		if !ok {
			unsup("invoke on %T", recv)
		}
		if !x.require(st, "method call on nil interface", in.Pos(), x.tb.Not(iv.nilc)) {
			return
		}
		if iv.dyn != nil {
			if m := x.prog.ssa.LookupMethod(iv.dyn, c.Method.Pkg(), c.Method.Name()); m != nil {
				x.callFn(fr, in, m, nil, append([]Value{iv.val}, args...), st, cont)
				return
			}
		}
		x.invokeModel(fr, in, iv, c.Method, args, st, cont)
		return
	}
	if f := c.StaticCallee(); f != nil {
		var binds []Value
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			fv := x.val(fr, st, mc).(FuncV)
			binds = fv.bindings
		}
		x.callFn(fr, in, f, binds, args, st, cont)
		return
	}
	fv, ok := x.val(fr, st, c.Value).(FuncV)
	if ok && fv.fn != nil {
		x.callFn(fr, in, fv.fn, fv.bindings, args, st, cont)
		return
	}
	x.assumed["call through an unknown function value in "+fr.fn.Name()+": result arbitrary, no effect on tracked state"] = true
	cont(st, x.resultFresh(in.Type(), "dyncall"))
}

func (x *Exec) resultFresh(t types.Type, name string) Value {
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return TupleV{}
		}
		tv := TupleV{}
		for i := 0; i < tp.Len(); i++ {
			tv.vs = append(tv.vs, x.fresh(tp.At(i).Type(), name))
		}
		return tv
	}
	return x.fresh(t, name)
}

// a call's results packaged for the SSA value
func pack(rs []Value) Value {
	if len(rs) == 1 {
		return rs[0]
	}
	return TupleV{rs}
}

func fnKey(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Object() == nil {
		return f.String()
	}
	fo := f.Object().(*types.Func)
	pkg := ""
	if fo.Pkg() != nil {
		pkg = fo.Pkg().Path()
	}
	sig := fo.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			star = "*"
		}
		if n, ok := t.(*types.Named); ok {
			return pkg + ".(" + star + n.Obj().Name() + ")." + fo.Name()
		}
		return pkg + ".(?)." + fo.Name()
	}
	return pkg + "." + fo.Name()
}

func (x *Exec) callFn(fr *Frame, in *ssa.Call, f *ssa.Function, binds, args []Value, st *State, cont func(*State, Value)) {
	key := fnKey(f)
	if con := x.specs.Contracts[key]; con != nil && con.Attrs["inline"] == "" && x.prog.conOK(con, f) && (f != x.fn || con.Attrs["decreases"] != "" || true) {
		x.callContract(fr, in, con, f, args, st, cont)
		return
	}
	if m, ok := libModels[key]; ok {
		x.usedLib(key)
		m(x, &libCall{fr: fr, in: in, f: f, args: args, st: st, cont: cont})
		return
	}
	if len(f.Blocks) > 0 && x.prog.inRepo(f) {
		if f.Synthetic == "" || binds != nil || strings.Contains(f.Synthetic, "wrapper") || f.Object() == nil {
			x.inlined[key] = true
			site := fmt.Sprintf("%s@%s", f.Name(), in.Name())
			x.runFn(f, args, binds, fr, site, st, func(st *State, rs []Value) {
				cont(st, pack(rs))
			})
			return
		}
	}
	// abstracted: arbitrary result; pointer/slice/map arguments may be modified
	if x.con != nil && x.con.Attrs["abstract"] == "off" {
		unsup("call of %s (no model)", key)
	}
	x.assumed["abstracted call "+key+" (arbitrary result, arguments' referents havoced)"] = true
	for _, a := range args {
		x.havocArg(st, a)
	}
	cont(st, x.resultFresh(in.Type(), f.Name()))
}

func (x *Exec) usedLib(k string) {
	x.assumed["library model "+k] = true
}

func (x *Exec) havocArg(st *State, a Value) {
	switch a := a.(type) {
	case PtrV:
		if a.obj != nil && !a.nilc.IsTrue() {
			cur := x.content(st, a.obj)
			if len(a.path) == 0 {
				x.write(st, a.obj, nil, x.havocAt(cur, nil, a.obj, a.obj.typ))
			}
		}
	case SliceV:
		x.havocSlice(st, a)
	case MapV:
		cur := x.content(st, a.obj)
		x.write(st, a.obj, nil, x.havocAt(cur, nil, a.obj, a.obj.typ))
	}
}
func (x *Exec) havocSlice(st *State, a SliceV) {
	tb := x.tb
	c := x.seqContent(a, st)
	n := tb.Fresh("hv", c.Sort)
	x.facts = append(x.facts, tb.mk("=", SBool, "", nil, tb.Len(n), a.len))
	nv := tb.Concat(c.Sort, tb.Sub3(c, tb.Int(0), a.off), n, tb.Sub3(c, tb.Add(a.off, a.len), tb.Sub(tb.Len(c), tb.Add(a.off, a.len))))
	x.write(st, a.obj, a.path, SeqV{nv, a.elem})
}

// ---- contracts at call sites ----
func (x *Exec) callContract(fr *Frame, in *ssa.Call, con *Contract, f *ssa.Function, args []Value, st *State, cont func(*State, Value)) {
	if con.Extern {
		x.assumed["assumed contract on "+con.Pkg+"."+con.Fn+" ("+con.Line+")"] = true
	} else {
		x.called[con.Pkg+"."+con.Fn] = true
	}
	env := &SEnv{vars: map[string]SV{}, st: st}
	for i, t := range paramTypes(f) {
		if i < len(con.Params) {
			env.vars[con.Params[i]] = SV{args[i], t}
		}
	}
	old := st.clone()
	env.old = old
	for _, r := range con.Requires {
		g := x.evalBool(r.E, env)
		if !g.IsTrue() {
			x.oblige(st, "pre", fmt.Sprintf("precondition of %s: %s", con.Fn, r.Src), in.Pos(), g, nil)
			x.assume(st, g)
		}
	}
	// frame
	for _, m := range con.Modifies {
		x.havocPlace(m.E, env, st)
		if x.restart {
			return
		}
	}
	var res []Value
	sig := f.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		nm := f.Name()
		if i < len(con.Results) {
			nm += "_" + con.Results[i]
		}
		v := x.fresh(sig.Results().At(i).Type(), nm)
		if pv, ok := v.(PtrV); ok {
			_ = pv
		}
		res = append(res, v)
		if i < len(con.Results) {
			env.vars[con.Results[i]] = SV{v, sig.Results().At(i).Type()}
		}
	}
	env.st = st
	for _, e := range con.Ensures {
		x.assume(st, x.evalBool(e.E, env))
	}
	cont(st, pack(res))
}

// havocPlace makes the place denoted by a modifies clause arbitrary.
func (x *Exec) havocPlace(e *SExpr, env *SEnv, st *State) {
	switch e.Op {
	case "field":
		b := x.eval(e.Args[0], env)
		p, ok := b.v.(PtrV)
		if !ok {
			serr("modifies %s: not a pointer", e.S)
		}
		u := under(p.elem).(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == e.S {
				path := append(append([]Step{}, p.path...), Step{kind: 'f', field: i})
				cur := x.load(st, p.obj, path)
				if m, ok := cur.(MapV); ok {
					x.write(st, m.obj, nil, x.havocAt(x.content(st, m.obj), nil, m.obj, m.obj.typ))
					return
				}
				x.write(st, p.obj, path, x.havocAt(cur, nil, p.obj, u.Field(i).Type()))
				return
			}
		}
		serr("modifies: no field %s", e.S)
	case "ident", "call", "index":
		b := x.eval(e, env)
		x.havocArg(st, b.v)
		return
	}
	serr("modifies: unsupported place")
}

// ---- builtins ----
func (x *Exec) builtin(fr *Frame, st *State, in *ssa.Call, name string, args []Value) (Value, bool) {
	tb := x.tb
	switch name {
	case "len":
		switch a := args[0].(type) {
		case SliceV:
			return a.len, true
		case *Term:
			return tb.Len(a), true
		case MapV:
			mc := x.content(st, a.obj).(MapC)
			ks, _ := x.mapSorts(a.typ)
			n := tb.App("maplen_"+sanitize(ks), SInt, mc.dom)
			x.facts = append(x.facts, tb.Le(tb.Int(0), n), tb.Lt(n, tb.BigInt(lenMax)))
			if mc.dom.Op == "constarr" {
				return tb.Int(0), true
			}
			if mc.dom.Op == "store" {
				prev := x.mapLenTerm(mc.dom.Args[0], ks)
				x.facts = append(x.facts, tb.Eq(n, tb.Ite(tb.Select(mc.dom.Args[0], mc.dom.Args[1], SBool), prev, tb.Add(prev, tb.Int(1)))))
			}
			bv := tb.BVar("k", ks)
			x.facts = append(x.facts, tb.Implies(tb.Eq(n, tb.Int(0)), tb.Forall([]*Term{bv}, tb.Not(tb.Select(mc.dom, bv, SBool)))))
			return n, true
		case PtrV:
			return tb.Int(under(a.elem).(*types.Array).Len()), true
		case SeqV:
			return tb.Len(a.t), true
		}
	case "cap":
		if a, ok := args[0].(SliceV); ok {
			c := tb.Fresh("cap", SInt)
			c.setRange(typeRanges["int"])
			x.assume(st, tb.Le(a.len, c))
			return c, true
		}
	case "append":
		s := args[0].(SliceV)
		var add, n *Term
		switch t := args[1].(type) {
		case SliceV:
			add = x.view(t, st)
			n = t.len
		case *Term:
			add = t
			n = tb.Len(t)
		}
		o := x.newObj("append", in.Type())
		o.slice = true
		o.param = false
		o.key = fr.key + "!" + in.Name()
		x.objByKey[o.key] = append(x.objByKey[o.key], o)
		sv := x.view(s, st)
		c := tb.Concat(sv.Sort, sv, add)
		o.init = SeqV{c, s.elem}
		st.m[o] = o.init
		x.assumed["append result treated as fresh storage (no aliasing through spare capacity)"] = true
		return SliceV{nilc: tb.And(s.nilc, tb.Eq(n, tb.Int(0))), obj: o, off: tb.Int(0), len: tb.Add(s.len, n), elem: s.elem}, true
	case "copy":
		d := args[0].(SliceV)
		var src, sn *Term
		switch t := args[1].(type) {
		case SliceV:
			src = x.view(t, st)
			sn = t.len
		case *Term:
			src = t
			sn = tb.Len(t)
		}
		n := tb.Ite(tb.Le(d.len, sn), d.len, sn)
		if x.proves(st, tb.Le(sn, d.len)) {
			n = sn
		} else if x.proves(st, tb.Le(d.len, sn)) {
			n = d.len
		}
		c := x.seqContent(d, st)
		at := tb.Add(d.off, n)
		nc := tb.Concat(c.Sort, tb.Sub3(c, tb.Int(0), d.off), tb.Sub3(src, tb.Int(0), n), tb.Sub3(c, at, tb.Sub(tb.Len(c), at)))
		x.write(st, d.obj, d.path, SeqV{nc, d.elem})
		return n, true
	case "delete":
		m := args[0].(MapV)
		k := x.toTerm(args[1], m.typ.Key(), st)
		mc := x.content(st, m.obj).(MapC)
		x.write(st, m.obj, nil, MapC{tb.Store(mc.dom, k, tb.False()), mc.val, mc.typ})
		return TupleV{}, true
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if name == "min" {
				r = tb.Ite(tb.Le(r, t), r, t)
			} else {
				r = tb.Ite(tb.Le(r, t), t, r)
			}
		}
		return r, true
	case "print", "println":
		return TupleV{}, true
	case "panic":
		x.require(st, "explicit panic unreachable", in.Pos(), tb.False())
		return nil, false
	case "ssa:wrapnilchk":
		return args[0], true
	case "clear":
		if m, ok := args[0].(MapV); ok {
			x.write(st, m.obj, nil, x.emptyMap(m.typ))
			return TupleV{}, true
		}
	}
	unsup("builtin %s", name)
	return nil, false
}
func (x *Exec) mapLenTerm(dom *Term, ks string) *Term {
	if dom.Op == "constarr" {
		return x.tb.Int(0)
	}
	return x.tb.App("maplen_"+sanitize(ks), SInt, dom)
}
