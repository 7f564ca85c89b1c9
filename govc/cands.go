package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// locator names a program location whose value an invariant may mention.
type locator struct {
	up    int // frames up
	v     ssa.Value
	deref bool
	plus1 bool
	typ   types.Type
	names []string
	phi   bool
	desc  string
}

func (l locator) eval(x *Exec, fr *Frame, st *State) (r Value) {
	f := fr
	for i := 0; i < l.up; i++ {
		f = f.parent
	}
	if f == nil {
		return nil
	}
	v, ok := st.env[envKey{f, l.v}]
	if !ok {
		return nil
	}
	if l.deref {
		p, ok := v.(PtrV)
		if !ok || p.obj == nil {
			return nil
		}
		return x.load(st, p.obj, p.path)
	}
	if it, ok := v.(RangeIter); ok {
		if it.kind != "map" {
			return nil
		}
		return MapV{nilc: x.tb.False(), obj: it.obj, typ: it.m.typ}
	}
	if l.plus1 {
		t, ok := v.(*Term)
		if !ok {
			return nil
		}
		return x.tb.Add(t, x.tb.Int(1))
	}
	return v
}

func (x *Exec) locators(fr *Frame, nl *natLoop, st *State) []locator {
	var ls []locator
	up := 0
	for f := fr; f != nil; f = f.parent {
		names := x.prog.debugNames(f.fn)
		var vs []ssa.Value
		for _, p := range f.fn.Params {
			vs = append(vs, p)
		}
		for _, p := range f.fn.FreeVars {
			vs = append(vs, p)
		}
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if _, has := st.env[envKey{f, v}]; !has {
						continue
					}
					if up == 0 && b != nl.header && !b.Dominates(nl.header) {
						continue
					}
					if up == 0 && b == nl.header {
						if _, isPhi := v.(*ssa.Phi); !isPhi {
							continue
						}
					}
					switch v.(type) {
					case *ssa.Phi, *ssa.Alloc, *ssa.Range:
						vs = append(vs, v)
					default:
						if len(names[v]) > 0 || isLenCall(v) {
							vs = append(vs, v)
						}
					}
				}
			}
		}
		// the latest dominating definition first: that is the variable's current value
		ord := map[ssa.Value]int{}
		for i, b := range f.fn.DomPreorder() {
			for j, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					ord[v] = i*100000 + j + 1
				}
			}
		}
		sort.SliceStable(vs, func(i, j int) bool { return ord[vs[i]] > ord[vs[j]] })
		for _, v := range vs {
			val, has := st.env[envKey{f, v}]
			if !has {
				continue
			}
			l := locator{up: up, v: v, typ: v.Type(), names: append([]string{}, names[v]...), desc: fmt.Sprintf("%d:%s", up, v.Name())}
			switch w := v.(type) {
			case *ssa.Phi:
				l.names = append(l.names, w.Comment)
				l.phi = up == 0 && w.Block() == nl.header
				if w.Comment == "rangeindex" {
					for _, e := range w.Edges {
						if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD {
							l.names = append(l.names, names[bo]...)
						}
					}
					l.names = append(l.names, "pos")
					l.plus1 = true
					l.desc += "+1"
				}
			case *ssa.Alloc:
				l.names = append(l.names, w.Comment)
				l.deref = true
				l.typ = under(w.Type()).(*types.Pointer).Elem()
			case *ssa.Range:
				it, ok := val.(RangeIter)
				if !ok || it.kind != "map" {
					continue
				}
				l.names = []string{"visited"}
				l.typ = it.m.typ
			case *ssa.Parameter:
				l.names = append(l.names, w.Name())
			}
			ls = append(ls, l)
			if p, ok := val.(PtrV); ok && !l.deref && p.obj != nil && isBufferType(p.elem) {
				l2 := l
				l2.deref = true
				l2.typ = p.elem
				l2.desc += "*"
				ls = append(ls, l2)
			}
		}
		up++
	}
	// current-header phis first, then nearer frames
	sort.SliceStable(ls, func(i, j int) bool {
		if ls[i].phi != ls[j].phi {
			return ls[i].phi
		}
		return ls[i].up < ls[j].up
	})
	return ls
}

func matchType(t types.Type, want string) bool {
	switch want {
	case "int", "nat", "byte":
		return isInteger(t)
	case "bool":
		return isBoolT(t)
	case "bytes", "string":
		return isString(t) || isByteSlice(t) || isBufferType(t) || isByteArray(t)
	case "seq":
		if isString(t) || isBufferType(t) {
			return true
		}
		_, ok := under(t).(*types.Slice)
		return ok
	case "ints":
		s, ok := under(t).(*types.Slice)
		return ok && isInteger(s.Elem()) && !isByteSlice(t)
	case "slice":
		_, ok := under(t).(*types.Slice)
		return ok && !isByteSlice(t)
	case "map":
		_, ok := under(t).(*types.Map)
		return ok
	}
	return strings.HasSuffix(typeName(t), want)
}
func isByteArray(t types.Type) bool {
	if s, ok := under(t).(*types.Array); ok {
		b, ok := under(s.Elem()).(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

type defTemplate struct {
	vars []SBind
	src  string
	e    *SExpr
}

var defTemplates = []defTemplate{
	{[]SBind{{"p", "int"}}, "0 <= p", nil},
	{[]SBind{{"p", "int"}, {"s", "seq"}}, "p <= len(s)", nil},
	{[]SBind{{"p", "int"}, {"q", "int"}}, "p <= q", nil},
	{[]SBind{{"p", "int"}, {"q", "int"}}, "q <= p", nil},
}

func init() {
	for i := range defTemplates {
		defTemplates[i].e = ParseSpec(defTemplates[i].src)
	}
}

func (x *Exec) addCand(li *LoopInfo, e *SExpr, src string, vars []SBind, bind []locator) {
	key := src
	m := map[string]locator{}
	for i, b := range vars {
		m[b.Name] = bind[i]
		key += "|" + b.Name + "=" + bind[i].desc
	}
	if li.known[key] {
		return
	}
	li.known[key] = true
	show := src
	if len(vars) > 0 {
		var ns []string
		for i, b := range vars {
			n := bind[i].desc
			if len(bind[i].names) > 0 {
				n = bind[i].names[0]
			}
			if n != b.Name {
				ns = append(ns, b.Name+":="+n)
			}
		}
		if len(ns) > 0 {
			show += " [" + strings.Join(ns, ", ") + "]"
		}
	}
	li.cands = append(li.cands, &Cand{loop: li, key: key, e: e, bind: m, src: show})
}

func (x *Exec) genCands(li *LoopInfo, fr *Frame, nl *natLoop, phis []*ssa.Phi, st *State) {
	if li.known["mode"+fmt.Sprint(x.tmplMode)] {
		return
	}
	li.known["mode"+fmt.Sprint(x.tmplMode)] = true
	ls := x.locators(fr, nl, st)
	if x.con.Attrs["nodefaults"] == "" {
		for _, d := range defTemplates {
			x.instTemplate(li, ls, d.vars, d.e, d.src, true, x.tmplMode, 60)
		}
		// monotone phis: bounded by their entry value
		for _, l := range ls {
			if l.phi && matchType(l.typ, "int") {
				if t, ok := l.eval(x, fr, st).(*Term); ok && t.isInt() {
					for _, op := range []string{"<=", ">="} {
						e := &SExpr{Op: "bin", S: op, Args: []*SExpr{{Op: "int", N: t.Val}, {Op: "ident", S: "p"}}}
						x.addCand(li, e, t.Val.String()+op+"p", []SBind{{"p", "int"}}, []locator{l})
					}
				}
			}
		}
	}
	n0 := len(li.cands)
	for _, iv := range x.con.Invs {
		x.instTemplate(li, ls, iv.Vars, iv.E, iv.Src, false, x.tmplMode, 300)
	}
	for _, c := range li.cands[n0:] {
		c.user = true
	}
}

func (x *Exec) instTemplate(li *LoopInfo, ls []locator, vars []SBind, e *SExpr, src string, def bool, mode, capN int) {
	if len(vars) == 0 {
		x.addCand(li, e, src, nil, nil)
		return
	}
	doms := make([][]locator, len(vars))
	for i, b := range vars {
		if !def && mode == 0 {
			for _, l := range ls {
				if hasName(l.names, b.Name) && matchType(l.typ, b.Type) {
					doms[i] = []locator{l}
					break
				}
			}
			if doms[i] == nil {
				return
			}
			continue
		}
		for _, l := range ls {
			if !matchType(l.typ, b.Type) {
				continue
			}
			if def && i == 0 && !l.phi {
				continue
			}
			if def && l.up > 1 {
				continue
			}
			if def && b.Type == "int" && !types.Identical(under(l.typ), types.Typ[types.Int]) && !l.phi {
				continue
			}
			doms[i] = append(doms[i], l)
		}
	}
	n := 0
	bind := make([]locator, len(vars))
	var rec func(i int)
	rec = func(i int) {
		if n >= capN {
			return
		}
		if i == len(vars) {
			// distinct locations for same-typed variables; at least one header phi or memory cell involved
			for a := range bind {
				for b := 0; b < a; b++ {
					if bind[a].desc == bind[b].desc {
						return
					}
				}
			}
			n++
			x.addCand(li, e, src, vars, append([]locator{}, bind...))
			return
		}
		for _, l := range doms[i] {
			bind[i] = l
			rec(i + 1)
		}
	}
	rec(0)
}
func hasName(ns []string, n string) bool {
	for _, s := range ns {
		if s == n {
			return true
		}
	}
	return false
}

func (x *Exec) baseEnv(st *State) *SEnv {
	env := &SEnv{vars: map[string]SV{}, st: st, old: x.entry}
	for i, n := range x.con.Params {
		if i < len(x.params) {
			env.vars[n] = x.params[i]
			env.vars["old "+n] = x.params[i]
		}
	}
	return env
}

func (x *Exec) evalCand(c *Cand, fr *Frame, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case specErr, unsupported:
				t = nil
				x.restart = true
				return
			}
			panic(r)
		}
	}()
	env := x.baseEnv(st)
	for n, l := range c.bind {
		v := l.eval(x, fr, st)
		if v == nil {
			x.restart = true
			return nil
		}
		env.vars[n] = SV{v, l.typ}
	}
	return x.evalBool(c.e, env)
}

// ---- termination measures ----
type locExpr struct {
	a, b *locator // b - a  (b may be nil: plain a)
	lenB bool
	c    *int64 // c - a
}

func (m locExpr) eval(x *Exec, fr *Frame, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			t = nil
		}
	}()
	av, ok := m.a.eval(x, fr, st).(*Term)
	if !ok {
		return nil
	}
	if m.c != nil {
		return x.tb.Sub(x.tb.Int(*m.c), av)
	}
	if m.b == nil {
		return av
	}
	v := m.b.eval(x, fr, st)
	var bt *Term
	switch v := v.(type) {
	case *Term:
		if m.lenB {
			bt = x.tb.Len(v)
		} else {
			bt = v
		}
	case SliceV:
		bt = v.len
	case BufC:
		bt = x.tb.Len(v.t)
	default:
		return nil
	}
	return x.tb.Sub(bt, av)
}

func (x *Exec) measures(li *LoopInfo, fr *Frame, nl *natLoop, phis []*ssa.Phi, st *State) []measInst {
	// range over map/string terminates by construction
	for _, in := range nl.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			li.measIn = true
			return nil
		}
	}
	ls := x.locators(fr, nl, st)
	var out []measInst
	add := func(key string, e locExpr) {
		if li.meas == nil {
			li.meas = map[string]bool{}
		}
		if alive, known := li.meas[key]; known && !alive {
			return
		}
		v := e.eval(x, fr, st)
		if v == nil {
			return
		}
		li.meas[key] = true
		out = append(out, measInst{key, e, v})
	}
	var consts []int64
	seen := map[int64]bool{}
	for b := range nl.body {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || (bo.Op != token.LSS && bo.Op != token.LEQ && bo.Op != token.GTR && bo.Op != token.GEQ && bo.Op != token.NEQ) {
				continue
			}
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					if n, ok := constant.Int64Val(c.Value); ok && n > 1 && !seen[n] {
						seen[n] = true
						consts = append(consts, n)
					}
				}
			}
		}
	}
	sort.Slice(consts, func(i, j int) bool { return consts[i] < consts[j] })
	if len(consts) > 6 {
		consts = consts[:6]
	}
	for i := range ls {
		a := &ls[i]
		if !a.phi || !matchType(a.typ, "int") {
			continue
		}
		add(a.desc, locExpr{a: a})
		for k := range consts {
			add(fmt.Sprintf("%d-%s", consts[k], a.desc), locExpr{a: a, c: &consts[k]})
		}
		for j := range ls {
			b := &ls[j]
			if i == j || b.up > 1 {
				continue
			}
			if matchType(b.typ, "int") {
				add(b.desc+"-"+a.desc, locExpr{a: a, b: b})
			} else if matchType(b.typ, "seq") {
				add("len "+b.desc+"-"+a.desc, locExpr{a: a, b: b, lenB: true})
			}
		}
	}
	// shrinking slices
	for i := range ls {
		a := ls[i]
		if a.phi && matchType(a.typ, "seq") {
			z := a
			_ = z
		}
	}
	return out
}

// isLenCall: an unnamed len(...) used in a comparison (the bound of a range loop).
func isLenCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" || c.Referrers() == nil {
		return false
	}
	for _, r := range *c.Referrers() {
		if bo, ok := r.(*ssa.BinOp); ok && bo.Op == token.LSS {
			return true
		}
	}
	return false
}
