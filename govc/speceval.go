package main

import (
	"fmt"
	"go/types"
	"math/big"
)

// SV is a typed specification value.
type SV struct {
	v Value
	t types.Type
}

var (
	tyInt   = types.Typ[types.Int]
	tyBool  = types.Typ[types.Bool]
	tyStr   = types.Typ[types.String]
	tyBytes = types.NewSlice(types.Typ[types.Uint8])
	tyInts  = types.NewSlice(types.Typ[types.Int])
	tyByte  = types.Typ[types.Uint8]
	tyStrs  = types.NewSlice(types.Typ[types.String])
)

func specType(s string) types.Type {
	switch s {
	case "int", "nat":
		return tyInt
	case "byte":
		return tyByte
	case "bool":
		return tyBool
	case "bytes", "string":
		return tyStr
	case "ints", "seq(int)":
		return tyInts
	case "strs", "seq(bytes)", "seq(string)":
		return tyStrs
	case "flt":
		return types.Typ[types.Float64]
	case "opq":
		return types.NewInterfaceType(nil, nil)
	}
	panic("unknown spec type " + s)
}
func specSort(s string) string {
	switch s {
	case "int", "nat", "byte":
		return SInt
	case "bool":
		return SBool
	case "bytes", "string":
		return SBytes
	case "ints", "seq(int)":
		return SBytes
	case "strs", "seq(bytes)", "seq(string)":
		return SeqOf(SBytes)
	case "flt":
		return SReal
	case "opq":
		return SOpaque
	}
	panic("unknown spec sort " + s)
}

type SEnv struct {
	vars map[string]SV
	up   *SEnv
	st   *State // current state
	old  *State // entry state
}

func (e *SEnv) get(n string) (SV, bool) {
	for x := e; x != nil; x = x.up {
		if v, ok := x.vars[n]; ok {
			return v, true
		}
	}
	return SV{}, false
}
func (e *SEnv) with(n string, v SV) *SEnv {
	return &SEnv{vars: map[string]SV{n: v}, up: e, st: e.st, old: e.old}
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (x *Exec) strTerm(s string) *Term {
	var us []*Term
	for i := 0; i < len(s); i++ {
		us = append(us, x.tb.Unit(x.tb.Int(int64(s[i]))))
	}
	return x.tb.Concat(SBytes, us...)
}

func (x *Exec) svTerm(v SV, st *State) *Term { return x.toTerm(v.v, v.t, st) }

func (x *Exec) evalBool(e *SExpr, env *SEnv) *Term {
	v := x.eval(e, env)
	t, ok := v.v.(*Term)
	if !ok || t.Sort != SBool {
		serr("not a boolean: %v", v.v)
	}
	return t
}
func (x *Exec) evalTerm(e *SExpr, env *SEnv) *Term {
	v := x.eval(e, env)
	return x.svTerm(v, env.st)
}

func (x *Exec) nilCond(v Value) (*Term, bool) {
	switch v := v.(type) {
	case PtrV:
		return v.nilc, true
	case SliceV:
		return v.nilc, true
	case IfaceV:
		return v.nilc, true
	case MapV:
		return v.nilc, true
	case FuncV:
		if v.nilc != nil {
			return v.nilc, true
		}
		return x.tb.False(), true
	}
	return nil, false
}

func (x *Exec) eval(e *SExpr, env *SEnv) SV {
	tb := x.tb
	switch e.Op {
	case "int":
		return SV{tb.BigInt(e.N), tyInt}
	case "bool":
		return SV{tb.Bool(e.S == "true"), tyBool}
	case "str":
		return SV{x.strTerm(e.S), tyStr}
	case "seqlit":
		var us []*Term
		s := SBytes
		for _, a := range e.Args {
			t := x.evalTerm(a, env)
			s = SeqOf(t.Sort)
			us = append(us, tb.Unit(t))
		}
		return SV{tb.Concat(s, us...), tyStr}
	case "nil":
		return SV{nil, nil}
	case "ident":
		if v, ok := env.get(e.S); ok {
			return v
		}
		if f, ok := x.specs.Funcs[e.S]; ok && len(f.Params) == 0 {
			return x.callSpec(f, nil, env)
		}
		serr("unknown identifier %s", e.S)
	case "old":
		n := *env
		// evaluate in the entry state
		return x.evalOld(e.Args[0], &n)
	case "let":
		v := x.eval(e.Args[0], env)
		return x.eval(e.Args[1], env.with(e.S, v))
	case "if":
		c := x.evalBool(e.Args[0], env)
		if c.IsTrue() {
			return x.eval(e.Args[1], env)
		}
		if c.IsFalse() {
			return x.eval(e.Args[2], env)
		}
		a := x.eval(e.Args[1], env)
		b := x.eval(e.Args[2], env)
		return SV{tb.Ite(c, x.svTerm(a, env.st), x.svTerm(b, env.st)), a.t}
	case "forall", "exists":
		n := env
		var bs []*Term
		pre := []*Term{}
		for _, b := range e.Binds {
			bv := tb.BVar(b.Name, specSort(b.Type))
			bs = append(bs, bv)
			n = n.with(b.Name, SV{bv, specType(b.Type)})
			if b.Type == "nat" {
				pre = append(pre, tb.mk("<=", SBool, "", nil, tb.Int(0), bv))
			}
		}
		body := x.evalBool(e.Args[0], n)
		if e.Op == "forall" {
			return SV{tb.Forall(bs, tb.Implies(tb.And(pre...), body)), tyBool}
		}
		return SV{tb.Exists(bs, tb.And(append(pre, body)...)), tyBool}
	case "un":
		if e.S == "!" {
			return SV{tb.Not(x.evalBool(e.Args[0], env)), tyBool}
		}
		return SV{tb.Neg(x.evalTerm(e.Args[0], env)), tyInt}
	case "bin":
		return x.evalBin(e, env)
	case "field":
		b := x.eval(e.Args[0], env)
		return x.specField(b, e.S, env)
	case "index":
		b := x.eval(e.Args[0], env)
		i := x.eval(e.Args[1], env)
		switch m := b.v.(type) {
		case MapV:
			mc := x.content(env.st, m.obj).(MapC)
			k := x.svTerm(i, env.st)
			ks, vs := x.mapSorts(m.typ)
			_ = ks
			return SV{x.fromTerm(tb.Select(mc.val, k, vs), m.typ.Elem(), nil), m.typ.Elem()}
		}
		s := x.svTerm(b, env.st)
		it := x.svTerm(i, env.st)
		el := elemType(b.t)
		return SV{x.fromTerm(x.nth(s, it, el), el, nil), el}
	case "slice":
		b := x.eval(e.Args[0], env)
		s := x.svTerm(b, env.st)
		lo := tb.Int(0)
		if e.Args[1] != nil {
			lo = x.evalTerm(e.Args[1], env)
		}
		hi := tb.Len(s)
		if e.Args[2] != nil {
			hi = x.evalTerm(e.Args[2], env)
		}
		return SV{tb.Extract(s, lo, tb.Sub(hi, lo)), seqT(b.t)}
	case "call":
		return x.evalCall(e, env)
	}
	serr("cannot evaluate %s", e.Op)
	return SV{}
}

func seqT(t types.Type) types.Type { return t }
func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Basic:
		return tyByte
	case *types.Pointer:
		return elemType(u.Elem())
	}
	if isBufferType(t) {
		return tyByte
	}
	serr("no element type for %v", t)
	return nil
}

func (x *Exec) evalOld(e *SExpr, env *SEnv) SV {
	n := &SEnv{vars: map[string]SV{}, up: env, st: env.old, old: env.old}
	if e.Op == "ident" { // the value the parameter was called with, also where a local of that name has moved on
		if p, ok := env.get("old " + e.S); ok {
			n.vars[e.S] = p
		}
	}
	v := x.eval(e, n)
	// freeze: convert state-dependent values to terms
	switch v.v.(type) {
	case SliceV:
		return SV{x.toTerm(v.v, v.t, env.old), v.t}
	case PtrV:
		if x.sortOf(v.t) != SOpaque {
			return SV{x.fromTerm(x.toTerm(v.v, v.t, env.old), v.t, nil), v.t}
		}
	case MapV:
		m := v.v.(MapV)
		o := x.newObj("oldmap", m.typ)
		o.init = x.content(env.old, m.obj)
		return SV{MapV{nilc: m.nilc, obj: o, typ: m.typ}, v.t}
	}
	return v
}

func (x *Exec) specField(b SV, f string, env *SEnv) SV {
	v := b.v
	t := b.t
	if p, ok := v.(PtrV); ok {
		if p.obj == nil {
			serr("field of nil")
		}
		v = x.load(env.st, p.obj, p.path)
		t = p.elem
	}
	if tm, ok := v.(*Term); ok {
		v = x.fromTerm(tm, t, nil)
		if p, ok := v.(PtrV); ok {
			v = x.load(env.st, p.obj, p.path)
			t = p.elem
		}
	}
	sv, ok := v.(StructV)
	if !ok {
		if iv, ok := v.(IfaceV); ok && iv.dyn != nil {
			return x.specField(SV{iv.val, iv.dyn}, f, env)
		}
		serr("field %s of %T", f, v)
	}
	u := under(t).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == f {
			return SV{sv.fields[i], u.Field(i).Type()}
		}
	}
	serr("no field %s in %v", f, t)
	return SV{}
}

func (x *Exec) evalBin(e *SExpr, env *SEnv) SV {
	tb := x.tb
	switch e.S {
	case "&&":
		a := x.evalBool(e.Args[0], env)
		if a.IsFalse() {
			return SV{a, tyBool}
		}
		return SV{tb.And(a, x.evalBool(e.Args[1], env)), tyBool}
	case "||":
		a := x.evalBool(e.Args[0], env)
		if a.IsTrue() {
			return SV{a, tyBool}
		}
		return SV{tb.Or(a, x.evalBool(e.Args[1], env)), tyBool}
	case "==>":
		a := x.evalBool(e.Args[0], env)
		if a.IsFalse() {
			return SV{tb.True(), tyBool}
		}
		return SV{tb.Implies(a, x.evalBool(e.Args[1], env)), tyBool}
	case "<==>":
		return SV{tb.Eq(x.evalBool(e.Args[0], env), x.evalBool(e.Args[1], env)), tyBool}
	}
	a := x.eval(e.Args[0], env)
	b := x.eval(e.Args[1], env)
	if e.S == "==" || e.S == "!=" {
		var r *Term
		if a.v == nil || b.v == nil {
			o := a
			if a.v == nil {
				o = b
			}
			n, ok := x.nilCond(o.v)
			if !ok {
				serr("nil comparison of %T", o.v)
			}
			r = n
		} else {
			r = x.specEq(a, b, env)
		}
		if e.S == "!=" {
			r = tb.Not(r)
		}
		return SV{r, tyBool}
	}
	p, q := x.svTerm(a, env.st), x.svTerm(b, env.st)
	switch e.S {
	case "+":
		if p.Sort != SInt {
			return SV{tb.Concat(p.Sort, p, q), a.t}
		}
		return SV{tb.Add(p, q), tyInt}
	case "-":
		return SV{tb.Sub(p, q), tyInt}
	case "*":
		return SV{tb.Mul(p, q), tyInt}
	case "/":
		return SV{tb.EDiv(p, q), tyInt}
	case "%":
		return SV{tb.EMod(p, q), tyInt}
	case "++":
		return SV{tb.Concat(p.Sort, p, q), a.t}
	case "<":
		return SV{tb.Lt(p, q), tyBool}
	case "<=":
		return SV{tb.Le(p, q), tyBool}
	case ">":
		return SV{tb.Lt(q, p), tyBool}
	case ">=":
		return SV{tb.Le(q, p), tyBool}
	}
	serr("operator %s", e.S)
	return SV{}
}

func (x *Exec) specEq(a, b SV, env *SEnv) *Term {
	tb := x.tb
	if m, ok := a.v.(MapV); ok {
		if n, ok := b.v.(MapV); ok {
			p := x.content(env.st, m.obj).(MapC)
			q := x.content(env.st, n.obj).(MapC)
			return tb.And(tb.Eq(p.dom, q.dom), tb.Eq(p.val, q.val))
		}
	}
	if p, ok := a.v.(PtrV); ok {
		if q, ok := b.v.(PtrV); ok && p.obj == q.obj && pathStr(p.path) == pathStr(q.path) {
			return tb.Eq(p.nilc, q.nilc)
		}
	}
	p, q := x.svTerm(a, env.st), x.svTerm(b, env.st)
	if p.Sort != q.Sort {
		serr("sort mismatch in equality: %s vs %s", p.Sort, q.Sort)
	}
	return tb.Eq(p, q)
}

func (x *Exec) callSpec(f *SpecFunc, args []SV, env *SEnv) SV {
	if len(args) != len(f.Params) {
		serr("%s: %d arguments", f.Name, len(args))
	}
	rt := specType(f.Ret)
	if f.Rec || f.Body == nil {
		var ts []*Term
		for i, a := range args {
			t := x.svTerm(a, env.st)
			if t.Sort != specSort(f.Params[i].Type) {
				serr("%s: argument %d has sort %s", f.Name, i, t.Sort)
			}
			ts = append(ts, t)
		}
		return SV{x.specApp(f, ts), rt}
	}
	n := &SEnv{vars: map[string]SV{}, st: env.st, old: env.old}
	for i, a := range args {
		// fix the argument as a term with the declared type
		pt := specType(f.Params[i].Type)
		t := x.svTerm(a, env.st)
		if t.Sort != specSort(f.Params[i].Type) {
			serr("%s: argument %d has sort %s, want %s", f.Name, i, t.Sort, specSort(f.Params[i].Type))
		}
		n.vars[f.Params[i].Name] = SV{t, pt}
	}
	r := x.eval(f.Body, n)
	return SV{x.svTerm(r, env.st), rt}
}
func (x *Exec) specApp(f *SpecFunc, ts []*Term) *Term {
	t := x.tb.App("f."+f.Name, specSort(f.Ret), ts...)
	if f.Lo != nil || f.Hi != nil {
		t.setRange(rng{f.Lo, f.Hi})
	}
	x.usedSpec[f.Name] = true
	return t
}

// unfold one application of a recursive specification function
func (x *Exec) unfold(t *Term) *Term {
	f := x.specs.Funcs[t.Name[2:]]
	if f == nil || f.Body == nil {
		return nil
	}
	n := &SEnv{vars: map[string]SV{}}
	for i := range f.Params {
		n.vars[f.Params[i].Name] = SV{t.Args[i], specType(f.Params[i].Type)}
	}
	r := x.eval(f.Body, n)
	return x.tb.mkEq(t, x.svTerm(r, nil))
}
func (b *TB) mkEq(x, y *Term) *Term {
	if x == y {
		return b.True()
	}
	return b.mk("=", SBool, "", nil, x, y)
}

func (x *Exec) evalCall(e *SExpr, env *SEnv) SV {
	tb := x.tb
	if f, ok := x.specs.Funcs[e.S]; ok {
		var as []SV
		for _, a := range e.Args {
			as = append(as, x.eval(a, env))
		}
		return x.callSpec(f, as, env)
	}
	arg := func(i int) SV { return x.eval(e.Args[i], env) }
	term := func(i int) *Term { return x.evalTerm(e.Args[i], env) }
	switch e.S {
	case "len":
		a := arg(0)
		if s, ok := a.v.(SliceV); ok {
			return SV{s.len, tyInt}
		}
		return SV{tb.Len(x.svTerm(a, env.st)), tyInt}
	case "has":
		m := arg(0).v.(MapV)
		mc := x.content(env.st, m.obj).(MapC)
		return SV{tb.And(tb.Not(m.nilc), tb.Select(mc.dom, term(1), SBool)), tyBool}
	case "regroups", "reminlen", "remust": // facts about a compiled expression whose pattern is known
		if p, ok := arg(0).v.(PtrV); ok && p.obj != nil {
			if o, ok := x.content(env.st, p.obj).(OpaqueV); ok && o.t.Op == "app" && o.t.Name == "regexp" {
				if s, ok := o.t.Args[0].patternBytes(); ok {
					if n, ok := reFact(e.S, s); ok {
						return SV{tb.Int(n), tyInt}
					}
				}
			}
		}
		if e.S != "regroups" {
			return SV{tb.Int(0), tyInt}
		}
		u := tb.Fresh("regroups", SInt)
		u.setRange(rng{big.NewInt(0), big.NewInt(1 << 20)})
		return SV{u, tyInt}
	case "redigits": // redigits(re, r): the groups of a known expression that consist of digits only start with one
		r := tb.True()
		if x.con == nil || x.con.Attrs["digits"] == "" {
			return SV{r, tyBool}
		}
		p, ok := arg(0).v.(PtrV)
		if !ok || p.obj == nil {
			return SV{r, tyBool}
		}
		o, ok := x.content(env.st, p.obj).(OpaqueV)
		if !ok || o.t.Op != "app" || o.t.Name != "regexp" {
			return SV{r, tyBool}
		}
		pat, ok := o.t.Args[0].patternBytes()
		if !ok {
			return SV{r, tyBool}
		}
		for _, k := range reDigits(pat) {
			g := &SExpr{Op: "index", Args: []*SExpr{e.Args[1], {Op: "int", N: big.NewInt(int64(k))}}}
			t := x.svTerm(x.eval(g, env), env.st)
			c := x.seqNth(t, tb.Int(0))
			r = tb.And(r, tb.Le(tb.Int(1), tb.Len(t)), tb.Le(tb.Int(48), c), tb.Le(c, tb.Int(57)))
		}
		return SV{r, tyBool}
	case "prefix": // prefix(p, s)
		return SV{tb.mk("seq.prefixof", SBool, "", nil, term(0), term(1)), tyBool}
	case "suffix":
		return SV{tb.mk("seq.suffixof", SBool, "", nil, term(0), term(1)), tyBool}
	case "contains":
		return SV{tb.mk("seq.contains", SBool, "", nil, term(0), term(1)), tyBool}
	case "itoa": // decimal digits, as strconv.Itoa and %d write them
		return SV{x.ufApp(ufItoa, []*Term{term(0)}), tyStr}
	case "atoi": // what strconv.Atoi reads, 0 if it reads nothing
		s := term(0)
		return SV{tb.Ite(x.ufApp(ufAtoiOk, []*Term{s}), x.ufApp(ufAtoiVal, []*Term{s}), tb.Int(0)), tyInt}
	case "isatoi":
		return SV{x.ufApp(ufAtoiOk, []*Term{term(0)}), tyBool}
	case "indexof":
		return SV{tb.mk("seq.indexof", SInt, "", nil, term(0), term(1), term(2)), tyInt}
	case "min":
		a, b := term(0), term(1)
		return SV{tb.Ite(tb.Le(a, b), a, b), tyInt}
	case "max":
		a, b := term(0), term(1)
		return SV{tb.Ite(tb.Le(a, b), b, a), tyInt}
	case "abs":
		a := term(0)
		return SV{tb.Ite(tb.Le(tb.Int(0), a), a, tb.Neg(a)), tyInt}
	case "isnil":
		n, ok := x.nilCond(arg(0).v)
		if !ok {
			serr("isnil of %T", arg(0).v)
		}
		return SV{n, tyBool}
	case "bytes":
		a := arg(0)
		return SV{x.svTerm(a, env.st), tyStr}
	case "unit":
		return SV{tb.Unit(term(0)), tyStr}
	case "deref":
		p := arg(0).v.(PtrV)
		return SV{x.load(env.st, p.obj, p.path), p.elem}
	case "dynis": // dynis(err, "pkg.Type")
		iv := arg(0).v.(IfaceV)
		if iv.dyn == nil {
			return SV{tb.Fresh("dynis", SBool), tyBool}
		}
		return SV{tb.Bool(typeName(iv.dyn) == e.Args[1].S), tyBool}
	case "dyn": // payload of an interface value
		iv := arg(0).v.(IfaceV)
		if iv.dyn == nil {
			serr("dynamic value unknown")
		}
		return SV{iv.val, iv.dyn}
	case "bv_and", "bv_or", "bv_xor":
		return SV{x.bitop(e.S[3:], term(0), term(1), types.Typ[types.Uint64]), tyInt}
	case "u8":
		t := term(0)
		return SV{tb.EMod(t, tb.Int(256)), tyByte}
	}
	if uf, ok := specUF[e.S]; ok { // uninterpreted library functions shared with the executor's models
		var ts []*Term
		for i := range e.Args {
			ts = append(ts, term(i))
		}
		return SV{x.ufApp(uf, ts), uf.rt}
	}
	serr("unknown specification function %s", e.S)
	return SV{}
}
