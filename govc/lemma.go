package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"time"
)

// useLemma instantiates a lemma: requires ==> ensures, for given arguments.
func (x *Exec) useLemma(e *SExpr, env *SEnv) []*Term {
	if e.Op == "forall" {
		n := env
		var bs []*Term
		for _, b := range e.Binds {
			bv := x.tb.BVar(b.Name, specSort(b.Type))
			bs = append(bs, bv)
			n = n.with(b.Name, SV{bv, specType(b.Type)})
		}
		return []*Term{x.tb.Forall(bs, x.tb.And(x.useLemma(e.Args[0], n)...))}
	}
	if e.Op != "call" {
		serr("use: lemma application expected")
	}
	l := x.specs.Lemmas[e.S]
	if l == nil {
		serr("unknown lemma %s", e.S)
	}
	n := &SEnv{vars: map[string]SV{}, st: env.st, old: env.old}
	for i, a := range e.Args {
		v := x.eval(a, env)
		n.vars[l.Params[i].Name] = SV{x.svTerm(v, env.st), specType(l.Params[i].Type)}
	}
	x.usedLemma[l.Name] = true
	return []*Term{x.lemmaBody(l, n)}
}
func (x *Exec) lemmaBody(l *Lemma, n *SEnv) *Term {
	tb := x.tb
	var rs, es []*Term
	for _, p := range l.Params { // the lemma was proved for arguments of the declared types only
		if t, ok := n.vars[p.Name].v.(*Term); ok && t.Sort == SInt {
			lo, hi := bounds(t)
			if p.Type == "byte" && !(lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(255)) <= 0) {
				rs = append(rs, tb.Le(tb.Int(0), t), tb.Le(t, tb.Int(255)))
			}
			if p.Type == "nat" {
				rs = append(rs, tb.Le(tb.Int(0), t))
			}
		}
	}
	for _, r := range l.Requires {
		rs = append(rs, x.evalBool(r.E, n))
	}
	for _, r := range l.Ensures {
		es = append(es, x.evalBool(r.E, n))
	}
	return tb.Implies(tb.And(rs...), tb.And(es...))
}

// lemmaInstances: syntactic matching of lemma triggers against the terms of a query.
func (x *Exec) lemmaInstances(terms map[*Term]bool) []*Term {
	var out []*Term
	var sorted []*Term
	for t := range terms {
		sorted = append(sorted, t)
	}
	sort.Slice(sorted, func(i, j int) bool { return sorted[i].ID < sorted[j].ID })
	for _, ln := range x.specs.LOrder {
		l := x.specs.Lemmas[ln]
		if len(l.Trigger) == 0 || l == x.lemma || x.noLemma[ln] {
			continue
		}
		var binds []map[string]*Term
		for _, tr := range l.Trigger {
			bs := []map[string]*Term{{}}
			var conj func(e *SExpr)
			conj = func(e *SExpr) {
				if e.Op == "bin" && e.S == "&&" {
					conj(e.Args[0])
					conj(e.Args[1])
					return
				}
				var next []map[string]*Term
				for _, b := range bs {
					for _, t := range sorted {
						if !t.hasBV && len(next) < 400 {
							next = append(next, x.matchTrig(e, t, l, b)...)
						}
					}
				}
				bs = next
			}
			conj(tr)
			binds = append(binds, bs...)
		}
		had := map[*Term]bool{}
		for _, b := range binds {
			if len(b) != len(l.Params) {
				continue
			}
			n := &SEnv{vars: map[string]SV{}}
			for _, p := range l.Params {
				n.vars[p.Name] = SV{b[p.Name], specType(p.Type)}
			}
			x.usedLemma[ln] = true
			if g := x.lemmaBody(l, n); !had[g] {
				had[g] = true
				out = append(out, g)
			}
		}
	}
	return out
}

// matchTrig enumerates the bindings under which the pattern e is the term t.
func (x *Exec) matchTrig(e *SExpr, t *Term, l *Lemma, b map[string]*Term) []map[string]*Term {
	one := func() []map[string]*Term { return []map[string]*Term{b} }
	switch e.Op {
	case "ident":
		for _, p := range l.Params {
			if p.Name == e.S {
				if t.Sort != specSort(p.Type) {
					return nil
				}
				if o, ok := b[e.S]; ok {
					if o == t {
						return one()
					}
					return nil
				}
				nb := map[string]*Term{e.S: t}
				for k, v := range b {
					nb[k] = v
				}
				return []map[string]*Term{nb}
			}
		}
		return nil
	case "int":
		if t.isInt() && t.Val.Cmp(e.N) == 0 {
			return one()
		}
		return nil
	case "bin":
		switch {
		case e.S == "++":
			if t.Sort != SBytes {
				return nil
			}
			var pieces []*SExpr
			var fl func(e *SExpr)
			fl = func(e *SExpr) {
				if e.Op == "bin" && e.S == "++" {
					fl(e.Args[0])
					fl(e.Args[1])
				} else if e.Op == "seqlit" {
					for _, a := range e.Args {
						pieces = append(pieces, &SExpr{Op: "seqlit", Args: []*SExpr{a}})
					}
				} else {
					pieces = append(pieces, e)
				}
			}
			fl(e)
			args := []*Term{t}
			if t.Op == "concat" {
				args = t.Args
			}
			var rec func(i, k int, b map[string]*Term) []map[string]*Term
			rec = func(i, k int, b map[string]*Term) []map[string]*Term {
				if i == len(pieces) {
					if k == len(args) {
						return []map[string]*Term{b}
					}
					return nil
				}
				var out []map[string]*Term
				if pieces[i].Op == "seqlit" || pieces[i].Op == "call" {
					if k < len(args) {
						for _, nb := range x.matchTrig(pieces[i], args[k], l, b) {
							out = append(out, rec(i+1, k+1, nb)...)
						}
					}
					return out
				}
				lim := len(args) - (len(pieces) - i - 1)
				for n := k + 1; n <= lim; n++ {
					for _, nb := range x.matchTrig(pieces[i], x.tb.Concat(t.Sort, args[k:n]...), l, b) {
						out = append(out, rec(i+1, n, nb)...)
					}
				}
				return out
			}
			return rec(0, 0, b)
		case e.S == "+" && e.Args[1].Op == "int" && t.Sort == SInt:
			return x.matchTrig(e.Args[0], x.tb.Sub(t, x.tb.BigInt(e.Args[1].N)), l, b)
		}
		return nil
	case "seqlit":
		if t.Op == "unit" && len(e.Args) == 1 {
			return x.matchTrig(e.Args[0], t.Args[0], l, b)
		}
		return nil
	case "call":
		name := e.S
		op := "app"
		switch {
		case x.specs.Funcs[name] != nil:
			name = "f." + name
		case specUF[name] != nil:
		case name == "len":
			op, name = "len", ""
		default:
			return nil
		}
		if t.Op != op || t.Name != name || len(t.Args) != len(e.Args) {
			return nil
		}
		bs := one()
		for i, a := range e.Args {
			var next []map[string]*Term
			for _, b := range bs {
				next = append(next, x.matchTrig(a, t.Args[i], l, b)...)
			}
			bs = next
		}
		return bs
	}
	return nil
}

// CheckLemma proves a lemma: requires and decreasing instances of itself (and earlier lemmas) imply ensures.
func CheckLemma(p *Program, sp *Specs, l *Lemma, budget time.Duration) *FnResult {
	t0 := time.Now()
	con := &Contract{Pkg: "lemma", Fn: l.Name, Attrs: l.Attrs, Props: l.Props, Line: l.Line}
	x := NewExec(p, sp, con, nil)
	defer x.stats()
	defer x.inc.Close()
	x.lemma = l
	r := &FnResult{Fn: "lemma " + l.Name, Lemma: l.Name, Con: con, BySolver: map[string]int{}}
	defer func() { r.Secs = time.Since(t0).Seconds() }()
	after := false
	for _, n := range sp.LOrder {
		if n == l.Name {
			after = true
		}
		if after {
			x.noLemma[n] = true
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch e := e.(type) {
				case specErr:
					r.Err = "lemma does not evaluate: " + e.msg
				case unsupported:
					r.Err = e.msg
				default:
					panic(e)
				}
			}
		}()
		st := newState()
		env := &SEnv{vars: map[string]SV{}, st: st, old: st}
		for _, b := range l.Params {
			v := x.tb.Fresh(b.Name, specSort(b.Type))
			switch b.Type {
			case "nat":
				x.assume(st, x.tb.Le(x.tb.Int(0), v))
			case "byte":
				v.setRange(urange(8))
			}
			env.vars[b.Name] = SV{v, specType(b.Type)}
		}
		for _, q := range l.Requires {
			x.assume(st, x.evalBool(q.E, env))
		}
		var m0 *Term
		if l.Measure != nil {
			m0 = x.evalTerm(l.Measure, env)
		}
		hyps := func(st *State) {
			for _, u := range l.Uses {
				ue := u.E
				if ue.Op == "forall" {
					ue = ue.Args[0]
				}
				ul := sp.Lemmas[ue.S]
				if ul == nil {
					serr("unknown lemma %s", u.E.S)
				}
				if ul == l {
					if ue != u.E {
						serr("quantified self use")
					}
					if l.Measure == nil {
						serr("self use without a measure")
					}
					n := &SEnv{vars: map[string]SV{}, st: st, old: st}
					for i, a := range u.E.Args {
						v := x.eval(a, env)
						n.vars[l.Params[i].Name] = SV{x.ctxSimp(st.pc, x.svTerm(v, st)), specType(l.Params[i].Type)}
					}
					m := x.evalTerm(l.Measure, n)
					var typ []*Term
					for i, b := range l.Params {
						_ = i
						v := n.vars[b.Name].v.(*Term)
						switch b.Type {
						case "nat":
							typ = append(typ, x.tb.Le(x.tb.Int(0), v))
						case "byte":
							typ = append(typ, x.tb.Le(x.tb.Int(0), v), x.tb.Le(v, x.tb.Int(255)))
						}
					}
					g := x.tb.And(append(typ, x.tb.Le(x.tb.Int(0), m), x.tb.Lt(m, m0))...)
					x.assume(st, x.tb.Implies(g, x.lemmaBody(l, n)))
					continue
				}
				if x.noLemma[ul.Name] {
					serr("lemma %s is used before it is declared", ul.Name)
				}
				for _, t := range x.useLemma(u.E, env) {
					x.assume(st, t)
				}
			}
		}
		emit := func(st *State, tag string) {
			hyps(st)
			for i, e := range l.Ensures {
				nm := e.Name
				if nm == "" {
					nm = fmt.Sprint(i + 1)
				}
				x.oblige(st, "lemma", nm+tag+": "+e.Src, 0, x.evalBool(e.E, env), nil)
			}
		}
		if len(l.Cases) == 0 {
			emit(st, "")
		} else {
			rest := st
			for i, c := range l.Cases {
				t := x.evalBool(c.E, env)
				s1 := rest.clone()
				x.assume(s1, t)
				emit(s1, fmt.Sprintf(" case %d", i+1))
				rest = rest.clone()
				x.assume(rest, x.tb.Not(t))
			}
			emit(rest, " otherwise")
		}
	}()
	if r.Err != "" {
		return r
	}
	deadline := t0.Add(budget)
	x.discharge(x.obls, solveMS, true, deadline, nil, nil)
	r.tally(x.obls)
	return r
}

func (r *FnResult) tally(obls []*Obl) bool {
	r.Obls = obls
	r.N, r.Trivial = 0, 0
	r.BySolver = map[string]int{}
	r.Failed, r.Unknown = nil, nil
	for _, o := range r.Obls {
		r.N++
		r.SolveSecs += o.Secs
		if o.Status == "valid" {
			if o.Solver == "" {
				r.Trivial++
				r.BySolver["simplifier"]++
			} else {
				r.BySolver[o.Solver]++
			}
			continue
		}
		if o.Status == "invalid" {
			r.Failed = append(r.Failed, o)
		} else {
			r.Unknown = append(r.Unknown, o)
		}
	}
	return len(r.Failed)+len(r.Unknown) == 0
}

func (x *Exec) stats() {
	if os.Getenv("GOVC_T") != "" {
		fmt.Fprintf(os.Stderr, "inc: %d calls %.1fs; solver %d calls %.1fs\n", x.inc.calls, x.inc.spent.Seconds(), solverCalls, float64(solverNanos)/1e9)
	}
}
