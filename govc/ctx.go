package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Context simplification: under a path condition, total extracts whose bounds are provable become
// in-bounds subsequences (which normalise), decided conditionals are pruned.

func (x *Exec) hasSpecApp(t *Term) bool {
	if r, ok := x.specAppC[t]; ok {
		return r
	}
	r := t.Op == "app" && strings.HasPrefix(t.Name, "f.") || t.Op == "forall" || t.Op == "exists"
	for _, a := range t.Args {
		if r {
			break
		}
		r = x.hasSpecApp(a)
	}
	x.specAppC[t] = r
	return r
}

func (x *Exec) needsCtx(t *Term) bool {
	if r, ok := x.needCtxC[t]; ok {
		return r
	}
	r := t.Op == "extract" || t.Op == "ite" || (t.Op == "sub" || strings.HasPrefix(t.Op, "nth")) && t.Args[0].Op == "concat"
	for _, a := range t.Args {
		if r {
			break
		}
		r = x.needsCtx(a)
	}
	x.needCtxC[t] = r
	return r
}

// ctxProve: is c implied by pc?  (pc is used only through its arithmetic part)
func (x *Exec) ctxProve(pc []*Term, c *Term) bool {
	if c.IsTrue() {
		return true
	}
	if c.IsFalse() || c.hasBV {
		return false
	}
	if c.Op == "and" {
		for _, a := range c.Args {
			if !x.ctxProve(pc, a) {
				return false
			}
		}
		return true
	}
	for _, p := range pc {
		if p == c {
			return true
		}
	}
	if x.hasSpecApp(c) {
		return false
	}
	return x.inc.Check(x, pc, x.tb.Not(c)) == "unsat"
}

func (x *Exec) ctxSimp(pc []*Term, t *Term) *Term {
	if !x.needsCtx(t) || t.hasBV && (t.Op == "forall" || t.Op == "exists") {
		return t
	}
	if x.con != nil && x.con.Attrs["ctx"] == "off" {
		return t
	}
	memo := map[*Term]*Term{}
	return x.ctxSimp1(pc, t, memo)
}

func (x *Exec) ctxSimp1(pc []*Term, t *Term, memo map[*Term]*Term) *Term {
	if len(t.Args) == 0 || !x.needsCtx(t) || t.Op == "forall" || t.Op == "exists" {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	tb := x.tb
	var r *Term
	switch t.Op {
	case "ite":
		c := x.ctxSimp1(pc, t.Args[0], memo)
		switch {
		case x.ctxProve(pc, c):
			r = x.ctxSimp1(pc, t.Args[1], memo)
		case x.ctxProve(pc, tb.Not(c)):
			r = x.ctxSimp1(pc, t.Args[2], memo)
		default:
			a := x.ctxSimp1(append(pc[:len(pc):len(pc)], c), t.Args[1], map[*Term]*Term{})
			b := x.ctxSimp1(append(pc[:len(pc):len(pc)], tb.Not(c)), t.Args[2], map[*Term]*Term{})
			r = tb.Ite(c, a, b)
		}
	case "and":
		p := pc[:len(pc):len(pc)]
		var as []*Term
		for i, a := range t.Args {
			m := memo
			if i > 0 {
				m = map[*Term]*Term{}
			}
			a = x.ctxSimp1(p, a, m)
			as = append(as, a)
			p = append(p[:len(p):len(p)], a)
		}
		r = tb.And(as...)
	case "or":
		p := pc[:len(pc):len(pc)]
		var as []*Term
		for i, a := range t.Args {
			m := memo
			if i > 0 {
				m = map[*Term]*Term{}
			}
			a = x.ctxSimp1(p, a, m)
			as = append(as, a)
			p = append(p[:len(p):len(p)], tb.Not(a))
		}
		r = tb.Or(as...)
	case "=>":
		a := x.ctxSimp1(pc, t.Args[0], memo)
		b := x.ctxSimp1(append(pc[:len(pc):len(pc)], a), t.Args[1], map[*Term]*Term{})
		r = tb.Implies(a, b)
	case "extract":
		s := x.ctxSimp1(pc, t.Args[0], memo)
		o := x.ctxSimp1(pc, t.Args[1], memo)
		n := x.ctxSimp1(pc, t.Args[2], memo)
		l := tb.Len(s)
		switch {
		case x.ctxProve(pc, tb.And(tb.Le(tb.Int(0), o), tb.Le(tb.Int(0), n), tb.Le(tb.Add(o, n), l))):
			r = x.ctxSub(pc, s, o, n)
		case x.ctxProve(pc, tb.Or(tb.Lt(o, tb.Int(0)), tb.Le(n, tb.Int(0)), tb.Le(l, o))):
			r = tb.Empty(s.Sort)
		default:
			r = tb.Extract(s, o, n)
		}
	case "sub":
		r = x.ctxSub(pc, x.ctxSimp1(pc, t.Args[0], memo), x.ctxSimp1(pc, t.Args[1], memo), x.ctxSimp1(pc, t.Args[2], memo))
	case "nth", "nthb", "nthi":
		r = x.ctxNth(pc, x.ctxSimp1(pc, t.Args[0], memo), x.ctxSimp1(pc, t.Args[1], memo), t)
	default:
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = x.ctxSimp1(pc, a, memo)
			ch = ch || args[i] != a
		}
		r = t
		if ch {
			r = tb.rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

// ctxSub: an in-bounds subsequence of a concatenation, split where the context decides the position.
func (x *Exec) ctxSub(pc []*Term, s, o, n *Term) *Term {
	tb := x.tb
	r := tb.Sub3(s, o, n)
	if r.Op != "sub" || r.Args[0].Op != "concat" {
		return r
	}
	s, o, n = r.Args[0], r.Args[1], r.Args[2]
	a := s.Args[0]
	rest := tb.Concat(s.Sort, s.Args[1:]...)
	l := tb.Len(a)
	end := tb.Add(o, n)
	switch {
	case x.ctxProve(pc, tb.Le(l, o)):
		return x.ctxSub(pc, rest, tb.Sub(o, l), n)
	case x.ctxProve(pc, tb.Le(end, l)):
		return x.ctxSub(pc, a, o, n)
	case x.ctxProve(pc, tb.And(tb.Le(o, l), tb.Le(l, end))):
		return tb.Concat(s.Sort, x.ctxSub(pc, a, o, tb.Sub(l, o)), x.ctxSub(pc, rest, tb.Int(0), tb.Sub(end, l)))
	}
	return r
}

func (x *Exec) ctxNth(pc []*Term, s, i, t *Term) *Term {
	tb := x.tb
	r := tb.nthOp(s, i, t.Op, t.Name)
	if !strings.HasPrefix(r.Op, "nth") || r.Args[0].Op != "concat" {
		return r
	}
	s, i = r.Args[0], r.Args[1]
	a := s.Args[0]
	l := tb.Len(a)
	rest := tb.Concat(s.Sort, s.Args[1:]...)
	switch {
	case x.ctxProve(pc, tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, l))):
		return x.ctxNth(pc, a, i, r)
	case x.ctxProve(pc, tb.And(tb.Le(l, i), tb.Lt(i, tb.Len(s)))):
		return x.ctxNth(pc, rest, tb.Sub(i, l), r)
	}
	return r
}

var _ = fmt.Sprint

// expand unfolds (once) the specification predicates asserted by pc and re-simplifies in the richer context.
func (x *Exec) expand(pc []*Term, goal *Term) ([]*Term, *Term) {
	tb := x.tb
	in := map[*Term]bool{}
	for _, p := range pc {
		in[p] = true
	}
	out := append([]*Term{}, pc...)
	added := false
	lits := append([]*Term{}, pc...)
	if g := tb.Not(goal); g.Op == "and" {
		lits = append(lits, g.Args...)
	} else {
		lits = append(lits, g)
	}
	for _, p := range lits {
		a, neg := p, false
		if a.Op == "not" {
			a, neg = a.Args[0], true
		}
		if a.Op != "app" || !strings.HasPrefix(a.Name, "f.") || a.hasBV {
			continue
		}
		f := x.unfoldSafe(a)
		if f == nil || f.Op != "=" || f.Args[0] != a {
			continue
		}
		b := f.Args[1]
		if neg {
			b = tb.Not(b)
		}
		b = x.ctxSimp(out, b)
		if b.Op == "ite" {
			continue
		}
		bs := []*Term{b}
		if b.Op == "and" {
			bs = b.Args
		}
		for _, c := range bs {
			if !in[c] && !c.IsTrue() {
				in[c] = true
				out = append(out, c)
				added = true
			}
		}
	}
	if !added {
		return pc, goal
	}
	for i, p := range out {
		if x.needsCtx(p) {
			out[i] = x.ctxSimp(append(append([]*Term{}, out[:i]...), out[i+1:]...), p)
		}
	}
	return out, x.ctxSimp(out, goal)
}

// subFacts relates subsequences of the same base that occur in a query: s[o..m] = s[o..n] ++ s[n..m].
func (x *Exec) subFacts(terms map[*Term]bool) []*Term {
	tb := x.tb
	by := map[*Term][]*Term{}
	var bases []*Term
	var all []*Term
	for t := range terms {
		if (t.Op == "sub" || t.Op == "extract") && !t.hasBV {
			all = append(all, t)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].ID < all[j].ID })
	for _, t := range all {
		b := t.Args[0]
		if by[b] == nil {
			bases = append(bases, b)
		}
		by[b] = append(by[b], t)
	}
	var out []*Term
	have := func(b, o, n *Term) bool {
		for _, t := range by[b] {
			if t.Args[1] == o && t.Args[2] == n {
				return true
			}
		}
		return false
	}
	for _, b := range bases {
		l := by[b]
		if len(l) > 14 {
			l = l[:14]
		}
		for _, p := range l {
			for _, q := range l {
				if p == q {
					continue
				}
				po, pn, qo, qn := p.Args[1], p.Args[2], q.Args[1], q.Args[2]
				if po == qo {
					// q is a prefix of p
					d := tb.Sub(pn, qn)
					var rest *Term
					if d.isInt() {
						if k := d.Val; k.Sign() <= 0 || k.Cmp(big.NewInt(4)) > 0 {
							continue
						}
						for i := int64(0); i < d.Int64(); i++ {
							u := tb.Unit(x.seqNth(b, tb.Add(po, qn, tb.Int(i))))
							if rest == nil {
								rest = u
							} else {
								rest = tb.Concat(b.Sort, rest, u)
							}
						}
					} else if have(b, tb.Add(po, qn), d) {
						rest = tb.Sub3(b, tb.Add(po, qn), d)
					} else {
						continue
					}
					g := tb.And(tb.Le(tb.Int(0), po), tb.Le(tb.Int(0), qn), tb.Le(qn, pn), tb.Le(tb.Add(po, pn), tb.Len(b)))
					out = append(out, tb.Implies(g, tb.mk("=", SBool, "", nil, p, tb.mk("concat", b.Sort, "", nil, q, rest))))
				} else if tb.Add(po, pn) == tb.Add(qo, qn) {
					// q is a suffix of p
					d := tb.Sub(pn, qn)
					if !d.isInt() || d.Val.Sign() <= 0 || d.Val.Cmp(big.NewInt(4)) > 0 {
						continue
					}
					var pre []*Term
					for i := int64(0); i < d.Int64(); i++ {
						pre = append(pre, tb.Unit(x.seqNth(b, tb.Add(po, tb.Int(i)))))
					}
					g := tb.And(tb.Le(tb.Int(0), po), tb.Le(tb.Int(0), qn), tb.Le(tb.Add(po, pn), tb.Len(b)))
					out = append(out, tb.Implies(g, tb.mk("=", SBool, "", nil, p, tb.mk("concat", b.Sort, "", nil, append(pre, q)...))))
				}
			}
		}
	}
	return out
}

func (x *Exec) seqNth(b, i *Term) *Term {
	if b.Sort == SBytes {
		return x.tb.nthOp(b, i, "nthb", "")
	}
	return x.tb.nthOp(b, i, "nth", "")
}
