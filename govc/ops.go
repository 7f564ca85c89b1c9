package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// wrap reduces a mathematical integer to machine type t.
// When the path condition proves the value in range the term is returned unchanged.
func (x *Exec) wrap(st *State, v *Term, t types.Type) *Term {
	r, ok := intRange(t)
	if !ok {
		return v
	}
	lo, hi := bounds(v)
	if lo != nil && hi != nil && lo.Cmp(r.lo) >= 0 && hi.Cmp(r.hi) <= 0 {
		return v
	}
	tb := x.tb
	if st != nil {
		c := tb.And(tb.Le(tb.BigInt(r.lo), v), tb.Le(v, tb.BigInt(r.hi)))
		if x.proves(st, c) {
			return v
		}
	}
	bits, signed := intBits(t)
	m := tb.BigInt(pow2(bits))
	if !signed {
		return tb.EMod(v, m)
	}
	off := tb.BigInt(pow2(bits - 1))
	return tb.Sub(tb.EMod(tb.Add(v, off), m), off)
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) (Value, bool) {
	tb := x.tb
	a, b := x.val(fr, st, in.X), x.val(fr, st, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		e := x.goEq(st, a, b, in.X.Type())
		if in.Op == token.NEQ {
			e = tb.Not(e)
		}
		return e, true
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T", in.Op, a)
	}
	t := in.X.Type()
	if isFloat(t) {
		switch in.Op {
		case token.LSS:
			return tb.App("flt_lt", SBool, p, q), true
		case token.GTR:
			return tb.App("flt_lt", SBool, q, p), true
		case token.LEQ:
			return tb.App("flt_le", SBool, p, q), true
		case token.GEQ:
			return tb.App("flt_le", SBool, q, p), true
		}
		x.assumed["floating-point operations are uninterpreted functions"] = true
		return tb.App("flt_"+map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[in.Op], SReal, p, q), true
	}
	if p.Sort == SBytes { // strings
		switch in.Op {
		case token.ADD:
			return tb.Concat(SBytes, p, q), true
		case token.LSS:
			return tb.App("str_lt", SBool, p, q), true
		case token.GTR:
			return tb.App("str_lt", SBool, q, p), true
		case token.LEQ:
			return tb.Not(tb.App("str_lt", SBool, q, p)), true
		case token.GEQ:
			return tb.Not(tb.App("str_lt", SBool, p, q)), true
		}
	}
	switch in.Op {
	case token.ADD:
		return x.wrap(st, tb.Add(p, q), in.Type()), true
	case token.SUB:
		return x.wrap(st, tb.Sub(p, q), in.Type()), true
	case token.MUL:
		return x.wrap(st, tb.Mul(p, q), in.Type()), true
	case token.LSS:
		return tb.Lt(p, q), true
	case token.LEQ:
		return tb.Le(p, q), true
	case token.GTR:
		return tb.Lt(q, p), true
	case token.GEQ:
		return tb.Le(q, p), true
	case token.QUO, token.REM:
		if !x.require(st, "division by zero", in.Pos(), tb.Neq(q, tb.Int(0))) {
			return nil, false
		}
		nonneg := func(t *Term) bool {
			lo, _ := bounds(t)
			if lo != nil && lo.Sign() >= 0 {
				return true
			}
			return x.proves(st, tb.Le(tb.Int(0), t))
		}
		np, nq := nonneg(p), nonneg(q)
		if np && nq {
			if in.Op == token.QUO {
				return tb.EDiv(p, q), true
			}
			return tb.EMod(p, q), true
		}
		// truncated division
		ab := func(t *Term, nn bool) *Term {
			if nn {
				return t
			}
			return tb.Ite(tb.Le(tb.Int(0), t), t, tb.Neg(t))
		}
		if in.Op == token.QUO {
			d := tb.EDiv(ab(p, np), ab(q, nq))
			neg := tb.Neq(tb.Bool(false), tb.False())
			if np {
				neg = tb.Lt(q, tb.Int(0))
			} else if nq {
				neg = tb.Lt(p, tb.Int(0))
			} else {
				neg = tb.Neq(tb.Lt(p, tb.Int(0)), tb.Lt(q, tb.Int(0)))
			}
			return x.wrap(st, tb.Ite(neg, tb.Neg(d), d), in.Type()), true
		}
		m := tb.EMod(ab(p, np), ab(q, nq))
		if np {
			return m, true
		}
		return tb.Ite(tb.Lt(p, tb.Int(0)), tb.Neg(m), m), true
	case token.AND:
		if p.Sort == SBool {
			return tb.And(p, q), true
		}
		return x.bitop("and", p, q, in.Type()), true
	case token.OR:
		return x.bitop("or", p, q, in.Type()), true
	case token.XOR:
		return x.bitop("xor", p, q, in.Type()), true
	case token.AND_NOT:
		return x.wrap(st, tb.Sub(p, x.bitop("and", p, q, in.Type())), in.Type()), true
	case token.SHL, token.SHR:
		if _, signed := intBits(in.Y.Type()); signed && !q.isInt() {
			if !x.require(st, "negative shift amount", in.Pos(), tb.Le(tb.Int(0), q)) {
				return nil, false
			}
		}
		bits, signed := intBits(in.Type())
		pw := x.pow2Term(st, q, bits)
		if in.Op == token.SHL {
			if q.isInt() && q.Val.Cmp(big.NewInt(int64(bits))) >= 0 {
				return tb.Int(0), true
			}
			return x.wrap(st, tb.Mul(p, pw), in.Type()), true
		}
		if q.isInt() && q.Val.Cmp(big.NewInt(int64(bits))) >= 0 {
			if signed {
				return tb.Ite(tb.Lt(p, tb.Int(0)), tb.Int(-1), tb.Int(0)), true
			}
			return tb.Int(0), true
		}
		return tb.EDiv(p, pw), true // floor division = arithmetic shift
	}
	unsup("binop %s", in.Op)
	return nil, false
}

// pow2Term: 2^q; for shift amounts beyond the width the product/quotient semantics still agree
// (x*2^q mod 2^w = 0; x div 2^q = 0 or -1).
func (x *Exec) pow2Term(st *State, q *Term, bits uint) *Term {
	if q.isInt() && q.Val.IsInt64() && q.Int64() >= 0 && q.Int64() < 256 {
		return x.tb.BigInt(pow2(uint(q.Int64())))
	}
	tb := x.tb
	// case split over the width as a nested ite (complete for 0..bits-1, large beyond)
	t := tb.BigInt(pow2(bits))
	for k := int(bits) - 1; k >= 0; k-- {
		t = tb.Ite(tb.Eq(q, tb.Int(int64(k))), tb.BigInt(pow2(uint(k))), t)
	}
	// try to narrow with the path condition: multiples of 8 etc. are left to the solver
	return t
}

// bit operations on constants are exact; on two variables they are exact when disjoint, else uninterpreted with bounds.
func (x *Exec) bitop(op string, p, q *Term, t types.Type) *Term {
	tb := x.tb
	if p.isInt() && q.isInt() && p.Val.Sign() >= 0 && q.Val.Sign() >= 0 {
		r := new(big.Int)
		switch op {
		case "and":
			r.And(p.Val, q.Val)
		case "or":
			r.Or(p.Val, q.Val)
		case "xor":
			r.Xor(p.Val, q.Val)
		}
		return tb.BigInt(r)
	}
	if p.isInt() {
		p, q = q, p
	}
	switch op {
	case "and":
		if p == q {
			return p
		}
		if q.isInt() {
			c := q.Val
			if c.Sign() < 0 {
				// p & c = p - (p & ^c)
				nc := new(big.Int).Not(c)
				return tb.Sub(p, x.bitop("and", p, tb.BigInt(nc), t))
			}
			// split c into runs of ones
			res := tb.Int(0)
			i := 0
			n := c.BitLen()
			runs := 0
			for i < n {
				if c.Bit(i) == 0 {
					i++
					continue
				}
				j := i
				for j < n && c.Bit(j) == 1 {
					j++
				}
				part := tb.EMod(tb.EDiv(p, tb.BigInt(pow2(uint(i)))), tb.BigInt(pow2(uint(j-i))))
				res = tb.Add(res, tb.Mul(part, tb.BigInt(pow2(uint(i)))))
				i = j
				runs++
			}
			return res
		}
		r := tb.App("bv_and", SInt, ord2(p, q)...)
		x.fact(tb.Implies(tb.And(tb.Le(tb.Int(0), p), tb.Le(tb.Int(0), q)), tb.And(tb.Le(tb.Int(0), r), tb.Le(r, p), tb.Le(r, q))))
		return x.rangeOf(r, t)
	case "or":
		if p == q {
			return p
		}
		if q.isInt() && q.Val.Sign() >= 0 {
			return tb.Sub(tb.Add(p, q), x.bitop("and", p, q, t))
		}
		if disjoint(p, q) || disjoint(q, p) {
			return tb.Add(p, q)
		}
		r := tb.App("bv_or", SInt, ord2(p, q)...)
		x.fact(tb.Implies(tb.And(tb.Le(tb.Int(0), p), tb.Le(tb.Int(0), q)), tb.And(tb.Le(p, r), tb.Le(q, r), tb.Le(r, tb.Add(p, q)))))
		for _, e := range [][2]*Term{{p, q}, {q, p}} {
			if k := twos(e[0]); k > 0 && k < 64 {
				x.fact(tb.Implies(tb.And(tb.Le(tb.Int(0), e[0]), tb.Le(tb.Int(0), e[1]), tb.Lt(e[1], tb.BigInt(pow2(k)))), tb.mk("=", SBool, "", nil, r, tb.Add(p, q))))
			}
		}
		return x.rangeOf(r, t)
	case "xor":
		if p == q {
			return tb.Int(0)
		}
		if q.isInt() && q.Val.Sign() >= 0 {
			return tb.Sub(tb.Add(p, q), tb.Mul(tb.Int(2), x.bitop("and", p, q, t)))
		}
		r := tb.App("bv_xor", SInt, ord2(p, q)...)
		x.fact(tb.Implies(tb.And(tb.Le(tb.Int(0), p), tb.Le(tb.Int(0), q)), tb.And(tb.Le(tb.Int(0), r), tb.Le(r, tb.Add(p, q)))))
		return x.rangeOf(r, t)
	}
	return nil
}
func (x *Exec) rangeOf(r *Term, t types.Type) *Term {
	if rr, ok := intRange(t); ok && r.Lo == nil {
		r.setRange(rr)
	}
	return r
}
func ord2(p, q *Term) []*Term {
	if p.ID > q.ID {
		return []*Term{q, p}
	}
	return []*Term{p, q}
}

// disjoint: p is a multiple of 2^k and 0 <= q < 2^k for some k (syntactically).
func disjoint(p, q *Term) bool {
	k := twos(p)
	if k == 0 {
		return false
	}
	lo, hi := bounds(q)
	return lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(k)) < 0
}
func twos(t *Term) uint {
	switch t.Op {
	case "int":
		if t.Val.Sign() == 0 {
			return 64
		}
		return t.Val.TrailingZeroBits()
	case "*":
		var s uint
		for _, a := range t.Args {
			s += twos(a)
		}
		return s
	case "+":
		m := uint(64)
		for _, a := range t.Args {
			if k := twos(a); k < m {
				m = k
			}
		}
		return m
	case "mod":
		a, b := twos(t.Args[0]), twos(t.Args[1])
		if b < a {
			return b
		}
		return a
	case "ite":
		a, b := twos(t.Args[1]), twos(t.Args[2])
		if b < a {
			return b
		}
		return a
	}
	return 0
}

func (x *Exec) goEq(st *State, a, b Value, t types.Type) *Term {
	tb := x.tb
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			unsup("equality %T %T", a, b)
		}
		if p.Sort == SReal {
			return tb.App("flt_eq", SBool, ord2(p, q)...)
		}
		return tb.Eq(p, q)
	case SliceV:
		if q, ok := b.(SliceV); ok {
			if q.nilc.IsTrue() {
				return p.nilc
			}
			if p.nilc.IsTrue() {
				return q.nilc
			}
		}
	case PtrV:
		q, ok := b.(PtrV)
		if !ok {
			unsup("pointer equality %T", b)
		}
		if q.nilc.IsTrue() {
			return p.nilc
		}
		if p.nilc.IsTrue() {
			return q.nilc
		}
		if p.obj == q.obj && pathStr(p.path) == pathStr(q.path) {
			return tb.Eq(p.nilc, q.nilc)
		}
		if p.nilc.IsFalse() && q.nilc.IsFalse() && (p.obj.alloc != nil || q.obj.alloc != nil) && p.obj != q.obj {
			return tb.False()
		}
		return tb.Fresh("ptreq", SBool)
	case MapV:
		if q, ok := b.(MapV); ok {
			if q.nilc.IsTrue() {
				return p.nilc
			}
			if p.nilc.IsTrue() {
				return q.nilc
			}
		}
	case FuncV:
		n, _ := x.nilCond(p)
		return n
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok {
			unsup("interface equality %T", b)
		}
		if q.nilc.IsTrue() {
			return p.nilc
		}
		if p.nilc.IsTrue() {
			return q.nilc
		}
		if p.dyn != nil && q.dyn != nil {
			if !types.Identical(p.dyn, q.dyn) {
				return tb.And(p.nilc, q.nilc)
			}
			return tb.Or(tb.And(p.nilc, q.nilc), tb.And(tb.Not(p.nilc), tb.Not(q.nilc), x.goEq(st, p.val, q.val, p.dyn)))
		}
		it, jt := x.toTerm(p, t, st), x.toTerm(q, t, st)
		return tb.Or(tb.And(p.nilc, q.nilc), tb.And(tb.Not(p.nilc), tb.Not(q.nilc), tb.Eq(it, jt)))
	case StructV:
		return tb.Eq(x.toTerm(a, t, st), x.toTerm(b, t, st))
	case SeqV:
		return tb.Eq(p.t, b.(SeqV).t)
	case OpaqueV:
		return tb.Eq(p.t, x.toTerm(b, t, st))
	}
	unsup("equality on %T", a)
	return nil
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) (Value, bool) {
	tb := x.tb
	v := x.val(fr, st, in.X)
	switch in.Op {
	case token.MUL:
		p, ok := v.(PtrV)
		if !ok {
			unsup("load through %T", v)
		}
		if !x.require(st, "nil pointer dereference", in.Pos(), tb.Not(p.nilc)) {
			return nil, false
		}
		return x.load(st, p.obj, p.path), true
	case token.NOT:
		return tb.Not(v.(*Term)), true
	case token.SUB:
		if isFloat(in.Type()) {
			return tb.App("flt_neg", SReal, v.(*Term)), true
		}
		return x.wrap(st, tb.Neg(v.(*Term)), in.Type()), true
	case token.XOR:
		bits, signed := intBits(in.Type())
		t := v.(*Term)
		if signed {
			return tb.Sub(tb.Int(-1), t), true
		}
		return tb.Sub(tb.BigInt(new(big.Int).Sub(pow2(bits), bigOne)), t), true
	}
	unsup("unop %s", in.Op)
	return nil, false
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	tb := x.tb
	switch {
	case isInteger(to) && isInteger(from):
		return x.wrap(st, v.(*Term), to)
	case isFloat(to) && isInteger(from):
		return tb.App("i2f", SReal, v.(*Term))
	case isFloat(to) && isFloat(from):
		return v
	case isInteger(to) && isFloat(from):
		f := tb.App("f2i_"+under(to).(*types.Basic).Name(), SInt, v.(*Term))
		return x.rangeOf(f, to)
	case isString(to) && isByteSlice(from):
		return x.view(v.(SliceV), st)
	case isString(to) && isString(from):
		return v
	case isString(to) && isInteger(from):
		return x.utf8enc(v.(*Term))
	case isByteSlice(to) && isString(from):
		o := x.newObj("bytesof", to)
		o.slice = true
		el := under(to).(*types.Slice).Elem()
		o.init = SeqV{v.(*Term), el}
		st.m[o] = o.init
		return SliceV{nilc: tb.False(), obj: o, off: tb.Int(0), len: tb.Len(v.(*Term)), elem: el}
	case isString(to):
		if sv, ok := v.(SliceV); ok { // []rune -> string
			return tb.App("runes2str", SBytes, x.view(sv, st))
		}
	}
	if _, ok := under(to).(*types.Slice); ok && isString(from) { // string -> []rune
		t := tb.App("str2runes", SBytes, v.(*Term))
		x.fact(tb.Le(tb.Len(t), tb.Len(v.(*Term))))
		return x.fromTerm(t, to, nil)
	}
	if types.Identical(under(from), under(to)) {
		return v
	}
	unsup("convert %v -> %v", from, to)
	return nil
}
