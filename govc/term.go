package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms are hash-consed SMT expressions. Integers are mathematical (SMT Int);
// machine arithmetic is made explicit by the executor (wrap terms).
type Term struct {
	Op   string
	Args []*Term
	Sort string
	Val  *big.Int // for Op=="int"
	Name string   // for Op=="var"/"app"/"sel"/...
	ID   int
	// quantifier binders
	Binders []*Term
	hasBV   bool     // mentions a bound variable
	Lo, Hi  *big.Int // known range (vars, element reads, ...), asserted as a fact
}

const (
	SInt   = "Int"
	SBool  = "Bool"
	SBytes = "(Seq Int)"
)

func SeqOf(s string) string { return "(Seq " + s + ")" }
func ArrOf(k, v string) string {
	return "(Array " + k + " " + v + ")"
}
func seqElem(s string) string {
	if strings.HasPrefix(s, "(Seq ") {
		return s[5 : len(s)-1]
	}
	return SInt
}

// one table per function check (not shared between goroutines)
type TB struct {
	tab   map[string]*Term
	n     int
	fresh int
	dts   *DTs
}

func NewTB() *TB { return &TB{tab: map[string]*Term{}, dts: newDTs()} }

func (b *TB) mk(op, sortv, name string, val *big.Int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sortv)
	sb.WriteByte('|')
	sb.WriteString(name)
	if val != nil {
		sb.WriteByte('#')
		sb.WriteString(val.String())
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.ID)
	}
	k := sb.String()
	if t, ok := b.tab[k]; ok {
		return t
	}
	b.n++
	t := &Term{Op: op, Args: args, Sort: sortv, Val: val, Name: name, ID: b.n}
	for _, a := range args {
		if a.hasBV {
			t.hasBV = true
		}
	}
	if op == "bvar" {
		t.hasBV = true
	}
	b.tab[k] = t
	return t
}

func (b *TB) Int(n int64) *Term       { return b.BigInt(big.NewInt(n)) }
func (b *TB) BigInt(v *big.Int) *Term { return b.mk("int", SInt, "", v) }
func (b *TB) True() *Term             { return b.mk("true", SBool, "", nil) }
func (b *TB) False() *Term            { return b.mk("false", SBool, "", nil) }
func (b *TB) Bool(x bool) *Term {
	if x {
		return b.True()
	}
	return b.False()
}
func (b *TB) Var(name, s string) *Term { return b.mk("var", s, name, nil) }
func (t *Term) setRange(r rng) *Term   { t.Lo, t.Hi = r.lo, r.hi; return t }
func (b *TB) Fresh(prefix, s string) *Term {
	b.fresh++
	return b.Var(fmt.Sprintf("%s!%d", sanitize(prefix), b.fresh), s)
}
func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// App: application of an uninterpreted (or spec) function
func (b *TB) App(name, s string, args ...*Term) *Term { return b.mk("app", s, name, nil, args...) }

func (t *Term) isInt() bool    { return t.Op == "int" }
func (t *Term) IsTrue() bool   { return t.Op == "true" }
func (t *Term) IsFalse() bool  { return t.Op == "false" }
func (t *Term) Int64() int64   { return t.Val.Int64() }
func (t *Term) isConst() bool  { return t.Op == "int" || t.Op == "true" || t.Op == "false" }
func (t *Term) String() string { return printTerm(t, nil) }

func (b *TB) Not(x *Term) *Term {
	switch x.Op {
	case "true":
		return b.False()
	case "false":
		return b.True()
	case "not":
		return x.Args[0]
	case "<=":
		return b.Lt(x.Args[1], x.Args[0])
	case "<":
		return b.Le(x.Args[1], x.Args[0])
	}
	return b.mk("not", SBool, "", nil, x)
}
func (b *TB) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x.IsFalse() {
			return x
		}
		if x.IsTrue() {
			continue
		}
		if x.Op == "and" {
			for _, y := range x.Args {
				if !seen[y.ID] {
					seen[y.ID] = true
					out = append(out, y)
				}
			}
			continue
		}
		if !seen[x.ID] {
			seen[x.ID] = true
			out = append(out, x)
		}
	}
	for _, x := range out {
		if x.Op == "not" && seen[x.Args[0].ID] {
			return b.False()
		}
	}
	if len(out) == 0 {
		return b.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.mk("and", SBool, "", nil, out...)
}
func (b *TB) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x.IsTrue() {
			return x
		}
		if x.IsFalse() {
			continue
		}
		if x.Op == "or" {
			for _, y := range x.Args {
				if !seen[y.ID] {
					seen[y.ID] = true
					out = append(out, y)
				}
			}
			continue
		}
		if !seen[x.ID] {
			seen[x.ID] = true
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return b.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.mk("or", SBool, "", nil, out...)
}
func (b *TB) Implies(x, y *Term) *Term {
	if x.IsTrue() {
		return y
	}
	if x.IsFalse() || y.IsTrue() || x == y {
		return b.True()
	}
	if y.IsFalse() {
		return b.Not(x)
	}
	return b.mk("=>", SBool, "", nil, x, y)
}
func (b *TB) Ite(c, x, y *Term) *Term {
	if c.IsTrue() {
		return x
	}
	if c.IsFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.IsTrue() && y.IsFalse() {
		return c
	}
	if x.IsFalse() && y.IsTrue() {
		return b.Not(c)
	}
	return b.mk("ite", x.Sort, "", nil, c, x, y)
}
func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True()
	}
	if x.isConst() && y.isConst() {
		return b.False() // hash-consed and different
	}
	if x.Sort == SBool {
		if x.IsTrue() {
			return y
		}
		if y.IsTrue() {
			return x
		}
		if x.IsFalse() {
			return b.Not(y)
		}
		if y.IsFalse() {
			return b.Not(x)
		}
	}
	if x.Sort == SInt && y.Sort == SInt {
		// a + c1 == c2 normalisation
		d := b.Sub(x, y)
		if d.isInt() {
			return b.Bool(d.Val.Sign() == 0)
		}
		lo, hi := bounds(x)
		lo2, hi2 := bounds(y)
		if (hi != nil && lo2 != nil && hi.Cmp(lo2) < 0) || (hi2 != nil && lo != nil && hi2.Cmp(lo) < 0) {
			return b.False()
		}
	}
	if x.Op == "mk" && y.Op == "mk" && x.Name == y.Name {
		var cs []*Term
		for i := range x.Args {
			cs = append(cs, b.Eq(x.Args[i], y.Args[i]))
		}
		return b.And(cs...)
	}
	if x.Op == "mk" && y.Op == "mk" && x.Name != y.Name && x.Sort == y.Sort {
		return b.False()
	}
	if strings.HasPrefix(x.Sort, "(Seq") {
		nx, okx := constSeqLen(x)
		ny, oky := constSeqLen(y)
		if okx && oky && nx != ny {
			return b.False()
		}
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.mk("=", SBool, "", nil, x, y)
}
func constSeqLen(x *Term) (int64, bool) {
	switch x.Op {
	case "empty":
		return 0, true
	case "unit":
		return 1, true
	case "concat":
		var n int64
		for _, a := range x.Args {
			k, ok := constSeqLen(a)
			if !ok {
				return 0, false
			}
			n += k
		}
		return n, true
	case "sub":
		if x.Args[2].isInt() {
			return x.Args[2].Int64(), true
		}
	}
	return 0, false
}

func (b *TB) Neq(x, y *Term) *Term { return b.Not(b.Eq(x, y)) }
func (b *TB) Le(x, y *Term) *Term {
	if x == y {
		return b.True()
	}
	d := b.Sub(y, x)
	lo, hi := bounds(d)
	if lo != nil && lo.Sign() >= 0 {
		return b.True()
	}
	if hi != nil && hi.Sign() < 0 {
		return b.False()
	}
	return b.mk("<=", SBool, "", nil, x, y)
}
func (b *TB) Lt(x, y *Term) *Term {
	if x == y {
		return b.False()
	}
	d := b.Sub(y, x)
	lo, hi := bounds(d)
	if lo != nil && lo.Sign() > 0 {
		return b.True()
	}
	if hi != nil && hi.Sign() <= 0 {
		return b.False()
	}
	return b.mk("<", SBool, "", nil, x, y)
}
func (b *TB) Ge(x, y *Term) *Term { return b.Le(y, x) }
func (b *TB) Gt(x, y *Term) *Term { return b.Lt(y, x) }

// linear normal form: sum of coef*atom + const
type lin struct {
	c  *big.Int
	m  map[*Term]*big.Int
	ks []*Term
}

func newLin() *lin { return &lin{c: new(big.Int), m: map[*Term]*big.Int{}} }
func (l *lin) add(t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(t.Val, k))
	case "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case "*":
		if t.Args[0].isInt() && len(t.Args) == 2 {
			l.add(t.Args[1], new(big.Int).Mul(k, t.Args[0].Val))
			return
		}
		l.atom(t, k)
	default:
		l.atom(t, k)
	}
}
func (l *lin) atom(t *Term, k *big.Int) {
	if v, ok := l.m[t]; ok {
		v.Add(v, k)
	} else {
		l.m[t] = new(big.Int).Set(k)
		l.ks = append(l.ks, t)
	}
}
func (b *TB) fromLin(l *lin) *Term {
	var ts []*Term
	sort.Slice(l.ks, func(i, j int) bool { return l.ks[i].ID < l.ks[j].ID })
	for _, t := range l.ks {
		k := l.m[t]
		if k.Sign() == 0 {
			continue
		}
		if k.IsInt64() && k.Int64() == 1 {
			ts = append(ts, t)
		} else {
			ts = append(ts, b.mk("*", SInt, "", nil, b.BigInt(k), t))
		}
	}
	if l.c.Sign() != 0 || len(ts) == 0 {
		ts = append(ts, b.BigInt(new(big.Int).Set(l.c)))
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return b.mk("+", SInt, "", nil, ts...)
}

var bigOne = big.NewInt(1)

func (b *TB) Add(xs ...*Term) *Term {
	l := newLin()
	for _, x := range xs {
		l.add(x, bigOne)
	}
	return b.fromLin(l)
}
func (b *TB) Sub(x, y *Term) *Term {
	l := newLin()
	l.add(x, bigOne)
	l.add(y, big.NewInt(-1))
	return b.fromLin(l)
}
func (b *TB) Mul(x, y *Term) *Term {
	if y.isInt() {
		x, y = y, x
	}
	if x.isInt() {
		l := newLin()
		l.add(y, x.Val)
		return b.fromLin(l)
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.mk("*", SInt, "", nil, x, y)
}
func (b *TB) Neg(x *Term) *Term { return b.Sub(b.Int(0), x) }

// Euclidean div/mod as in SMT-LIB (divisor constant > 0 simplifications)
func (b *TB) EDiv(x, y *Term) *Term {
	if x.isInt() && y.isInt() && y.Val.Sign() != 0 {
		q, _ := new(big.Int).DivMod(x.Val, y.Val, new(big.Int))
		return b.BigInt(q)
	}
	if y.isInt() && y.Val.Cmp(bigOne) == 0 {
		return x
	}
	if y.isInt() && y.Val.Sign() > 0 {
		lo, hi := bounds(x)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(y.Val) < 0 {
			return b.Int(0)
		}
		if x.Op == "div" && x.Args[1].isInt() && x.Args[1].Val.Sign() > 0 {
			return b.EDiv(x.Args[0], b.BigInt(new(big.Int).Mul(x.Args[1].Val, y.Val)))
		}
		if m, r := b.splitMultiples(x, y.Val); m != nil {
			return b.Add(m, b.EDiv(r, y))
		}
	}
	return b.mk("div", SInt, "", nil, x, y)
}

// splitMultiples writes x as d*m + r, taking into m the summands whose coefficient d divides (nil when there are none).
func (b *TB) splitMultiples(x *Term, d *big.Int) (m, r *Term) {
	if d.Cmp(bigOne) <= 0 {
		return nil, nil
	}
	args := []*Term{x}
	if x.Op == "+" {
		args = x.Args
	}
	r = b.Int(0)
	for _, a := range args {
		if a.Op == "*" && len(a.Args) == 2 && a.Args[0].isInt() && a.Args[0].Val.Sign() != 0 {
			q, rem := new(big.Int).DivMod(a.Args[0].Val, d, new(big.Int))
			if rem.Sign() == 0 {
				t := b.Mul(b.BigInt(q), a.Args[1])
				if m == nil {
					m = t
				} else {
					m = b.Add(m, t)
				}
				continue
			}
		}
		r = b.Add(r, a)
	}
	return m, r
}
func (b *TB) EMod(x, y *Term) *Term {
	if x.isInt() && y.isInt() && y.Val.Sign() != 0 {
		_, r := new(big.Int).DivMod(x.Val, y.Val, new(big.Int))
		return b.BigInt(r)
	}
	if y.isInt() && y.Val.Sign() > 0 {
		lo, hi := bounds(x)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(y.Val) < 0 {
			return x
		}
		if m, r := b.splitMultiples(x, y.Val); m != nil {
			return b.EMod(r, y)
		}
	}
	return b.mk("mod", SInt, "", nil, x, y)
}

// bounds computes a cheap sound interval for an Int term.
func bounds(t *Term) (lo, hi *big.Int) {
	return boundsD(t, 0)
}
func boundsD(t *Term, d int) (lo, hi *big.Int) {
	if t.Lo != nil || t.Hi != nil {
		return t.Lo, t.Hi
	}
	if d > 12 {
		return nil, nil
	}
	switch t.Op {
	case "int":
		return t.Val, t.Val
	case "len":
		return new(big.Int), lenMax
	case "nthb":
		return new(big.Int), big.NewInt(255)
	case "nthi":
		if r, ok := typeRanges[t.Name]; ok {
			return r.lo, r.hi
		}
	case "mod":
		if t.Args[1].isInt() && t.Args[1].Val.Sign() > 0 {
			h := new(big.Int).Sub(t.Args[1].Val, bigOne)
			l2, h2 := boundsD(t.Args[0], d+1)
			if l2 != nil && h2 != nil && l2.Sign() >= 0 && h2.Cmp(h) < 0 {
				h = h2
			}
			return new(big.Int), h
		}
	case "div":
		if t.Args[1].isInt() && t.Args[1].Val.Sign() > 0 {
			l, h := boundsD(t.Args[0], d+1)
			var rl, rh *big.Int
			if l != nil {
				rl, _ = new(big.Int).DivMod(l, t.Args[1].Val, new(big.Int))
			}
			if h != nil {
				rh, _ = new(big.Int).DivMod(h, t.Args[1].Val, new(big.Int))
			}
			return rl, rh
		}
	case "ite":
		l1, h1 := boundsD(t.Args[1], d+1)
		l2, h2 := boundsD(t.Args[2], d+1)
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(lo) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(hi) > 0 {
				hi = h2
			}
		}
		return
	case "+":
		lo, hi = new(big.Int), new(big.Int)
		for _, a := range t.Args {
			l, h := boundsD(a, d+1)
			if lo != nil && l != nil {
				lo = new(big.Int).Add(lo, l)
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi = new(big.Int).Add(hi, h)
			} else {
				hi = nil
			}
		}
		return
	case "*":
		if len(t.Args) == 2 {
			l1, h1 := boundsD(t.Args[0], d+1)
			l2, h2 := boundsD(t.Args[1], d+1)
			if t.Args[0].isInt() {
				k := t.Args[0].Val
				if l2 != nil {
					l2 = new(big.Int).Mul(l2, k)
				}
				if h2 != nil {
					h2 = new(big.Int).Mul(h2, k)
				}
				if k.Sign() < 0 {
					return h2, l2
				}
				return l2, h2
			}
			if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
				lo = new(big.Int).Mul(l1, l2)
				if h1 != nil && h2 != nil {
					hi = new(big.Int).Mul(h1, h2)
				}
				return
			}
		}
	}
	return nil, nil
}

type rng struct{ lo, hi *big.Int }

func pow2(k uint) *big.Int { return new(big.Int).Lsh(bigOne, k) }
func urange(k uint) rng    { return rng{new(big.Int), new(big.Int).Sub(pow2(k), bigOne)} }
func srange(k uint) rng {
	return rng{new(big.Int).Neg(pow2(k - 1)), new(big.Int).Sub(pow2(k-1), bigOne)}
}

var typeRanges = map[string]rng{
	"int": srange(64), "int64": srange(64), "int32": srange(32), "int16": srange(16), "int8": srange(8),
	"uint": urange(64), "uint64": urange(64), "uint32": urange(32), "uint16": urange(16), "uint8": urange(8), "uintptr": urange(64),
	"rune": srange(32), "byte": urange(8),
}

// lengths of Go sequences are taken to be below 2^47 (stated assumption)
var lenMax = new(big.Int).Lsh(bigOne, 47)

// ---- sequences ----
func (b *TB) Empty(s string) *Term { return b.mk("empty", s, "", nil) }
func (b *TB) Unit(x *Term) *Term   { return b.mk("unit", SeqOf(x.Sort), "", nil, x) }
func (b *TB) Concat(s string, xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x.Op == "empty" {
			continue
		}
		if x.Op == "concat" {
			out = append(out, x.Args...)
			continue
		}
		out = append(out, x)
	}
	// merge adjacent subs of the same base
	for i := 0; i+1 < len(out); {
		a, c := out[i], out[i+1]
		if a.Op == "sub" && c.Op == "sub" && a.Args[0] == c.Args[0] && b.Add(a.Args[1], a.Args[2]) == c.Args[1] {
			m := b.Sub3(a.Args[0], a.Args[1], b.Add(a.Args[2], c.Args[2]))
			out = append(append(append([]*Term{}, out[:i]...), m), out[i+2:]...)
			continue
		}
		i++
	}
	if len(out) == 0 {
		return b.Empty(s)
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.mk("concat", s, "", nil, out...)
}
func (b *TB) Len(s *Term) *Term {
	switch s.Op {
	case "empty":
		return b.Int(0)
	case "unit":
		return b.Int(1)
	case "concat":
		var ts []*Term
		for _, a := range s.Args {
			ts = append(ts, b.Len(a))
		}
		return b.Add(ts...)
	case "sub":
		return s.Args[2]
	case "ite":
		l1, l2 := b.Len(s.Args[1]), b.Len(s.Args[2])
		if l1 == l2 {
			return l1
		}
	}
	return b.mk("len", SInt, "", nil, s)
}

// Sub3 is an in-bounds extract (0<=o, 0<=n, o+n<=len established by the caller).
func (b *TB) Sub3(s, o, n *Term) *Term {
	if n.isInt() && n.Val.Sign() == 0 {
		return b.Empty(s.Sort)
	}
	if o.isInt() && o.Val.Sign() == 0 && n == b.Len(s) {
		return s
	}
	if s.Op == "sub" {
		return b.Sub3(s.Args[0], b.Add(s.Args[1], o), n)
	}
	if s.Op == "concat" && o.isInt() {
		// peel leading elements of constant length
		off := o
		args := s.Args
		for len(args) > 0 {
			l := b.Len(args[0])
			if !l.isInt() || !off.isInt() || off.Val.Cmp(l.Val) < 0 {
				break
			}
			off = b.Sub(off, l)
			args = args[1:]
		}
		if len(args) < len(s.Args) {
			return b.Sub3(b.Concat(s.Sort, args...), off, n)
		}
		if off.isInt() && off.Val.Sign() == 0 {
			// whole prefix?
			acc := b.Int(0)
			for i, a := range args {
				acc = b.Add(acc, b.Len(a))
				if acc == n {
					return b.Concat(s.Sort, args[:i+1]...)
				}
			}
		}
	}
	return b.mk("sub", s.Sort, "", nil, s, o, n)
}

// Extract is the total SMT-LIB extract.
func (b *TB) Extract(s, o, n *Term) *Term {
	if o.isInt() && o.Val.Sign() == 0 && n == b.Len(s) {
		return s
	}
	if k, ok := constSeqLen(s); ok && o.isInt() && n.isInt() {
		oo, nn := o.Int64(), n.Int64()
		if oo >= 0 && nn >= 0 && oo+nn <= k {
			return b.Sub3(s, o, n)
		}
	}
	return b.mk("extract", s.Sort, "", nil, s, o, n)
}
func (b *TB) nthOp(s *Term, i *Term, op, name string) *Term {
	// simplifications valid because the caller checked bounds (or total nth on concat of units with const index)
	switch s.Op {
	case "unit":
		if i.isInt() && i.Val.Sign() == 0 {
			return s.Args[0]
		}
	case "concat":
		off := i
		for k, a := range s.Args {
			l := b.Len(a)
			if off.isInt() && off.Val.Sign() >= 0 && l.isInt() {
				if off.Val.Cmp(l.Val) < 0 {
					return b.nthOp(a, off, op, name)
				}
				off = b.Sub(off, l)
				continue
			}
			// exact match of the symbolic prefix length
			if off.isInt() && off.Val.Sign() == 0 {
				if a.Op == "unit" {
					return a.Args[0]
				}
			}
			d := b.Sub(off, l)
			if d.isInt() && d.Val.Sign() >= 0 {
				off = d
				_ = k
				continue
			}
			break
		}
	case "sub":
		if op == "nthb" || op == "nthi" {
			if n, ok := constSeqLen(s); ok && i.isInt() && (i.Int64() < 0 || i.Int64() >= n) {
				break
			}
			return b.nthOp(s.Args[0], b.Add(s.Args[1], i), op, name)
		}
	}
	return b.mk(op, seqElem(s.Sort), name, nil, s, i)
}

// datatypes
func (b *TB) MkDT(d *Datatype, ctor int, args ...*Term) *Term {
	// mk(sel0(x),sel1(x),...) == x
	c := d.Ctors[ctor]
	if len(args) > 0 && len(args) == len(c.Sels) && len(d.Ctors) == 1 {
		ok := true
		for i, a := range args {
			if a.Op != "dtsel" || a.Name != c.Sels[i] || a.Args[0] != args[0].Args[0] {
				ok = false
				break
			}
		}
		if ok {
			return args[0].Args[0]
		}
	}
	return b.mk("mk", d.Name, c.Name, nil, args...)
}
func (b *TB) SelDT(d *Datatype, ctor, i int, x *Term) *Term {
	c := d.Ctors[ctor]
	if x.Op == "mk" && x.Name == c.Name {
		return x.Args[i]
	}
	if x.Op == "ite" {
		return b.Ite(x.Args[0], b.SelDT(d, ctor, i, x.Args[1]), b.SelDT(d, ctor, i, x.Args[2]))
	}
	return b.mk("dtsel", c.Sorts[i], c.Sels[i], nil, x)
}
func (b *TB) IsCtor(d *Datatype, ctor int, x *Term) *Term {
	c := d.Ctors[ctor]
	if x.Op == "mk" {
		return b.Bool(x.Name == c.Name)
	}
	return b.mk("is", SBool, c.Name, nil, x)
}

// arrays
func (b *TB) Select(a, i *Term, s string) *Term {
	if a.Op == "store" {
		e := b.Eq(a.Args[1], i)
		if e.IsTrue() {
			return a.Args[2]
		}
		if e.IsFalse() {
			return b.Select(a.Args[0], i, s)
		}
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	return b.mk("select", s, "", nil, a, i)
}
func (b *TB) Store(a, i, v *Term) *Term { return b.mk("store", a.Sort, "", nil, a, i, v) }
func (b *TB) ConstArr(s string, v *Term) *Term {
	return b.mk("constarr", s, "", nil, v)
}

func (b *TB) Forall(vars []*Term, body *Term) *Term { return b.quant("forall", vars, body) }
func (b *TB) Exists(vars []*Term, body *Term) *Term { return b.quant("exists", vars, body) }
func (b *TB) quant(q string, vars []*Term, body *Term) *Term {
	if body.isConst() {
		return body
	}
	var ns []string
	for _, v := range vars {
		ns = append(ns, v.Name+":"+v.Sort)
	}
	t := b.mk(q, SBool, strings.Join(ns, ","), nil, body)
	t.Binders = vars
	t.hasBV = false
	return t
}
func (b *TB) BVar(name, s string) *Term {
	b.fresh++
	return b.mk("bvar", s, fmt.Sprintf("%s?%d", sanitize(name), b.fresh), nil)
}

// ---- substitution ----
func (b *TB) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = b.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}
func (b *TB) rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return b.Not(args[0])
	case "and":
		return b.And(args...)
	case "or":
		return b.Or(args...)
	case "=>":
		return b.Implies(args[0], args[1])
	case "ite":
		return b.Ite(args[0], args[1], args[2])
	case "=":
		return b.Eq(args[0], args[1])
	case "<=":
		return b.Le(args[0], args[1])
	case "<":
		return b.Lt(args[0], args[1])
	case "+":
		return b.Add(args...)
	case "*":
		if len(args) == 2 {
			return b.Mul(args[0], args[1])
		}
	case "div":
		return b.EDiv(args[0], args[1])
	case "mod":
		return b.EMod(args[0], args[1])
	case "unit":
		return b.Unit(args[0])
	case "concat":
		return b.Concat(t.Sort, args...)
	case "len":
		return b.Len(args[0])
	case "sub":
		return b.Sub3(args[0], args[1], args[2])
	case "extract":
		return b.Extract(args[0], args[1], args[2])
	case "select":
		return b.Select(args[0], args[1], t.Sort)
	case "nthb", "nthi", "nth":
		return b.nthOp(args[0], args[1], t.Op, t.Name)
	case "forall", "exists":
		r := b.quant(t.Op, t.Binders, args[0])
		return r
	}
	return b.mk(t.Op, t.Sort, t.Name, t.Val, args...)
}

// ---- datatypes registry ----
type Ctor struct {
	Name  string
	Sels  []string
	Sorts []string
}
type Datatype struct {
	Name  string
	Ctors []Ctor
}
type DTs struct {
	m     map[string]*Datatype
	order []string
}

func newDTs() *DTs { return &DTs{m: map[string]*Datatype{}} }
func (d *DTs) add(x *Datatype) *Datatype {
	if y, ok := d.m[x.Name]; ok {
		return y
	}
	d.m[x.Name] = x
	d.order = append(d.order, x.Name)
	return x
}

// ---- printing ----
func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}
func sym(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '!' || r == '?' || r == '.' || r == '$') {
			return "|" + s + "|"
		}
	}
	return s
}

func printTerm(t *Term, names map[*Term]string) string {
	var sb strings.Builder
	var pr func(t *Term, top bool)
	pr = func(t *Term, top bool) {
		if !top && names != nil {
			if n, ok := names[t]; ok {
				sb.WriteString(n)
				return
			}
		}
		list := func(op string) {
			sb.WriteByte('(')
			sb.WriteString(op)
			for _, a := range t.Args {
				sb.WriteByte(' ')
				pr(a, false)
			}
			sb.WriteByte(')')
		}
		switch t.Op {
		case "int":
			sb.WriteString(smtInt(t.Val))
		case "true", "false":
			sb.WriteString(t.Op)
		case "var", "bvar":
			sb.WriteString(sym(t.Name))
		case "app":
			if len(t.Args) == 0 {
				sb.WriteString(sym(t.Name))
			} else {
				list(sym(t.Name))
			}
		case "empty":
			sb.WriteString("(as seq.empty " + t.Sort + ")")
		case "unit":
			list("seq.unit")
		case "concat":
			list("seq.++")
		case "len":
			list("seq.len")
		case "sub", "extract":
			list("seq.extract")
		case "nthb", "nthi", "nth":
			list("seq.nth")
		case "mk":
			if len(t.Args) == 0 {
				sb.WriteString(sym(t.Name))
			} else {
				list(sym(t.Name))
			}
		case "dtsel":
			list(sym(t.Name))
		case "is":
			list("(_ is " + sym(t.Name) + ")")
		case "constarr":
			list("(as const " + t.Sort + ")")
		case "forall", "exists":
			sb.WriteString("(" + t.Op + " (")
			for _, v := range t.Binders {
				sb.WriteString("(" + sym(v.Name) + " " + v.Sort + ")")
			}
			sb.WriteString(") ")
			pr(t.Args[0], false)
			sb.WriteByte(')')
		default:
			list(t.Op)
		}
	}
	pr(t, true)
	return sb.String()
}
