package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library functions: each model is a trusted contract on a dependency, listed in the evidence when used.

type libCall struct {
	fr   *Frame
	in   *ssa.Call
	f    *ssa.Function
	args []Value
	st   *State
	cont func(*State, Value)
}
type libModel func(x *Exec, l *libCall)

// UF is an uninterpreted function shared between models and specifications.
type UF struct {
	name   string
	sort   string
	rt     types.Type
	lo, hi *big.Int
	ax     func(x *Exec, t *Term) []*Term
}

var specUF = map[string]*UF{}

func uf(name string, rt types.Type, lo, hi *big.Int, ax func(x *Exec, t *Term) []*Term) *UF {
	s := SInt
	switch rt {
	case tyBool:
		s = SBool
	case tyStr, tyBytes:
		s = SBytes
	case tyStrs:
		s = SeqOf(SBytes)
	case types.Typ[types.Float64]:
		s = SReal
	}
	if ax == nil && s != SInt && s != SBool && s != SReal {
		ax = lenBound
	}
	u := &UF{name: name, sort: s, rt: rt, lo: lo, hi: hi, ax: ax}
	specUF[name] = u
	return u
}
func (x *Exec) ufApp(u *UF, args []*Term) *Term {
	t := x.tb.App(u.name, u.sort, args...)
	if u.lo != nil || u.hi != nil {
		t.setRange(rng{u.lo, u.hi})
	}
	if u.ax != nil && !t.hasBV {
		k := fmt.Sprintf("%d", t.ID)
		if !x.ufs[k] {
			x.ufs[k] = true
			x.facts = append(x.facts, u.ax(x, t)...)
		}
	}
	return t
}

var fl64 = types.Typ[types.Float64]
var maxI64 = typeRanges["int64"].hi
var minI64 = typeRanges["int64"].lo

func lenBound(x *Exec, t *Term) []*Term {
	return []*Term{x.tb.mk("<=", SBool, "", nil, x.tb.Len(t), x.tb.BigInt(lenMax))}
}
func lenEq(n int64) func(x *Exec, t *Term) []*Term {
	return func(x *Exec, t *Term) []*Term {
		return []*Term{x.tb.mkEq(x.tb.Len(t), x.tb.Int(n))}
	}
}
func lenSame(x *Exec, t *Term) []*Term {
	return []*Term{x.tb.mkEq(x.tb.Len(t), x.tb.Len(t.Args[len(t.Args)-1]))}
}
func lenLe(x *Exec, t *Term) []*Term {
	return []*Term{x.tb.mk("<=", SBool, "", nil, x.tb.Len(t), x.tb.Len(t.Args[0]))}
}

var (
	ufItoa = uf("itoa", tyStr, nil, nil, func(x *Exec, t *Term) []*Term {
		tb := x.tb
		return []*Term{tb.mk("<=", SBool, "", nil, tb.Int(1), tb.Len(t)),
			tb.mkEq(tb.App("atoi_val", SInt, t), t.Args[0]), tb.App("atoi_ok", SBool, t)}
	})
	ufAtoiVal = uf("atoi_val", tyInt, minI64, maxI64, nil)
	ufAtoiOk  = uf("atoi_ok", tyBool, nil, nil, nil)
	ufTrim    = uf("trimspace", tyStr, nil, nil, lenLe)
	ufLower   = uf("tolower", tyStr, nil, nil, nil)
	ufUpper   = uf("toupper", tyStr, nil, nil, nil)
	ufFields  = uf("fields", tyStrs, nil, nil, nil)
	ufSplit   = uf("split", tyStrs, nil, nil, nil)
	ufJoin    = uf("join", tyStr, nil, nil, nil)
	ufRepl    = uf("replaceall", tyStr, nil, nil, nil)
	ufMD5     = uf("md5", tyStr, nil, nil, lenEq(16))
	ufSHA256  = uf("sha256", tyStr, nil, nil, lenEq(32))
	ufRC4     = uf("rc4", tyStr, nil, nil, func(x *Exec, t *Term) []*Term {
		tb := x.tb
		return []*Term{tb.mkEq(tb.Len(t), tb.Len(t.Args[1])), tb.mkEq(tb.App("rc4", SBytes, t.Args[0], t), t.Args[1])}
	})
	ufCBCEnc = uf("cbcenc", tyStr, nil, nil, func(x *Exec, t *Term) []*Term {
		tb := x.tb
		return []*Term{tb.mkEq(tb.Len(t), tb.Len(t.Args[2])), tb.mkEq(tb.App("cbcdec", SBytes, t.Args[0], t.Args[1], t), t.Args[2])}
	})
	ufCBCDec = uf("cbcdec", tyStr, nil, nil, func(x *Exec, t *Term) []*Term {
		tb := x.tb
		return []*Term{tb.mkEq(tb.Len(t), tb.Len(t.Args[2])), tb.mkEq(tb.App("cbcenc", SBytes, t.Args[0], t.Args[1], t), t.Args[2])}
	})
	ufAESEnc = uf("aesenc", tyStr, nil, nil, func(x *Exec, t *Term) []*Term {
		tb := x.tb
		return []*Term{tb.mkEq(tb.Len(t), tb.Int(16)), tb.mkEq(tb.App("aesdec", SBytes, t.Args[0], t), t.Args[1])}
	})
	ufAESDec = uf("aesdec", tyStr, nil, nil, func(x *Exec, t *Term) []*Term {
		tb := x.tb
		return []*Term{tb.mkEq(tb.Len(t), tb.Int(16)), tb.mkEq(tb.App("aesenc", SBytes, t.Args[0], t), t.Args[1])}
	})
	ufInflate   = uf("inflate", tyStr, nil, nil, nil)
	ufInflateOk = uf("inflate_ok", tyBool, nil, nil, nil)
	ufDeflate   = uf("deflate", tyStr, nil, nil, func(x *Exec, t *Term) []*Term {
		tb := x.tb
		return []*Term{tb.App("inflate_ok", SBool, t), tb.mkEq(tb.App("inflate", SBytes, t), t.Args[0])}
	})
	ufRepeat  = uf("repeat", tyStr, nil, nil, nil)
	ufLastIdx = uf("lastindex", tyInt, big.NewInt(-1), lenMax, nil)
	ufHexDump = uf("fmt02X", tyStr, nil, nil, nil)
	ufIsPrint = uf("isprint", tyBool, nil, nil, nil)
	ufRandom  = uf("random", tyStr, nil, nil, nil)
)

// HashV, CipherV, CBCV, ReaderV are ghost payloads of opaque library objects.
type HashV struct {
	kind string
	obj  *Obj
}
type CipherV struct {
	kind string
	key  *Term
}
type CBCV struct {
	key, iv *Term
	enc     bool
}
type ReaderV struct {
	t  *Term
	ok *Term
}

func (x *Exec) lterm(l *libCall, i int) *Term {
	switch a := l.args[i].(type) {
	case *Term:
		return a
	case SliceV:
		return x.view(a, l.st)
	case BufC:
		return a.t
	}
	unsup("library argument %T of %s", l.args[i], l.f)
	return nil
}

func (x *Exec) bytesVal(st *State, t *Term, typ types.Type) Value {
	o := x.newObj("lib", typ)
	o.slice = true
	o.init = SeqV{t, tyByte}
	st.m[o] = o.init
	n := x.tb.Fresh("libnil", SBool)
	x.facts = append(x.facts, x.tb.Implies(n, x.tb.mkEq(x.tb.Len(t), x.tb.Int(0))))
	return SliceV{nilc: n, obj: o, off: x.tb.Int(0), len: x.tb.Len(t), elem: tyByte}
}
func (x *Exec) seqVal(l *libCall, t *Term) Value {
	rt := l.f.Signature.Results().At(0).Type()
	if isString(rt) {
		return t
	}
	return x.bytesVal(l.st, t, rt)
}
func (x *Exec) newErr(name string) Value {
	id := x.tb.Fresh("err_"+name, SOpaque)
	x.facts = append(x.facts, x.tb.Not(x.tb.Eq(id, x.tb.App("opq0", SOpaque))))
	return IfaceV{nilc: x.tb.False(), id: id}
}
func (x *Exec) errIf(bad *Term, name string) Value {
	if bad.IsTrue() {
		return x.newErr(name)
	}
	if bad.IsFalse() {
		return IfaceV{nilc: x.tb.True(), id: x.tb.App("opq0", SOpaque)}
	}
	return IfaceV{nilc: x.tb.Not(bad), id: x.tb.Fresh("err_"+name, SOpaque)}
}

func pureUF(u *UF) libModel {
	return func(x *Exec, l *libCall) {
		var ts []*Term
		for i := range l.args {
			ts = append(ts, x.lterm(l, i))
		}
		t := x.ufApp(u, ts)
		if u.rt == tyStrs {
			l.cont(l.st, x.fromTerm(t, l.f.Signature.Results().At(0).Type(), nil))
			return
		}
		if u.sort == SBytes {
			l.cont(l.st, x.seqVal(l, t))
			return
		}
		l.cont(l.st, t)
	}
}

// buffer content access
func (x *Exec) bufGet(l *libCall) (*Term, PtrV, bool) {
	p, ok := l.args[0].(PtrV)
	if !ok {
		unsup("buffer receiver %T", l.args[0])
	}
	if !x.require(l.st, "nil pointer dereference", l.in.Pos(), x.tb.Not(p.nilc)) {
		return nil, p, false
	}
	c := x.load(l.st, p.obj, p.path)
	b, ok := c.(BufC)
	if !ok {
		unsup("buffer content %T", c)
	}
	return b.t, p, true
}
func bufWrite(add func(x *Exec, l *libCall) (*Term, Value)) libModel {
	return func(x *Exec, l *libCall) {
		c, p, ok := x.bufGet(l)
		if !ok {
			return
		}
		t, v := add(x, l)
		x.write(l.st, p.obj, p.path, BufC{x.tb.Concat(SBytes, c, t)})
		l.cont(l.st, v)
	}
}
func nilErr(x *Exec) Value { return x.errIf(x.tb.False(), "") }

var libModels map[string]libModel

func constString(t *Term) (string, bool) {
	switch t.Op {
	case "empty":
		return "", true
	case "unit":
		if t.Args[0].isInt() {
			return string([]byte{byte(t.Args[0].Int64())}), true
		}
	case "concat":
		var sb strings.Builder
		for _, a := range t.Args {
			s, ok := constString(a)
			if !ok {
				return "", false
			}
			sb.WriteString(s)
		}
		return sb.String(), true
	}
	return "", false
}

// sprintf models fmt.Sprintf for constant formats.
func (x *Exec) sprintf(st *State, format *Term, argv Value) *Term {
	tb := x.tb
	f, ok := constString(format)
	if !ok {
		return tb.Fresh("sprintf", SBytes)
	}
	var elems []*Term
	if sv, ok := argv.(SliceV); ok {
		v := x.view(sv, st)
		switch v.Op {
		case "empty":
		case "unit":
			elems = []*Term{v.Args[0]}
		case "concat":
			for _, a := range v.Args {
				if a.Op != "unit" {
					return tb.Fresh("sprintf", SBytes)
				}
				elems = append(elems, a.Args[0])
			}
		default:
			return tb.Fresh("sprintf", SBytes)
		}
	}
	var out []*Term
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, tb.Unit(tb.Int(int64(f[i]))))
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789+-# .", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return tb.Fresh("sprintf", SBytes)
		}
		verb := f[j]
		flags := f[i+1 : j]
		i = j
		if verb == '%' {
			out = append(out, tb.Unit(tb.Int('%')))
			continue
		}
		if k >= len(elems) {
			return tb.Fresh("sprintf", SBytes)
		}
		e := elems[k]
		k++
		boxed := ""
		if e.Op == "app" && strings.HasPrefix(e.Name, "box_") {
			boxed = e.Name[4:]
		}
		switch {
		case flags == "" && (verb == 'd' || verb == 'v') && boxed != "" && e.Args[0].Sort == SInt:
			out = append(out, x.ufApp(ufItoa, []*Term{e.Args[0]}))
		case flags == "" && (verb == 's' || verb == 'v') && boxed == "string":
			out = append(out, e.Args[0])
		case flags == "" && verb == 's' && boxed != "" && e.Args[0].Sort == SBytes:
			out = append(out, e.Args[0])
		default:
			a := e
			if boxed != "" {
				a = e.Args[0]
			}
			out = append(out, tb.App("fmt_"+sanitize(flags)+string(verb)+"_"+boxed, SBytes, a))
		}
	}
	return tb.Concat(SBytes, out...)
}

func idx(x *Exec, op string, s, sub *Term) *Term {
	tb := x.tb
	switch op {
	case "index":
		t := tb.mk("seq.indexof", SInt, "", nil, s, sub, tb.Int(0))
		t.setRange(rng{big.NewInt(-1), lenMax})
		// found => the match fits
		k := fmt.Sprintf("idx%d", t.ID)
		if !x.ufs[k] {
			x.ufs[k] = true
			x.facts = append(x.facts, tb.Implies(tb.mk("<=", SBool, "", nil, tb.Int(0), t), tb.mk("<=", SBool, "", nil, tb.Add(t, tb.Len(sub)), tb.Len(s))))
		}
		return t
	case "last":
		t := x.ufApp(ufLastIdx, []*Term{s, sub})
		k := fmt.Sprintf("idx%d", t.ID)
		if !x.ufs[k] {
			x.ufs[k] = true
			x.facts = append(x.facts, tb.Implies(tb.mk("<=", SBool, "", nil, tb.Int(0), t),
				tb.And(tb.mk("<=", SBool, "", nil, tb.Add(t, tb.Len(sub)), tb.Len(s)), tb.mkEq(tb.mk("extract", SBytes, "", nil, s, t, tb.Len(sub)), sub))))
			x.facts = append(x.facts, tb.mkEq(tb.mk("<", SBool, "", nil, t, tb.Int(0)), tb.Not(tb.mk("seq.contains", SBool, "", nil, s, sub))))
		}
		return t
	}
	return nil
}

func init() {
	m := map[string]libModel{}
	libModels = m
	both := func(name string, f libModel) {
		m["strings."+name] = f
		m["bytes."+name] = f
	}
	both("Contains", func(x *Exec, l *libCall) {
		l.cont(l.st, x.tb.mk("seq.contains", SBool, "", nil, x.lterm(l, 0), x.lterm(l, 1)))
	})
	both("HasPrefix", func(x *Exec, l *libCall) {
		l.cont(l.st, x.tb.mk("seq.prefixof", SBool, "", nil, x.lterm(l, 1), x.lterm(l, 0)))
	})
	both("HasSuffix", func(x *Exec, l *libCall) {
		l.cont(l.st, x.tb.mk("seq.suffixof", SBool, "", nil, x.lterm(l, 1), x.lterm(l, 0)))
	})
	both("Index", func(x *Exec, l *libCall) { l.cont(l.st, idx(x, "index", x.lterm(l, 0), x.lterm(l, 1))) })
	both("IndexByte", func(x *Exec, l *libCall) {
		l.cont(l.st, idx(x, "index", x.lterm(l, 0), x.tb.Unit(l.args[1].(*Term))))
	})
	both("LastIndex", func(x *Exec, l *libCall) { l.cont(l.st, idx(x, "last", x.lterm(l, 0), x.lterm(l, 1))) })
	both("Equal", func(x *Exec, l *libCall) { l.cont(l.st, x.tb.Eq(x.lterm(l, 0), x.lterm(l, 1))) })
	both("TrimSpace", pureUF(ufTrim))
	both("ToLower", pureUF(ufLower))
	both("ToUpper", pureUF(ufUpper))
	both("ReplaceAll", pureUF(ufRepl))
	both("TrimPrefix", func(x *Exec, l *libCall) {
		tb := x.tb
		s, p := x.lterm(l, 0), x.lterm(l, 1)
		x.split(l.st, tb.mk("seq.prefixof", SBool, "", nil, p, s), func(st *State) {
			l.st = st
			x.assume(st, tb.Le(tb.Len(p), tb.Len(s)))
			l.cont(st, x.seqVal(l, tb.Sub3(s, tb.Len(p), tb.Sub(tb.Len(s), tb.Len(p)))))
		}, func(st *State) { l.st = st; l.cont(st, l.args[0]) })
	})
	both("TrimSuffix", func(x *Exec, l *libCall) {
		tb := x.tb
		s, p := x.lterm(l, 0), x.lterm(l, 1)
		x.split(l.st, tb.mk("seq.suffixof", SBool, "", nil, p, s), func(st *State) {
			l.st = st
			x.assume(st, tb.Le(tb.Len(p), tb.Len(s)))
			l.cont(st, x.seqVal(l, tb.Sub3(s, tb.Int(0), tb.Sub(tb.Len(s), tb.Len(p)))))
		}, func(st *State) { l.st = st; l.cont(st, l.args[0]) })
	})
	m["strings.Fields"] = pureUF(ufFields)
	m["strings.Split"] = pureUF(ufSplit)
	m["strings.Join"] = pureUF(ufJoin)
	m["strings.Repeat"] = func(x *Exec, l *libCall) {
		if !x.require(l.st, "strings.Repeat: non-negative count", l.in.Pos(), x.tb.Le(x.tb.Int(0), l.args[1].(*Term))) {
			return
		}
		pureUF(ufRepeat)(x, l)
	}
	m["strconv.Itoa"] = pureUF(ufItoa)
	m["strconv.Atoi"] = func(x *Exec, l *libCall) {
		s := x.lterm(l, 0)
		ok := x.ufApp(ufAtoiOk, []*Term{s})
		v := x.ufApp(ufAtoiVal, []*Term{s})
		ev := x.tb.App("atoi_errval", SInt, s).setRange(typeRanges["int"])
		x.unsignedIsNonNeg(l.st, s, v)
		x.unsignedIsNonNeg(l.st, s, ev)
		l.cont(l.st, TupleV{[]Value{x.tb.Ite(ok, v, ev), x.errIf(x.tb.Not(ok), "atoi")}})
	}
	m["strconv.FormatInt"] = func(x *Exec, l *libCall) {
		if b, ok := l.args[1].(*Term); ok && b.isInt() && b.Int64() == 10 {
			l.cont(l.st, x.ufApp(ufItoa, []*Term{l.args[0].(*Term)}))
			return
		}
		l.cont(l.st, x.tb.App("formatint", SBytes, l.args[0].(*Term), l.args[1].(*Term)))
	}
	m["strconv.ParseFloat"] = func(x *Exec, l *libCall) {
		s := x.lterm(l, 0)
		l.cont(l.st, TupleV{[]Value{x.tb.App("parsefloat", SReal, s), x.errIf(x.tb.Not(x.tb.App("parsefloat_ok", SBool, s)), "pf")}})
	}
	m["strconv.ParseInt"] = func(x *Exec, l *libCall) {
		tb := x.tb
		s := x.lterm(l, 0)
		base, bits := l.args[1].(*Term), l.args[2].(*Term)
		v := tb.App("parseint", SInt, s, base, bits)
		n := uint(64)
		if bits.isInt() && bits.Int64() > 0 {
			n = uint(bits.Int64())
		}
		v.setRange(srange(n))
		x.unsignedIsNonNeg(l.st, s, v)
		l.cont(l.st, TupleV{[]Value{v, x.errIf(tb.Not(tb.App("parseint_ok", SBool, s, base, bits)), "pi")}})
	}
	m["strconv.ParseUint"] = func(x *Exec, l *libCall) {
		tb := x.tb
		s := x.lterm(l, 0)
		base, bits := l.args[1].(*Term), l.args[2].(*Term)
		v := tb.App("parseuint", SInt, s, base, bits)
		n := uint(64)
		if bits.isInt() && bits.Int64() > 0 {
			n = uint(bits.Int64())
		}
		v.setRange(urange(n))
		l.cont(l.st, TupleV{[]Value{v, x.errIf(tb.Not(tb.App("parseuint_ok", SBool, s, base, bits)), "pu")}})
	}
	m["fmt.Errorf"] = func(x *Exec, l *libCall) { l.cont(l.st, x.newErr("errorf")) }
	m["errors.New"] = func(x *Exec, l *libCall) { l.cont(l.st, x.newErr("new")) }
	m["fmt.Printf"] = func(x *Exec, l *libCall) { l.cont(l.st, x.resultFresh(l.in.Type(), "printf")) }
	m["fmt.Println"] = m["fmt.Printf"]
	m["log.Printf"] = m["fmt.Printf"]
	m["fmt.Sprintf"] = func(x *Exec, l *libCall) { l.cont(l.st, x.sprintf(l.st, x.lterm(l, 0), l.args[1])) }
	m["fmt.Fprintf"] = func(x *Exec, l *libCall) {
		t := x.sprintf(l.st, x.lterm(l, 1), l.args[2])
		if iv, ok := l.args[0].(IfaceV); ok && iv.dyn != nil {
			if p, ok := iv.val.(PtrV); ok && isBufferType(p.elem) {
				c := x.load(l.st, p.obj, p.path).(BufC)
				x.write(l.st, p.obj, p.path, BufC{x.tb.Concat(SBytes, c.t, t)})
				l.cont(l.st, TupleV{[]Value{x.tb.Len(t), nilErr(x)}})
				return
			}
		}
		l.cont(l.st, x.resultFresh(l.in.Type(), "fprintf"))
	}
	for _, b := range []string{"bytes.(*Buffer).", "strings.(*Builder)."} {
		m[b+"WriteByte"] = bufWrite(func(x *Exec, l *libCall) (*Term, Value) {
			return x.tb.Unit(l.args[1].(*Term)), nilErr(x)
		})
		m[b+"WriteString"] = bufWrite(func(x *Exec, l *libCall) (*Term, Value) {
			t := x.lterm(l, 1)
			return t, TupleV{[]Value{x.tb.Len(t), nilErr(x)}}
		})
		m[b+"Write"] = m[b+"WriteString"]
		m[b+"WriteRune"] = bufWrite(func(x *Exec, l *libCall) (*Term, Value) {
			t := x.utf8enc(l.args[1].(*Term))
			return t, TupleV{[]Value{x.tb.Len(t), nilErr(x)}}
		})
		m[b+"String"] = func(x *Exec, l *libCall) {
			c, _, ok := x.bufGet(l)
			if ok {
				l.cont(l.st, c)
			}
		}
		m[b+"Bytes"] = func(x *Exec, l *libCall) {
			c, _, ok := x.bufGet(l)
			if ok {
				l.cont(l.st, x.bytesVal(l.st, c, tyBytes))
			}
		}
		m[b+"Len"] = func(x *Exec, l *libCall) {
			c, _, ok := x.bufGet(l)
			if ok {
				l.cont(l.st, x.tb.Len(c))
			}
		}
		m[b+"Reset"] = func(x *Exec, l *libCall) {
			_, p, ok := x.bufGet(l)
			if ok {
				x.write(l.st, p.obj, p.path, BufC{x.tb.Empty(SBytes)})
				l.cont(l.st, TupleV{})
			}
		}
		m[b+"Grow"] = func(x *Exec, l *libCall) {
			if x.require(l.st, "Grow: non-negative count", l.in.Pos(), x.tb.Le(x.tb.Int(0), l.args[1].(*Term))) {
				l.cont(l.st, TupleV{})
			}
		}
	}
	// encoding/binary
	beGet := func(n int, little bool) libModel {
		return func(x *Exec, l *libCall) {
			tb := x.tb
			s := l.args[1].(SliceV)
			if !x.require(l.st, "index in range", l.in.Pos(), tb.Le(tb.Int(int64(n)), s.len)) {
				return
			}
			c := x.seqContent(s, l.st)
			r := tb.Int(0)
			for i := 0; i < n; i++ {
				k := i
				if little {
					k = n - 1 - i
				}
				r = tb.Add(tb.Mul(r, tb.Int(256)), x.nth(c, tb.Add(s.off, tb.Int(int64(k))), tyByte))
			}
			l.cont(l.st, r)
		}
	}
	bePut := func(n int, little bool) libModel {
		return func(x *Exec, l *libCall) {
			tb := x.tb
			s := l.args[1].(SliceV)
			if !x.require(l.st, "index in range", l.in.Pos(), tb.Le(tb.Int(int64(n)), s.len)) {
				return
			}
			v := l.args[2].(*Term)
			var us []*Term
			for i := 0; i < n; i++ {
				k := n - 1 - i
				if little {
					k = i
				}
				us = append(us, tb.Unit(tb.EMod(tb.EDiv(v, tb.BigInt(pow2(uint(8*k)))), tb.Int(256))))
			}
			c := x.seqContent(s, l.st)
			at := tb.Add(s.off, tb.Int(int64(n)))
			nc := tb.Concat(c.Sort, append(append([]*Term{tb.Sub3(c, tb.Int(0), s.off)}, us...), tb.Sub3(c, at, tb.Sub(tb.Len(c), at)))...)
			x.write(l.st, s.obj, s.path, SeqV{nc, s.elem})
			l.cont(l.st, TupleV{})
		}
	}
	for i, n := range map[string]int{"16": 2, "32": 4, "64": 8} {
		m["encoding/binary.(bigEndian).Uint"+i] = beGet(n, false)
		m["encoding/binary.(littleEndian).Uint"+i] = beGet(n, true)
		m["encoding/binary.(bigEndian).PutUint"+i] = bePut(n, false)
		m["encoding/binary.(littleEndian).PutUint"+i] = bePut(n, true)
	}
	// hashes
	newHash := func(k string) libModel {
		return func(x *Exec, l *libCall) {
			o := x.newObj(k, tyStr)
			o.key = l.fr.key + "!" + l.in.Name()
			x.objByKey[o.key] = append(x.objByKey[o.key], o)
			o.init = BufC{x.tb.Empty(SBytes)}
			l.st.m[o] = o.init
			l.cont(l.st, IfaceV{nilc: x.tb.False(), val: HashV{k, o}, id: x.tb.Fresh("hash", SOpaque)})
		}
	}
	m["crypto/md5.New"] = newHash("md5")
	m["crypto/sha256.New"] = newHash("sha256")
	m["crypto/md5.Sum"] = func(x *Exec, l *libCall) {
		l.cont(l.st, SeqV{x.ufApp(ufMD5, []*Term{x.lterm(l, 0)}), tyByte})
	}
	m["crypto/sha256.Sum256"] = func(x *Exec, l *libCall) {
		l.cont(l.st, SeqV{x.ufApp(ufSHA256, []*Term{x.lterm(l, 0)}), tyByte})
	}
	m["crypto/aes.NewCipher"] = func(x *Exec, l *libCall) {
		tb := x.tb
		k := x.lterm(l, 0)
		n := tb.Len(k)
		good := tb.Or(tb.Eq(n, tb.Int(16)), tb.Eq(n, tb.Int(24)), tb.Eq(n, tb.Int(32)))
		x.split(l.st, good, func(st *State) {
			l.cont(st, TupleV{[]Value{IfaceV{nilc: tb.False(), val: CipherV{"aes", k}, id: tb.Fresh("aes", SOpaque)}, nilErr(x)}})
		}, func(st *State) {
			l.cont(st, TupleV{[]Value{IfaceV{nilc: tb.True(), id: tb.App("opq0", SOpaque)}, x.newErr("aes")}})
		})
	}
	m["crypto/rc4.NewCipher"] = func(x *Exec, l *libCall) {
		tb := x.tb
		k := x.lterm(l, 0)
		n := tb.Len(k)
		good := tb.And(tb.Le(tb.Int(1), n), tb.Le(n, tb.Int(256)))
		x.split(l.st, good, func(st *State) {
			o := x.newObj("rc4", tyStr)
			o.init = CipherV{"rc4", k}
			l.cont(st, TupleV{[]Value{PtrV{nilc: tb.False(), obj: o, elem: tyStr}, nilErr(x)}})
		}, func(st *State) {
			l.cont(st, TupleV{[]Value{PtrV{nilc: tb.True(), elem: tyStr}, x.newErr("rc4")}})
		})
	}
	setDst := func(x *Exec, l *libCall, dst SliceV, t *Term) {
		tb := x.tb
		c := x.seqContent(dst, l.st)
		at := tb.Add(dst.off, tb.Len(t))
		nc := tb.Concat(c.Sort, tb.Sub3(c, tb.Int(0), dst.off), t, tb.Sub3(c, at, tb.Sub(tb.Len(c), at)))
		x.write(l.st, dst.obj, dst.path, SeqV{nc, dst.elem})
	}
	m["crypto/rc4.(*Cipher).XORKeyStream"] = func(x *Exec, l *libCall) {
		tb := x.tb
		p := l.args[0].(PtrV)
		if !x.require(l.st, "nil pointer dereference", l.in.Pos(), tb.Not(p.nilc)) {
			return
		}
		c, ok := x.content(l.st, p.obj).(CipherV)
		src := l.args[2].(SliceV)
		dst := l.args[1].(SliceV)
		if !x.require(l.st, "XORKeyStream: dst long enough", l.in.Pos(), tb.Le(src.len, dst.len)) {
			return
		}
		var t *Term
		if ok {
			t = x.ufApp(ufRC4, []*Term{c.key, x.view(src, l.st)})
			x.write(l.st, p.obj, nil, OpaqueV{tb.Fresh("rc4used", SOpaque)}) // the stream position advances
		} else {
			t = tb.Fresh("rc4out", SBytes)
			x.facts = append(x.facts, tb.mkEq(tb.Len(t), src.len))
		}
		setDst(x, l, dst, t)
		l.cont(l.st, TupleV{})
	}
	cbc := func(enc bool) libModel {
		return func(x *Exec, l *libCall) {
			tb := x.tb
			iv := x.lterm(l, 1)
			if !x.require(l.st, "CBC IV length equals block size", l.in.Pos(), tb.Eq(tb.Len(iv), tb.Int(16))) {
				return
			}
			b, ok := l.args[0].(IfaceV).val.(CipherV)
			if !ok {
				unsup("cbc over unknown cipher")
			}
			l.cont(l.st, IfaceV{nilc: tb.False(), val: CBCV{b.key, iv, enc}, id: tb.Fresh("cbc", SOpaque)})
		}
	}
	m["crypto/cipher.NewCBCDecrypter"] = cbc(false)
	m["crypto/cipher.NewCBCEncrypter"] = cbc(true)
	m["crypto/rand.Read"] = func(x *Exec, l *libCall) {
		s := l.args[0].(SliceV)
		x.havocSlice(l.st, s)
		// crypto/rand.Read never returns an error in Go >= 1.24, but callers check it: both outcomes explored
		l.cont(l.st, TupleV{[]Value{s.len, x.errIf(x.tb.Fresh("randerr", SBool), "rand")}})
	}
	m["errors.Is"] = func(x *Exec, l *libCall) {
		l.cont(l.st, x.tb.App("errors_Is", SBool, x.toTerm(l.args[0], l.f.Params[0].Type(), l.st), x.toTerm(l.args[1], l.f.Params[1].Type(), l.st)))
	}
	m["unicode.IsPrint"] = pureUF(ufIsPrint)
	m["sort.Ints"] = func(x *Exec, l *libCall) {
		tb := x.tb
		s := l.args[0].(SliceV)
		old := x.view(s, l.st)
		x.havocSlice(l.st, s)
		if x.restart {
			return
		}
		n := x.view(s, l.st)
		i, j := tb.BVar("i", SInt), tb.BVar("j", SInt)
		in := func(k *Term) *Term { return tb.And(tb.Le(tb.Int(0), k), tb.Lt(k, s.len)) }
		x.assume(l.st, tb.Forall([]*Term{i, j}, tb.Implies(tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, j), tb.Lt(j, s.len)), tb.Le(tb.nthOp(n, i, "nthi", "int"), tb.nthOp(n, j, "nthi", "int")))))
		// every element of the result is an element of the input and vice versa
		p := tb.Fresh("perm", ArrOf(SInt, SInt))
		q := tb.Fresh("perminv", ArrOf(SInt, SInt))
		x.assume(l.st, tb.Forall([]*Term{i}, tb.Implies(in(i), tb.And(in(tb.Select(p, i, SInt)), tb.Eq(tb.nthOp(n, i, "nthi", "int"), tb.nthOp(old, tb.Select(p, i, SInt), "nthi", "int"))))))
		x.assume(l.st, tb.Forall([]*Term{i}, tb.Implies(in(i), tb.And(in(tb.Select(q, i, SInt)), tb.Eq(tb.nthOp(old, i, "nthi", "int"), tb.nthOp(n, tb.Select(q, i, SInt), "nthi", "int"))))))
		// a sorted slice is left as it is
		x.assume(l.st, tb.Implies(tb.Forall([]*Term{i, j}, tb.Implies(tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, j), tb.Lt(j, s.len)), tb.Le(tb.nthOp(old, i, "nthi", "int"), tb.nthOp(old, j, "nthi", "int")))), tb.Eq(n, old)))
		l.cont(l.st, TupleV{})
	}
	m["sort.Slice"] = func(x *Exec, l *libCall) {
		if iv, ok := l.args[0].(IfaceV); ok {
			if s, ok := iv.val.(SliceV); ok {
				x.havocSlice(l.st, s)
			}
		}
		l.cont(l.st, TupleV{})
	}
	m["bytes.NewReader"] = func(x *Exec, l *libCall) {
		o := x.newObj("reader", tyStr)
		o.init = ReaderV{x.lterm(l, 0), x.tb.True()}
		l.cont(l.st, PtrV{nilc: x.tb.False(), obj: o, elem: tyStr})
	}
	m["strings.NewReader"] = m["bytes.NewReader"]
	m["bytes.NewBuffer"] = func(x *Exec, l *libCall) {
		o := x.newObj("buf", under(l.f.Signature.Results().At(0).Type()).(*types.Pointer).Elem())
		o.key = l.fr.key + "!" + l.in.Name()
		x.objByKey[o.key] = append(x.objByKey[o.key], o)
		o.init = BufC{x.lterm(l, 0)}
		l.st.m[o] = o.init
		l.cont(l.st, PtrV{nilc: x.tb.False(), obj: o, elem: o.typ})
	}
	m["compress/zlib.NewReader"] = func(x *Exec, l *libCall) {
		tb := x.tb
		var src *Term
		if iv, ok := l.args[0].(IfaceV); ok {
			if p, ok := iv.val.(PtrV); ok && p.obj != nil {
				if r, ok := x.content(l.st, p.obj).(ReaderV); ok {
					src = r.t
				}
			}
		}
		if src == nil {
			src = tb.Fresh("zsrc", SBytes)
		}
		ok := tb.App("zlib_header_ok", SBool, src)
		x.facts = append(x.facts, tb.Implies(x.ufApp(ufInflateOk, []*Term{src}), ok))
		x.split(l.st, ok, func(st *State) {
			l.cont(st, TupleV{[]Value{IfaceV{nilc: tb.False(), val: ReaderV{x.ufApp(ufInflate, []*Term{src}), x.ufApp(ufInflateOk, []*Term{src})}, id: tb.Fresh("zr", SOpaque)}, nilErr(x)}})
		}, func(st *State) {
			l.cont(st, TupleV{[]Value{IfaceV{nilc: tb.True(), id: tb.App("opq0", SOpaque)}, x.newErr("zlib")}})
		})
	}
	m["io.ReadAll"] = func(x *Exec, l *libCall) {
		tb := x.tb
		if iv, ok := l.args[0].(IfaceV); ok {
			if r, ok := iv.val.(ReaderV); ok {
				x.split(l.st, r.ok, func(st *State) {
					l.cont(st, TupleV{[]Value{x.bytesVal(st, r.t, tyBytes), nilErr(x)}})
				}, func(st *State) {
					l.cont(st, TupleV{[]Value{x.bytesVal(st, tb.Fresh("partial", SBytes), tyBytes), x.newErr("readall")}})
				})
				return
			}
		}
		e := x.errIf(tb.Fresh("readerr", SBool), "readall")
		l.cont(l.st, TupleV{[]Value{x.bytesVal(l.st, tb.Fresh("readall", SBytes), tyBytes), e}})
	}
	m["compress/zlib.NewWriter"] = func(x *Exec, l *libCall) {
		tb := x.tb
		o := x.newObj("zw", tyStr)
		o.key = l.fr.key + "!" + l.in.Name()
		x.objByKey[o.key] = append(x.objByKey[o.key], o)
		var dst PtrV
		if iv, ok := l.args[0].(IfaceV); ok {
			if p, ok := iv.val.(PtrV); ok {
				dst = p
			}
		}
		o.init = ZWriter{tb.Empty(SBytes), dst}
		l.st.m[o] = o.init
		l.cont(l.st, PtrV{nilc: tb.False(), obj: o, elem: tyStr})
	}
	m["compress/zlib.(*Writer).Write"] = func(x *Exec, l *libCall) {
		p := l.args[0].(PtrV)
		z, ok := x.content(l.st, p.obj).(ZWriter)
		if !ok {
			unsup("zlib writer state")
		}
		t := x.lterm(l, 1)
		x.write(l.st, p.obj, nil, ZWriter{x.tb.Concat(SBytes, z.t, t), z.dst})
		l.cont(l.st, TupleV{[]Value{x.tb.Len(t), nilErr(x)}})
	}
	m["compress/zlib.(*Writer).Close"] = func(x *Exec, l *libCall) {
		p := l.args[0].(PtrV)
		z, ok := x.content(l.st, p.obj).(ZWriter)
		if !ok {
			unsup("zlib writer state")
		}
		if z.dst.obj != nil {
			c := x.load(l.st, z.dst.obj, z.dst.path).(BufC)
			x.write(l.st, z.dst.obj, z.dst.path, BufC{x.tb.Concat(SBytes, c.t, x.ufApp(ufDeflate, []*Term{z.t}))})
		}
		l.cont(l.st, nilErr(x))
	}
	x509 := func(x *Exec, l *libCall) { l.cont(l.st, x.resultFresh(l.in.Type(), "abs")) }
	for _, k := range []string{"time.Now", "time.Since", "math.Abs", "math.Cos", "math.Sin", "math.Sqrt", "regexp.MustCompile", "regexp.QuoteMeta"} {
		m[k] = x509
	}
	m["math.Abs"] = func(x *Exec, l *libCall) { l.cont(l.st, x.tb.App("flt_abs", SReal, l.args[0].(*Term))) }
	m["regexp.MustCompile"] = func(x *Exec, l *libCall) {
		o := x.newObj("regexp", tyStr)
		o.init = OpaqueV{x.tb.App("regexp", SOpaque, x.lterm(l, 0))}
		l.cont(l.st, PtrV{nilc: x.tb.False(), obj: o, elem: tyStr})
	}
}

type ZWriter struct {
	t   *Term
	dst PtrV
}

// interface method calls on library objects
func (x *Exec) invokeModel(fr *Frame, in *ssa.Call, iv IfaceV, m *types.Func, args []Value, st *State, cont func(*State, Value)) {
	tb := x.tb
	switch p := iv.val.(type) {
	case HashV:
		switch m.Name() {
		case "Write":
			t := x.view(args[0].(SliceV), st)
			c := x.content(st, p.obj).(BufC)
			x.write(st, p.obj, nil, BufC{tb.Concat(SBytes, c.t, t)})
			cont(st, TupleV{[]Value{tb.Len(t), nilErr(x)}})
			return
		case "Sum":
			c := x.content(st, p.obj).(BufC)
			u := ufMD5
			if p.kind == "sha256" {
				u = ufSHA256
			}
			pre := tb.Empty(SBytes)
			if s, ok := args[0].(SliceV); ok {
				pre = x.view(s, st)
			}
			v := x.bytesVal(st, tb.Concat(SBytes, pre, x.ufApp(u, []*Term{c.t})), tyBytes).(SliceV)
			v.nilc = tb.False()
			cont(st, v)
			return
		case "Reset":
			x.write(st, p.obj, nil, BufC{tb.Empty(SBytes)})
			cont(st, TupleV{})
			return
		}
	case CipherV:
		switch m.Name() {
		case "BlockSize":
			cont(st, tb.Int(16))
			return
		case "Encrypt", "Decrypt":
			dst, src := args[0].(SliceV), args[1].(SliceV)
			if !x.require(st, "cipher block: 16 bytes available", in.Pos(), tb.And(tb.Le(tb.Int(16), src.len), tb.Le(tb.Int(16), dst.len))) {
				return
			}
			u := ufAESEnc
			if m.Name() == "Decrypt" {
				u = ufAESDec
			}
			blk := tb.Sub3(x.seqContent(src, st), src.off, tb.Int(16))
			t := x.ufApp(u, []*Term{p.key, blk})
			c := x.seqContent(dst, st)
			at := tb.Add(dst.off, tb.Int(16))
			nc := tb.Concat(c.Sort, tb.Sub3(c, tb.Int(0), dst.off), t, tb.Sub3(c, at, tb.Sub(tb.Len(c), at)))
			x.facts = append(x.facts, tb.mkEq(tb.Len(t), tb.Int(16)))
			x.write(st, dst.obj, dst.path, SeqV{nc, dst.elem})
			cont(st, TupleV{})
			return
		}
	case CBCV:
		if m.Name() == "CryptBlocks" {
			dst, src := args[0].(SliceV), args[1].(SliceV)
			if !x.require(st, "CryptBlocks: input is whole blocks and output is large enough", in.Pos(), tb.And(tb.Eq(tb.EMod(src.len, tb.Int(16)), tb.Int(0)), tb.Le(src.len, dst.len))) {
				return
			}
			u := ufCBCEnc
			if !p.enc {
				u = ufCBCDec
			}
			t := x.ufApp(u, []*Term{p.key, p.iv, x.view(src, st)})
			c := x.seqContent(dst, st)
			at := tb.Add(dst.off, src.len)
			nc := tb.Concat(c.Sort, tb.Sub3(c, tb.Int(0), dst.off), t, tb.Sub3(c, at, tb.Sub(tb.Len(c), at)))
			x.write(st, dst.obj, dst.path, SeqV{nc, dst.elem})
			cont(st, TupleV{})
			return
		}
	}
	if m.Name() == "Error" && len(args) == 0 {
		cont(st, tb.App("error_string", SBytes, x.toTerm(iv, types.Universe.Lookup("error").Type(), st)))
		return
	}
	x.assumed["abstracted interface call "+m.FullName()+" (arbitrary result)"] = true
	for _, a := range args {
		x.havocArg(st, a)
	}
	cont(st, x.resultFresh(in.Type(), m.Name()))
}

// unsignedIsNonNeg: only a text that starts with a minus sign is read as a negative number.
func (x *Exec) unsignedIsNonNeg(st *State, s, v *Term) {
	if x.con == nil || x.con.Attrs["digits"] == "" {
		return
	}
	tb := x.tb
	x.assume(st, tb.Or(tb.Le(tb.Int(0), v), tb.And(tb.Le(tb.Int(1), tb.Len(s)), tb.Eq(x.seqNth(s, tb.Int(0)), tb.Int(45)))))
}
