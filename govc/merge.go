package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Joining of paths ("attr merge on"): the states that reach the join of a branch are folded into one, with
// conditional values selected by the branch condition (or by a fresh boolean), instead of being followed separately.

type joinPt struct {
	fr   *Frame
	b    *ssa.BasicBlock
	base int // objects that existed at the branch
	npc  int // length of the path condition at the branch
	open bool
	got  []arrival
}
type arrival struct {
	st   *State
	vals []Value
	prev *ssa.BasicBlock
}

func joinable(fr *Frame, b *ssa.BasicBlock) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, j := range fr.fn.Blocks {
		if j.Idom() != b || len(j.Preds) < 2 {
			continue
		}
		ok := true
		for h, l := range fr.loops {
			if h == j {
				continue
			}
			if l.body[b] != l.body[j] {
				ok = false
			}
		}
		if l := fr.loops[j]; l != nil {
			n := 0
			for _, p := range j.Preds {
				if !l.body[p] {
					n++
				}
			}
			ok = ok && n >= 2
		}
		if ok {
			out = append(out, j)
		}
	}
	// earlier joins first: a join that can reach another one comes before it
	pos := rpo(fr.fn)
	sort.Slice(out, func(i, k int) bool { return pos[out[i]] < pos[out[k]] })
	return out
}

func rpo(f *ssa.Function) map[*ssa.BasicBlock]int {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				rec(s)
			}
		}
		post = append(post, b)
	}
	rec(f.Blocks[0])
	m := map[*ssa.BasicBlock]int{}
	for i, b := range post {
		m[b] = len(post) - i
	}
	return m
}

// atJoin records a state that reaches an open join.
func (x *Exec) atJoin(fr *Frame, b, prev *ssa.BasicBlock, vals []Value, st *State) bool {
	for i := len(st.joins) - 1; i >= 0; i-- {
		j := st.joins[i]
		if j.fr == fr && j.b == b && j.open {
			st.joins = st.joins[:i:i]
			j.got = append(j.got, arrival{st, vals, prev})
			return true
		}
	}
	return false
}

// withJoins runs body with the joins of block b open, then continues from each of them.
func (x *Exec) withJoins(fr *Frame, b *ssa.BasicBlock, st *State, ret retCont, body func()) {
	if !x.merge {
		body()
		return
	}
	js := joinable(fr, b)
	if len(js) == 0 {
		body()
		return
	}
	outer := st.joins
	var pts []*joinPt
	for k := len(js) - 1; k >= 0; k-- { // the earliest join ends up on top
		p := &joinPt{fr: fr, b: js[k], base: x.nobj, npc: len(st.pc), open: true}
		pts = append(pts, p)
	}
	st.joins = append(outer[:len(outer):len(outer)], pts...)
	body()
	for k := len(pts) - 1; k >= 0; k-- {
		if x.restart {
			return
		}
		p := pts[k]
		p.open = false
		for _, a := range x.mergeAll(p, fr) {
			if x.restart {
				return
			}
			a.st.joins = append(outer[:len(outer):len(outer)], pts[:k]...)
			x.enter(fr, p.b, a.prev, a.vals, a.st, ret)
		}
	}
}

func (x *Exec) mergeAll(p *joinPt, fr *Frame) []arrival {
	var out []arrival
	for _, a := range p.got {
		done := false
		for i := range out {
			if m, ok := x.mergeStates(p, fr, out[i], a); ok {
				out[i] = m
				done = true
				break
			}
		}
		if !done {
			out = append(out, a)
		}
	}
	return out
}

func (x *Exec) mergeStates(p *joinPt, fr *Frame, a, b arrival) (arrival, bool) {
	tb := x.tb
	s, t := a.st, b.st
	no := arrival{}
	why := ""
	defer func() {
		if why != "" && os.Getenv("GOVC_MERGE") != "" {
			fmt.Fprintf(os.Stderr, "no merge at %s b%d: %s\n", fr.fn.Name(), p.b.Index, why)
		}
	}()
	if len(s.loops) != len(t.loops) || len(s.defers) != len(t.defers) {
		why = fmt.Sprintf("shape %d/%d loops, %d/%d defers", len(s.loops), len(t.loops), len(s.defers), len(t.defers))
		return no, false
	}
	for i := range s.loops {
		if s.loops[i] != t.loops[i] {
			why = "loop"
			return no, false
		}
	}
	if l := fr.loops[p.b]; l != nil && (a.prev != nil && l.body[a.prev]) != (b.prev != nil && l.body[b.prev]) {
		why = "back edge"
		return no, false
	}
	// common prefix of the path conditions
	n := 0
	for n < len(s.pc) && n < len(t.pc) && s.pc[n] == t.pc[n] {
		n++
	}
	d1, d2 := s.pc[n:], t.pc[n:]
	var sel *Term
	for _, c := range d1 {
		if c.Op == "forall" {
			continue
		}
		for _, d := range d2 {
			if tb.Not(c) == d {
				sel = c
				break
			}
		}
		if sel != nil {
			break
		}
	}
	nsel := (*Term)(nil)
	if sel == nil {
		sel = tb.Fresh("path", SBool)
	}
	nsel = tb.Not(sel)
	m := s.clone()
	mergeVersions(s, t, m)
	saved := x.mctx
	x.mctx = [3]*State{s, t, m}
	defer func() { x.mctx = saved }()
	m.path = pathHash(s.path, "", p.b.Index, int(t.path>>1))
	m.pc = append([]*Term{}, s.pc[:n]...)
	add := func(c *Term, ds []*Term) {
		for _, d := range ds {
			if d != c {
				if g := tb.Implies(c, d); !g.IsTrue() {
					m.pc = append(m.pc, g)
				}
			}
		}
	}
	add(sel, d1)
	add(nsel, d2)
	// registers
	m.env = make(map[envKey]Value, len(s.env))
	for k, v := range s.env {
		w, ok := t.env[k]
		if !ok {
			continue
		}
		if sameValue(v, w) {
			m.env[k] = v
			continue
		}
		if in, ok := k.v.(ssa.Instruction); ok && k.fr == fr && !(in.Block().Dominates(p.b)) {
			continue
		}
		if k.fr != fr && !ancestor(k.fr, fr) {
			continue
		}
		r, ok := x.mergeValue(sel, v, w)
		if !ok {
			why = fmt.Sprintf("register %s %T %v / %v", k.v.Name(), k.v, v, w)
			return no, false
		}
		m.env[k] = r
	}
	out := arrival{st: m, prev: a.prev}
	for i := range a.vals {
		r, ok := x.mergeValue(sel, a.vals[i], b.vals[i])
		if !ok {
			why = fmt.Sprintf("phi %T %T", a.vals[i], b.vals[i])
			return no, false
		}
		out.vals = append(out.vals, r)
	}
	// memory
	objs := map[*Obj]bool{}
	for o := range s.m {
		objs[o] = true
	}
	for o := range t.m {
		objs[o] = true
	}
	var list []*Obj
	for o := range objs {
		list = append(list, o)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	for _, o := range list {
		v, ok1 := s.m[o]
		w, ok2 := t.m[o]
		if ok1 && ok2 && sameValue(v, w) {
			continue
		}
		if o.birth > p.base && !(ok1 && ok2) {
			if ok2 {
				m.m[o] = w
			}
			continue
		}
		if !ok1 {
			v = x.content(s, o)
		}
		if !ok2 {
			w = x.content(t, o)
		}
		r, ok := x.mergeValue(sel, v, w)
		if !ok {
			why = fmt.Sprintf("object %s %T %T", o.name, v, w)
			return no, false
		}
		m.m[o] = r
	}
	for o := range t.reif {
		if !m.reif[o] {
			nr := map[*Obj]bool{o: true}
			for q := range m.reif {
				nr[q] = true
			}
			m.reif = nr
		}
	}
	for k, c := range t.unroll {
		if m.unroll[k] < c {
			nu := map[string]int{k: c}
			for q, d := range m.unroll {
				if q != k {
					nu[q] = d
				}
			}
			m.unroll = nu
		}
	}
	return out, true
}

func ancestor(a, fr *Frame) bool {
	for f := fr; f != nil; f = f.parent {
		if f == a {
			return true
		}
	}
	return false
}

// mergeVersions: a container written on either side gets a new version; an element view is current in the result only
// if it is current on both sides.
func mergeVersions(s, t, m *State) {
	if !sameVer(s.ver, t.ver) {
		n := map[*Obj]int{}
		for k, v := range s.ver {
			n[k] = v
		}
		for k, v := range t.ver {
			if n[k] != v {
				n[k] = max(n[k], v) + 1
			}
		}
		for k, v := range s.ver {
			if t.ver[k] != v {
				n[k] = max(t.ver[k], v) + 1
			}
		}
		m.ver = n
	}
	if sameVer(s.ver, t.ver) && sameVer(s.snap, t.snap) {
		return
	}
	sn := map[*Obj]int{}
	for _, src := range []map[*Obj]int{s.snap, t.snap} {
		for o := range src {
			if o.origin == nil {
				continue
			}
			c := o.origin.obj
			if s.snapVer(o) == s.ver[c] && t.snapVer(o) == t.ver[c] {
				sn[o] = m.ver[c]
			} else {
				sn[o] = -1
			}
		}
	}
	m.snap = sn
}

func sameVer(a, b map[*Obj]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func samePath(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameValue(a, b Value) bool {
	switch v := a.(type) {
	case nil:
		return b == nil
	case *Term:
		w, ok := b.(*Term)
		return ok && v == w
	case SeqV:
		w, ok := b.(SeqV)
		return ok && v.t == w.t
	case BufC:
		w, ok := b.(BufC)
		return ok && v.t == w.t
	case OpaqueV:
		w, ok := b.(OpaqueV)
		return ok && v.t == w.t
	case SliceV:
		w, ok := b.(SliceV)
		return ok && v.nilc == w.nilc && v.obj == w.obj && v.off == w.off && v.len == w.len && samePath(v.path, w.path)
	case PtrV:
		w, ok := b.(PtrV)
		return ok && v.nilc == w.nilc && v.obj == w.obj && samePath(v.path, w.path)
	case MapV:
		w, ok := b.(MapV)
		return ok && v.nilc == w.nilc && v.obj == w.obj
	case MapC:
		w, ok := b.(MapC)
		return ok && v.dom == w.dom && v.val == w.val
	case IfaceV:
		w, ok := b.(IfaceV)
		return ok && v.nilc == w.nilc && v.id == w.id && (v.dyn == w.dyn || v.dyn != nil && w.dyn != nil && types.Identical(v.dyn, w.dyn)) && sameValue(v.val, w.val)
	case FuncV:
		w, ok := b.(FuncV)
		if !ok || v.fn != w.fn || v.nilc != w.nilc || len(v.bindings) != len(w.bindings) {
			return false
		}
		for i := range v.bindings {
			if !sameValue(v.bindings[i], w.bindings[i]) {
				return false
			}
		}
		return true
	case StructV:
		w, ok := b.(StructV)
		if !ok || len(v.fields) != len(w.fields) {
			return false
		}
		for i := range v.fields {
			if !sameValue(v.fields[i], w.fields[i]) {
				return false
			}
		}
		return true
	case TupleV:
		w, ok := b.(TupleV)
		if !ok || len(v.vs) != len(w.vs) {
			return false
		}
		for i := range v.vs {
			if !sameValue(v.vs[i], w.vs[i]) {
				return false
			}
		}
		return true
	case RangeIter:
		w, ok := b.(RangeIter)
		return ok && v.kind == w.kind && v.str == w.str && v.obj == w.obj && sameValue(v.m, w.m)
	case HashV, CipherV, CBCV:
		return a == b
	}
	return false
}

// mergeValue: c ? a : b.
func (x *Exec) mergeValue(c *Term, a, b Value) (Value, bool) {
	tb := x.tb
	if sameValue(a, b) {
		return a, true
	}
	if x.mergeSame {
		return nil, false
	}
	ite := func(p, q *Term) *Term {
		if p == q {
			return p
		}
		return tb.Ite(c, p, q)
	}
	switch v := a.(type) {
	case *Term:
		w, ok := b.(*Term)
		if !ok || v.Sort != w.Sort {
			return nil, false
		}
		return ite(v, w), true
	case SeqV:
		w, ok := b.(SeqV)
		if !ok || v.t.Sort != w.t.Sort {
			return nil, false
		}
		return SeqV{ite(v.t, w.t), v.elem}, true
	case BufC:
		w, ok := b.(BufC)
		if !ok {
			return nil, false
		}
		return BufC{ite(v.t, w.t)}, true
	case OpaqueV:
		w, ok := b.(OpaqueV)
		if !ok || v.t.Sort != w.t.Sort {
			return nil, false
		}
		return OpaqueV{ite(v.t, w.t)}, true
	case SliceV:
		w, ok := b.(SliceV)
		if !ok {
			return nil, false
		}
		if v.nilc.IsTrue() && v.len.isInt() && v.len.Int64() == 0 {
			return SliceV{nilc: ite(v.nilc, w.nilc), obj: w.obj, off: w.off, len: ite(v.len, w.len), elem: w.elem, path: w.path}, true
		}
		if w.nilc.IsTrue() && w.len.isInt() && w.len.Int64() == 0 {
			return SliceV{nilc: ite(v.nilc, w.nilc), obj: v.obj, off: v.off, len: ite(v.len, w.len), elem: v.elem, path: v.path}, true
		}
		if v.obj != w.obj || !samePath(v.path, w.path) {
			return x.mergeStorage(c, v, w)
		}
		return SliceV{nilc: ite(v.nilc, w.nilc), obj: v.obj, off: ite(v.off, w.off), len: ite(v.len, w.len), elem: v.elem, path: v.path}, true
	case PtrV:
		w, ok := b.(PtrV)
		if !ok {
			return nil, false
		}
		if v.nilc.IsTrue() {
			w.nilc = ite(v.nilc, w.nilc)
			return w, true
		}
		if w.nilc.IsTrue() {
			v.nilc = ite(v.nilc, w.nilc)
			return v, true
		}
		if v.obj != w.obj || !samePath(v.path, w.path) {
			return nil, false
		}
		v.nilc = ite(v.nilc, w.nilc)
		return v, true
	case MapV:
		w, ok := b.(MapV)
		if !ok || v.obj != w.obj {
			return nil, false
		}
		v.nilc = ite(v.nilc, w.nilc)
		return v, true
	case MapC:
		w, ok := b.(MapC)
		if !ok || v.dom.Sort != w.dom.Sort || v.val.Sort != w.val.Sort {
			return nil, false
		}
		return MapC{ite(v.dom, w.dom), ite(v.val, w.val), v.typ}, true
	case IfaceV:
		w, ok := b.(IfaceV)
		if !ok {
			return nil, false
		}
		if v.nilc.IsTrue() {
			w.nilc = ite(v.nilc, w.nilc)
			return w, true
		}
		if w.nilc.IsTrue() {
			v.nilc = ite(v.nilc, w.nilc)
			return v, true
		}
		if v.dyn == nil && w.dyn == nil && v.val == nil && w.val == nil {
			return IfaceV{nilc: ite(v.nilc, w.nilc), id: ite(v.id, w.id)}, true
		}
		if v.dyn != nil && w.dyn != nil && types.Identical(v.dyn, w.dyn) && v.val != nil && w.val != nil {
			if m, ok := x.mergeValue(c, v.val, w.val); ok {
				return IfaceV{nilc: ite(v.nilc, w.nilc), dyn: v.dyn, val: m, id: ite(v.id, w.id)}, true
			}
		}
		return nil, false
	case StructV:
		w, ok := b.(StructV)
		if !ok || len(v.fields) != len(w.fields) {
			return nil, false
		}
		n := StructV{typ: v.typ}
		for i := range v.fields {
			f, ok := x.mergeValue(c, v.fields[i], w.fields[i])
			if !ok {
				return nil, false
			}
			n.fields = append(n.fields, f)
		}
		return n, true
	case TupleV:
		w, ok := b.(TupleV)
		if !ok || len(v.vs) != len(w.vs) {
			return nil, false
		}
		n := TupleV{}
		for i := range v.vs {
			f, ok := x.mergeValue(c, v.vs[i], w.vs[i])
			if !ok {
				return nil, false
			}
			n.vs = append(n.vs, f)
		}
		return n, true
	}
	return nil, false
}

// mergeStorage: two slices over different storage become one over fresh, read-only storage with the selected content;
// from here on neither the merged slice nor the originals can be written through.
func (x *Exec) mergeStorage(c *Term, v, w SliceV) (Value, bool) {
	s, t, m := x.mctx[0], x.mctx[1], x.mctx[2]
	if m == nil || v.obj == nil || w.obj == nil || v.elem == nil || w.elem == nil || !types.Identical(v.elem, w.elem) {
		return nil, false
	}
	if v.obj.loopv || w.obj.loopv {
		return nil, false
	}
	switch under(v.elem).(type) {
	case *types.Basic:
	default:
		return nil, false
	}
	tv, tw := x.view(v, s), x.view(w, t)
	if tv.Sort != tw.Sort {
		return nil, false
	}
	tb := x.tb
	r := tb.Ite(c, tv, tw)
	o := x.newObj("merged", v.obj.typ)
	o.slice = true
	o.det = true
	o.init = SeqV{r, v.elem}
	m.m[o] = o.init
	x.markReified(m, v)
	x.markReified(m, w)
	return SliceV{nilc: tb.Ite(c, v.nilc, w.nilc), obj: o, off: tb.Int(0), len: tb.Ite(c, v.len, w.len), elem: v.elem}, true
}
