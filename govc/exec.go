package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one verification condition: pc (a list of facts) entails goal.
type Obl struct {
	Kind  string // ensures, safety, inv-init, inv-step, pre, frame, term
	Name  string // stable obligation name (function/kind/clause)
	Pos   string
	PC    []*Term
	Goal  *Term
	Cand  *Cand
	Trace []string
	// results
	Status string // valid, invalid, unknown
	Solver string
	Model  map[string]string
	Secs   float64
}

// Cand is a candidate loop invariant (a template instance at a loop).
type Cand struct {
	loop *LoopInfo
	key  string
	e    *SExpr
	bind map[string]locator
	src  string
	dead bool
	user bool
}

func (c *Cand) off(x *Exec) bool { return c.dead || c.user && x.stage == 0 }

type LoopInfo struct {
	key    string
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	cands  []*Cand
	known  map[string]bool // candidate keys ever created
	mods   map[string][]Step
	modset map[string]bool
	meas   map[string]bool // surviving termination measures
	measIn bool
	reif   map[string]bool // older objects copied into containers by the loop
}

type Frame struct {
	fn     *ssa.Function
	parent *Frame
	key    string
	depth  int
	loops  map[*ssa.BasicBlock]*natLoop
	callee *ssa.Function
}

type natLoop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopAct struct {
	li     *LoopInfo
	fr     *Frame
	maxObj int
	meas   []measInst
}
type measInst struct {
	key string
	loc locExpr
	v0  *Term
}

type Exec struct {
	prog         *Program
	tb           *TB
	specs        *Specs
	con          *Contract
	fn           *ssa.Function
	facts        []*Term
	nobj         int
	inParam      bool
	obls         []*Obl
	inc          *IncSolver
	loops        map[string]*LoopInfo // persistent across reruns
	lorder       []string
	restart      bool
	usedSpec     map[string]bool
	assumed      map[string]bool // assumptions relied on (library models, abstractions)
	inlined      map[string]bool
	called       map[string]bool // contracts used
	sortCache    map[string]string
	globals      map[*ssa.Global]*Obj
	typeIDs      map[string]int64
	entry        *State
	params       []SV
	retPaths     int
	npaths       int
	maxPaths     int
	tmplMode     int // 0: hinted names only, 1: every type-compatible instance
	stage        int
	specAppC     map[*Term]bool
	needCtxC     map[*Term]bool
	safety       bool
	term         bool
	objByKey     map[string][]*Obj
	active       []*loopAct
	wantRT       bool
	pathErr      map[string]int
	incPush      []*Term
	ufs          map[string]bool
	fuel         int
	lemma        *Lemma
	noLemma      map[string]bool
	usedLemma    map[string]bool
	lemmaOn      bool
	factSyms     map[*Term][]string
	symCache     map[*Term][]string
	quantAxioms  []*Term
	curKey       string            // key prefix for objects created now
	lazyOf       *Obj              // object whose content is being materialised
	lazyParent   map[string]string // key of a lazily created object -> key of its parent (kept across re-executions)
	globalKey    map[string]*ssa.Global
	nrestart     int
	mctx         [3]*State // the two states being folded and the result
	mergeSame    bool
	deadline     time.Time
	merge        bool            // fold paths at joins
	feasSeen     map[uint64]bool // branches found feasible in an earlier round
	mapsUnstable bool            // a map held inside a value is written somewhere in this function
}

func (x *Exec) typeID(t types.Type) int64 {
	k := typeName(t)
	if n, ok := x.typeIDs[k]; ok {
		return n
	}
	n := int64(len(x.typeIDs) + 1)
	x.typeIDs[k] = n
	return n
}

func (x *Exec) assume(st *State, t *Term) {
	if t.IsTrue() {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			x.assume(st, a)
		}
		return
	}
	if s := x.ctxSimp(st.pc, t); s != t {
		if s.IsTrue() {
			return
		}
		if s.Op == "and" {
			for _, a := range s.Args {
				st.pc = append(st.pc, a)
			}
			return
		}
		t = s
	}
	st.pc = append(st.pc, t)
}

func (x *Exec) oblige(st *State, kind, name string, pos token.Pos, goal *Term, cand *Cand) {
	goal = x.ctxSimp(st.pc, goal)
	if goal.Op == "and" && cand == nil {
		for _, g := range goal.Args {
			x.oblige(st, kind, name, pos, g, cand)
		}
		return
	}
	o := &Obl{Kind: kind, Name: name, PC: append([]*Term{}, st.pc...), Goal: goal, Cand: cand, Trace: append([]string{}, st.trace...)}
	if pos.IsValid() {
		o.Pos = x.prog.pos(pos)
	}
	x.obls = append(x.obls, o)
}

// check a run-time safety condition, then assume it
func (x *Exec) require(st *State, what string, pos token.Pos, cond *Term) bool {
	if cond.IsTrue() {
		return true
	}
	if x.safety {
		x.oblige(st, "safety", what, pos, cond, nil)
	}
	if cond.IsFalse() {
		return false
	}
	x.assume(st, cond)
	return true
}

func (x *Exec) feasible(st *State, c *Term) bool {
	if c.IsFalse() {
		return false
	}
	for _, p := range st.pc {
		if p == c {
			return true
		}
		if x.tb.Not(p) == c {
			return false
		}
	}
	if x.con != nil && x.con.Attrs["feas"] == "off" {
		return true
	}
	x.inc.full = !x.merge
	r := x.inc.Check(x, st.pc, c)
	x.inc.full = false
	return r != "unsat"
}
func (x *Exec) proves(st *State, c *Term) bool {
	if c.IsTrue() {
		return true
	}
	if c.IsFalse() {
		return false
	}
	for _, p := range st.pc {
		if p == c {
			return true
		}
	}
	return x.inc.Check(x, st.pc, x.tb.Not(c)) == "unsat"
}

// ---- natural loops ----
func natLoops(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	ls := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := ls[s]
				if l == nil {
					l = &natLoop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					ls[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return ls
}

type retCont func(st *State, res []Value)

// runFn executes fn's body along every path.
func (x *Exec) runFn(fn *ssa.Function, args []Value, bindings []Value, parent *Frame, site string, st *State, ret retCont) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	fr := &Frame{fn: fn, parent: parent, loops: x.prog.loopsOf(fn)}
	if parent != nil {
		fr.depth = parent.depth + 1
		fr.key = parent.key + "/" + site
		for p := parent; p != nil; p = p.parent {
			if p.fn == fn {
				unsup("recursive call of %s without a contract", fn.Name())
			}
		}
		if fr.depth > 12 {
			unsup("inlining depth")
		}
	}
	for i, p := range fn.Params {
		st.set(fr, p, args[i])
	}
	for i, p := range fn.FreeVars {
		st.set(fr, p, bindings[i])
	}
	x.block(fr, fn.Blocks[0], nil, st, ret)
}

func (x *Exec) edgeIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (x *Exec) block(fr *Frame, b, prev *ssa.BasicBlock, st *State, ret retCont) {
	if x.restart {
		return
	}
	st.popLoops(fr, b)
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	if !x.deadline.IsZero() && time.Now().After(x.deadline) {
		panic(unsupported{"time budget exceeded while following the paths"})
	}
	// entering values of phis
	vals := make([]Value, len(phis))
	if prev != nil {
		k := x.edgeIndex(b, prev)
		for i, p := range phis {
			vals[i] = x.val(fr, st, p.Edges[k])
		}
	}
	if len(st.joins) > 0 && x.atJoin(fr, b, prev, vals, st) {
		return
	}
	x.enter(fr, b, prev, vals, st, ret)
}

// enter executes block b with the given entering values of its phis.
func (x *Exec) enter(fr *Frame, b, prev *ssa.BasicBlock, vals []Value, st *State, ret retCont) {
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	if nl := fr.loops[b]; nl != nil {
		back := prev != nil && nl.body[prev]
		act := st.findLoop(fr, b)
		if back && act != nil {
			x.loopBack(fr, nl, act, phis, vals, st)
			return
		}
		if !back || act == nil {
			for i, p := range phis {
				st.set(fr, p, vals[i])
			}
			if x.tryUnroll(fr, b, st) {
				// constant-trip iteration: continue without cutting
				x.instrs(fr, b, len(phis), st, ret)
				return
			}
			x.loopEnter(fr, nl, phis, vals, st, ret)
			return
		}
	}
	for i, p := range phis {
		st.set(fr, p, vals[i])
	}
	x.instrs(fr, b, len(phis), st, ret)
}

// popLoops forgets the loops that control has left: those of frames that have returned and those whose body does not contain b.
func (s *State) popLoops(fr *Frame, b *ssa.BasicBlock) {
	in := func(a *loopAct) bool {
		if a.fr == fr {
			return a.li.header == b || a.li.body[b]
		}
		for f := fr.parent; f != nil; f = f.parent {
			if f == a.fr {
				return true
			}
		}
		return false
	}
	for i, a := range s.loops {
		if !in(a) {
			var out []*loopAct
			out = append(out, s.loops[:i]...)
			for _, b := range s.loops[i+1:] {
				if in(b) {
					out = append(out, b)
				}
			}
			s.loops = out
			return
		}
	}
}

func (s *State) findLoop(fr *Frame, b *ssa.BasicBlock) *loopAct {
	for i := len(s.loops) - 1; i >= 0; i-- {
		if s.loops[i].fr == fr && s.loops[i].li.header == b {
			return s.loops[i]
		}
	}
	return nil
}

// tryUnroll: the header's condition is decided by constants on this path.
func (x *Exec) tryUnroll(fr *Frame, b *ssa.BasicBlock, st *State) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	k := fmt.Sprintf("%s#%d", fr.key, b.Index)
	if st.unroll[k] > 130 || x.con.Attrs["unroll"] == "off" {
		return false
	}
	// the header must be pure
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef, *ssa.BinOp:
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		case *ssa.UnOp:
		default:
			return false
		}
	}
	ev := func(v ssa.Value) (t *Term) {
		defer func() {
			if r := recover(); r != nil {
				t = nil
			}
		}()
		var rec func(v ssa.Value) *Term
		rec = func(v ssa.Value) *Term {
			if in, ok := v.(ssa.Instruction); ok && in.Block() == b {
				switch in := v.(type) {
				case *ssa.BinOp:
					l, r := rec(in.X), rec(in.Y)
					if l == nil || r == nil || !l.isInt() || !r.isInt() {
						return nil
					}
					switch in.Op {
					case token.ADD:
						return x.tb.Add(l, r)
					case token.SUB:
						return x.tb.Sub(l, r)
					}
					return nil
				case *ssa.Call:
					s := x.val(fr, st, in.Call.Args[0])
					switch s := s.(type) {
					case SliceV:
						return s.len
					case *Term:
						return x.tb.Len(s)
					}
					return nil
				case *ssa.Phi:
					t, _ := st.env[envKey{fr, v}].(*Term)
					return t
				}
				return nil
			}
			t, _ := x.val(fr, st, v).(*Term)
			return t
		}
		return rec(v)
	}
	l, r := ev(cmp.X), ev(cmp.Y)
	if l == nil || r == nil {
		return false
	}
	if !l.isInt() || !r.isInt() {
		// few iterations provably remain
		var d *Term
		switch cmp.Op {
		case token.LSS, token.LEQ:
			d = x.tb.Sub(r, l)
		case token.GTR, token.GEQ:
			d = x.tb.Sub(l, r)
		default:
			return false
		}
		if l.Sort != SInt || r.Sort != SInt || st.unroll[k] > 10 || !x.proves(st, x.tb.Le(d, x.tb.Int(6))) {
			return false
		}
	}
	if st.unroll == nil {
		st.unroll = map[string]int{}
	} else {
		n := map[string]int{}
		for a, c := range st.unroll {
			n[a] = c
		}
		st.unroll = n
	}
	st.unroll[k]++
	return true
}

func (x *Exec) loopInfo(fr *Frame, nl *natLoop) *LoopInfo {
	key := fmt.Sprintf("%s#%s#%d", fr.key, fr.fn.Name(), nl.header.Index)
	li := x.loops[key]
	if li == nil {
		li = &LoopInfo{key: key, known: map[string]bool{}, modset: map[string]bool{}, mods: map[string][]Step{}, reif: map[string]bool{}}
		x.loops[key] = li
		x.lorder = append(x.lorder, key)
	}
	li.header = nl.header
	li.body = nl.body
	return li
}

func (x *Exec) loopEnter(fr *Frame, nl *natLoop, phis []*ssa.Phi, vals []Value, st *State, ret retCont) {
	li := x.loopInfo(fr, nl)
	pos := headerPos(nl.header)
	// candidates are generated against the entry state (all locators defined here)
	x.genCands(li, fr, nl, phis, st)
	// establish
	for _, c := range li.cands {
		if c.off(x) {
			continue
		}
		g := x.evalCand(c, fr, st)
		if g == nil {
			c.dead = true
			continue
		}
		if !g.IsTrue() {
			x.oblige(st, "inv-init", x.loopName(li)+" entry: "+c.src, pos, g, c)
		}
	}
	// havoc
	st = st.clone()
	for i, p := range phis {
		x.curKey = li.key + "!phi" + p.Name()
		st.set(fr, p, x.havocPhi(p, vals[i], st))
	}
	x.havocObjs(li, fr, st)
	for _, c := range li.cands {
		if c.off(x) {
			continue
		}
		g := x.evalCand(c, fr, st)
		if g != nil {
			x.assume(st, g)
		}
	}
	act := &loopAct{li: li, fr: fr, maxObj: x.nobj}
	if x.term {
		act.meas = x.measures(li, fr, nl, phis, st)
	}
	st.loops = append(append([]*loopAct{}, st.loops...), act)
	x.instrs(fr, nl.header, len(phis), st, ret)
}

func (x *Exec) loopName(li *LoopInfo) string {
	return fmt.Sprintf("loop@b%d%s", li.header.Index, map[bool]string{true: "", false: " in " + li.header.Parent().Name()}[li.header.Parent() == x.fn])
}

func headerPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

// havocPhi: an arbitrary value of the phi's type; slices that are never nil stay non-nil etc. are recovered by invariants
func (x *Exec) havocPhi(p *ssa.Phi, entry Value, st *State) Value {
	name := p.Comment
	if name == "" {
		name = p.Name()
	}
	v := x.fresh(p.Type(), name)
	if sv, ok := v.(SliceV); ok {
		sv.obj.param = false
		sv.obj.alloc = p
		sv.obj.loopv = true
		if e, ok := entry.(SliceV); ok && (e.obj.param || e.obj.origin != nil || e.obj.loopp) {
			sv.obj.loopp = true
		}
	}
	return v
}

func (x *Exec) havocObjs(li *LoopInfo, fr *Frame, st *State) {
	var keys []string
	for k := range li.modset {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for k := range li.reif {
		for _, o := range x.objByKey[k] {
			n := map[*Obj]bool{o: true}
			for q := range st.reif {
				n[q] = true
			}
			st.reif = n
		}
	}
	for _, k := range keys {
		okey, ps, _ := strings.Cut(k, "@")
		x.forceKey(okey, st, 0)
		for _, o := range x.objByKey[okey] {
			st.bump(o)
		}
		x.curKey = li.key + "!h" + okey
		for _, o := range x.objByKey[okey] {
			cur := x.content(st, o)
			path := parsePath(ps)
			nv := x.havocAt(cur, path, o, o.typ)
			st.m[o] = nv
		}
	}
}

// forceKey: make sure objects of this key that conceptually exist already have been materialised.
func (x *Exec) forceKey(k string, st *State, d int) {
	if g, ok := x.globalKey[k]; ok {
		x.globalObj(g)
		return
	}
	if p, ok := x.lazyParent[k]; ok && d < 20 {
		x.forceKey(p, st, d+1)
		for _, o := range append([]*Obj{}, x.objByKey[p]...) {
			if o.init == nil {
				x.content(nil, o)
			}
		}
	}
}
func parsePath(s string) []int {
	var out []int
	for _, p := range strings.Split(s, ".") {
		if p == "" {
			continue
		}
		n := 0
		fmt.Sscanf(p, "%d", &n)
		out = append(out, n)
	}
	return out
}
func (x *Exec) havocAt(v Value, path []int, o *Obj, t types.Type) Value {
	if len(path) > 0 {
		sv, ok := v.(StructV)
		if ok && path[0] < len(sv.fields) {
			n := StructV{typ: sv.typ, fields: append([]Value{}, sv.fields...)}
			n.fields[path[0]] = x.havocAt(sv.fields[path[0]], path[1:], o, under(sv.typ).(*types.Struct).Field(path[0]).Type())
			return n
		}
	}
	tb := x.tb
	switch v := v.(type) {
	case SeqV:
		c := tb.Fresh(o.name+"_h", v.t.Sort)
		x.fact(tb.mk("=", SBool, "", nil, tb.Len(c), tb.Len(v.t)))
		return SeqV{c, v.elem}
	case BufC:
		return BufC{tb.Fresh(o.name+"_h", SBytes)}
	case MapC:
		ks, vs := x.mapSorts(v.typ)
		return MapC{tb.Fresh(o.name+"_dom", ArrOf(ks, SBool)), tb.Fresh(o.name+"_val", ArrOf(ks, vs)), v.typ}
	case *Term:
		f := tb.Fresh(o.name+"_h", v.Sort)
		if r, ok := intRange(t); ok {
			f.setRange(r)
		}
		return f
	}
	n := x.fresh(t, o.name+"_h")
	return n
}

func (x *Exec) loopBack(fr *Frame, nl *natLoop, act *loopAct, phis []*ssa.Phi, vals []Value, st *State) {
	li := act.li
	pos := headerPos(nl.header)
	save := make([]Value, len(phis))
	for i, p := range phis {
		save[i] = st.env[envKey{fr, p}]
		st.set(fr, p, vals[i])
	}
	for _, c := range li.cands {
		if c.off(x) {
			continue
		}
		g := x.evalCand(c, fr, st)
		if g == nil {
			c.dead = true
			continue
		}
		if !g.IsTrue() {
			x.oblige(st, "inv-step", x.loopName(li)+" step: "+c.src, pos, g, c)
		}
	}
	if x.term {
		// lexicographic measures are not needed: some single measure must decrease and be bounded below
		var alts []*Term
		for _, m := range act.meas {
			if v := m.loc.eval(x, fr, st); v != nil {
				alts = append(alts, x.tb.And(x.tb.Le(x.tb.Int(0), m.v0), x.tb.Lt(v, m.v0)))
				o := &Obl{Kind: "measure", Name: m.key, PC: append([]*Term{}, st.pc...), Goal: alts[len(alts)-1]}
				o.Trace = []string{li.key}
				x.obls = append(x.obls, o)
			}
		}
		if len(alts) == 0 && !li.measIn {
			x.oblige(st, "term", x.loopName(li)+" terminates", pos, x.tb.False(), nil)
		}
	}
	for i, p := range phis {
		st.set(fr, p, save[i])
	}
	x.npaths++
}

func (x *Exec) recordWrite(o *Obj, path []Step) {
	// frame obligation handled at return time
}

// noteWrite: o (existing before the active loops were entered) is modified inside them.
func (x *Exec) noteWrite(st *State, o *Obj, path []Step) {
	if o.key == "" {
		return
	}
	ps := ""
	for _, s := range path {
		if s.kind != 'f' {
			break
		}
		ps += fmt.Sprintf("%d.", s.field)
	}
	k := o.key + "@" + ps
	for _, a := range st.loops {
		if o.birth <= a.maxObj && !a.li.modset[k] {
			// covered by a shorter prefix?
			cov := false
			for q := range a.li.modset {
				if strings.HasPrefix(k, q) {
					cov = true
				}
			}
			if !cov {
				a.li.modset[k] = true
				x.restart = true
			}
		}
	}
}

// ---- values ----
func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Value {
	if r, ok := st.env[envKey{fr, v}]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Global:
		return PtrV{nilc: x.tb.False(), obj: x.globalObj(v), elem: under(v.Type()).(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return FuncV{}
	}
	unsup("undefined value %s in %s", v.Name(), fr.fn)
	return nil
}

func (x *Exec) globalObj(g *ssa.Global) *Obj {
	if o, ok := x.globals[g]; ok {
		return o
	}
	el := under(g.Type()).(*types.Pointer).Elem()
	o := x.newObj("g_"+g.Name(), el)
	o.key = "global " + g.String()
	o.birth = 0
	x.globalKey[o.key] = g
	x.objByKey[o.key] = append(x.objByKey[o.key], o)
	o.init = x.fresh(el, "g_"+g.Name())
	if iv, ok := o.init.(IfaceV); ok {
		// package-level sentinel errors are assumed to be initialised once and non-nil
		iv.nilc = x.tb.False()
		o.init = iv
		x.assumed["package-level interface variables (sentinel errors) are initialised, non-nil and never reassigned"] = true
	}
	if pv, ok := o.init.(PtrV); ok {
		pv.nilc = x.tb.False()
		o.init = pv
	}
	x.globals[g] = o
	return o
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if isFloat(t) {
		return x.tb.App("fltc_"+sanitize(c.Value.ExactString()), SReal)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return x.tb.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return x.strTerm(constant.StringVal(c.Value))
	case constant.Int:
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return x.tb.BigInt(n)
	case constant.Float:
		if isInteger(t) {
			n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return x.tb.BigInt(n)
		}
	}
	return OpaqueV{x.tb.App("const_"+sanitize(c.Value.ExactString()), SOpaque)}
}

func (x *Exec) term1(fr *Frame, st *State, v ssa.Value) *Term {
	r := x.val(fr, st, v)
	t, ok := r.(*Term)
	if !ok {
		unsup("scalar expected, got %T for %s", r, v.Name())
	}
	return t
}

// ---- instructions ----
func (x *Exec) instrs(fr *Frame, b *ssa.BasicBlock, from int, st *State, ret retCont) {
	tb := x.tb
	for i := from; i < len(b.Instrs); i++ {
		if x.restart {
			return
		}
		x.curKey = fmt.Sprintf("%s!%d.%d", fr.key, b.Index, i)
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			unsup("phi out of place")
		case *ssa.Alloc:
			el := under(in.Type()).(*types.Pointer).Elem()
			o := x.newObj(in.Comment, el)
			o.alloc = in
			o.key = fr.key + "!" + in.Name()
			x.objByKey[o.key] = append(x.objByKey[o.key], o)
			o.init = x.zero(el)
			st.m[o] = o.init
			st.set(fr, in, PtrV{nilc: tb.False(), obj: o, elem: el})
		case *ssa.BinOp:
			v, ok := x.binop(fr, st, in)
			if !ok {
				return
			}
			st.set(fr, in, v)
		case *ssa.UnOp:
			v, ok := x.unop(fr, st, in)
			if !ok {
				return
			}
			st.set(fr, in, v)
		case *ssa.ChangeType:
			st.set(fr, in, x.val(fr, st, in.X))
		case *ssa.ChangeInterface:
			st.set(fr, in, x.val(fr, st, in.X))
		case *ssa.Convert:
			st.set(fr, in, x.convert(st, x.val(fr, st, in.X), in.X.Type(), in.Type()))
		case *ssa.MakeInterface:
			st.set(fr, in, IfaceV{nilc: tb.False(), dyn: in.X.Type(), val: x.val(fr, st, in.X)})
		case *ssa.MakeClosure:
			f := FuncV{fn: in.Fn.(*ssa.Function)}
			for _, bv := range in.Bindings {
				f.bindings = append(f.bindings, x.val(fr, st, bv))
			}
			st.set(fr, in, f)
		case *ssa.MakeMap:
			mt := under(in.Type()).(*types.Map)
			o := x.newObj("map", mt)
			o.key = fr.key + "!" + in.Name()
			x.objByKey[o.key] = append(x.objByKey[o.key], o)
			o.init = x.emptyMap(mt)
			st.m[o] = o.init
			st.set(fr, in, MapV{nilc: tb.False(), obj: o, typ: mt})
		case *ssa.MakeSlice:
			n := x.term1(fr, st, in.Len)
			el := under(in.Type()).(*types.Slice).Elem()
			if !x.require(st, "make: length in range", in.Pos(), tb.And(tb.Le(tb.Int(0), n), tb.Le(n, tb.BigInt(lenMax)))) {
				return
			}
			o := x.newObj("make", in.Type())
			o.slice = true
			o.key = fr.key + "!" + in.Name()
			x.objByKey[o.key] = append(x.objByKey[o.key], o)
			o.init = SeqV{x.zeroSeq(el, n), el}
			st.m[o] = o.init
			st.set(fr, in, SliceV{nilc: tb.False(), obj: o, off: tb.Int(0), len: n, elem: el})
		case *ssa.Slice:
			v, ok := x.sliceInstr(fr, st, in)
			if !ok {
				return
			}
			st.set(fr, in, v)
		case *ssa.FieldAddr:
			p, ok := x.val(fr, st, in.X).(PtrV)
			if !ok {
				unsup("FieldAddr of %T", x.val(fr, st, in.X))
			}
			if !x.require(st, "nil pointer dereference", in.Pos(), tb.Not(p.nilc)) {
				return
			}
			ft := under(p.elem).(*types.Struct).Field(in.Field).Type()
			st.set(fr, in, PtrV{nilc: tb.False(), obj: p.obj, path: append(append([]Step{}, p.path...), Step{kind: 'f', field: in.Field}), elem: ft})
		case *ssa.Field:
			v := x.val(fr, st, in.X)
			sv, ok := v.(StructV)
			if !ok {
				unsup("Field of %T", v)
			}
			st.set(fr, in, sv.fields[in.Field])
		case *ssa.IndexAddr:
			v, ok := x.indexAddr(fr, st, in)
			if !ok {
				return
			}
			st.set(fr, in, v)
		case *ssa.Index:
			idx := x.term1(fr, st, in.Index)
			switch c := x.val(fr, st, in.X).(type) {
			case *Term: // string
				if !x.require(st, "index in range", in.Pos(), tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, tb.Len(c)))) {
					return
				}
				st.set(fr, in, x.nth(c, idx, tyByte))
			case SeqV:
				if !x.require(st, "index in range", in.Pos(), tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, tb.Len(c.t)))) {
					return
				}
				st.set(fr, in, detach(x.fromTerm(x.nth(c.t, idx, c.elem), c.elem, nil)))
			default:
				unsup("Index of %T", c)
			}
		case *ssa.Lookup:
			v, ok := x.lookup(fr, st, in)
			if !ok {
				return
			}
			st.set(fr, in, v)
		case *ssa.Extract:
			st.set(fr, in, x.val(fr, st, in.Tuple).(TupleV).vs[in.Index])
		case *ssa.TypeAssert:
			x.typeAssert(fr, b, i, in, st, ret)
			return
		case *ssa.Range:
			st.set(fr, in, x.rangeInstr(fr, st, in))
		case *ssa.Next:
			x.nextInstr(fr, b, i, in, st, ret)
			return
		case *ssa.Store:
			p, ok := x.val(fr, st, in.Addr).(PtrV)
			if !ok {
				unsup("store through %T", x.val(fr, st, in.Addr))
			}
			if !x.require(st, "nil pointer dereference", in.Pos(), tb.Not(p.nilc)) {
				return
			}
			sv := x.val(fr, st, in.Val)
			x.write(st, p.obj, p.path, sv)
			for _, q := range p.path {
				if q.kind != 'f' && !printedOnly(in.Addr) {
					x.markReified(st, sv)
					break
				}
			}
			if x.restart {
				return
			}
		case *ssa.MapUpdate:
			m, ok := x.val(fr, st, in.Map).(MapV)
			if !ok {
				unsup("map update of %T", x.val(fr, st, in.Map))
			}
			if !x.require(st, "assignment to entry in nil map", in.Pos(), tb.Not(m.nilc)) {
				return
			}
			k := x.toTerm(x.val(fr, st, in.Key), m.typ.Key(), st)
			v := x.toTerm(x.val(fr, st, in.Value), m.typ.Elem(), st)
			x.markReified(st, x.val(fr, st, in.Value))
			mc := x.content(st, m.obj).(MapC)
			nm := MapC{tb.Store(mc.dom, k, tb.True()), tb.Store(mc.val, k, v), mc.typ}
			x.write(st, m.obj, nil, nm)
		case *ssa.Call:
			x.call(fr, b, i, in, st, ret)
			return
		case *ssa.Defer:
			st.defers = append(append([]deferred{}, st.defers...), deferred{fr, in})
		case *ssa.RunDefers:
			for k := len(st.defers) - 1; k >= 0; k-- {
				if st.defers[k].fr == fr {
					x.runDefer(fr, st, st.defers[k].in)
				}
			}
		case *ssa.Jump:
			x.block(fr, b.Succs[0], b, st, ret)
			return
		case *ssa.If:
			c := x.term1(fr, st, in.Cond)
			if c.IsTrue() {
				x.block(fr, b.Succs[0], b, st, ret)
				return
			}
			if c.IsFalse() {
				x.block(fr, b.Succs[1], b, st, ret)
				return
			}
			x.branch(fr, b, c, st, ret)
			return
		case *ssa.Return:
			var rs []Value
			for _, r := range in.Results {
				rs = append(rs, x.val(fr, st, r))
			}
			ret(st, rs)
			return
		case *ssa.Panic:
			x.require(st, "explicit panic unreachable", in.Pos(), tb.False())
			return
		default:
			unsup("instruction %T in %s", in, fr.fn)
		}
	}
}

func (x *Exec) branch(fr *Frame, b *ssa.BasicBlock, c *Term, st *State, ret retCont) {
	x.checkBudget()
	// an answer "feasible" of an earlier round stands for this path: it is the conservative one
	kt, kf := pathHash(st.path, fr.key, b.Index, 1), pathHash(st.path, fr.key, b.Index, 0)
	ask := func(k uint64, c *Term) bool {
		if c.IsFalse() {
			return false
		}
		if x.feasSeen[k] {
			return true
		}
		r := x.feasible(st, c)
		if r {
			x.feasSeen[k] = true
		}
		return r
	}
	ft := ask(kt, c)
	ff := true
	if ft {
		ff = ask(kf, x.tb.Not(c))
	}
	both := func() {
		if ft {
			s2 := st
			if ff {
				s2 = st.clone()
			}
			if ff {
				x.assume(s2, c)
				s2.path = kt
			}
			x.block(fr, b.Succs[0], b, s2, ret)
		}
		if ff {
			if ft {
				x.assume(st, x.tb.Not(c))
				st.path = kf
			}
			x.block(fr, b.Succs[1], b, st, ret)
		}
	}
	if ft && ff {
		x.withJoins(fr, b, st, ret, both)
		return
	}
	both()
}

func pathHash(p uint64, key string, blk, side int) uint64 {
	h := p ^ 0xcbf29ce484222325
	mix := func(v uint64) { h = (h ^ v) * 0x9E3779B97F4A7C15; h ^= h >> 29 }
	for i := 0; i < len(key); i++ {
		mix(uint64(key[i]))
	}
	mix(uint64(blk) + 1)
	mix(uint64(side) + 7)
	return h
}

func (x *Exec) checkBudget() {
	x.npaths++
	if x.npaths > x.maxPaths {
		unsup("path budget exceeded (%d)", x.maxPaths)
	}
}

// split executes f under c and g under not c (both when feasible).
func (x *Exec) split(st *State, c *Term, f, g func(st *State)) {
	if c.IsTrue() {
		f(st)
		return
	}
	if c.IsFalse() {
		g(st)
		return
	}
	x.checkBudget()
	ft := x.feasible(st, c)
	ff := true
	if ft {
		ff = x.feasible(st, x.tb.Not(c))
	}
	if ft {
		s2 := st.clone()
		x.assume(s2, c)
		f(s2)
	}
	if ff {
		s3 := st.clone()
		x.assume(s3, x.tb.Not(c))
		g(s3)
	}
}

func (x *Exec) write(st *State, o *Obj, path []Step, v Value) {
	if o.loopv {
		if o.loopp {
			unsup("write through a loop-carried slice of the caller's storage")
		}
		x.assumed["a loop-carried slice variable written through is not aliased by another live slice"] = true
	}
	if o.det {
		unsup("write through a pointer or slice read out of a stored value")
	}
	if st.reif[o] {
		unsup("write to %s after it was stored in a collection", o.name)
	}
	if o.opqm && !x.mapsUnstable {
		x.mapsUnstable = true
		x.restart = true
	}
	x.noteWrite(st, o, path)
	if og := o.origin; og != nil {
		x.noteWrite(st, og.obj, og.path)
	}
	x.store(st, o, path, v)
	st.bump(o)
	for q := o; q.origin != nil; q = q.origin.obj {
		st.bump(q.origin.obj)
		st.setSnap(q, st.ver[q.origin.obj])
	}
}

func (x *Exec) indexAddr(fr *Frame, st *State, in *ssa.IndexAddr) (Value, bool) {
	tb := x.tb
	idx := x.term1(fr, st, in.Index)
	switch c := x.val(fr, st, in.X).(type) {
	case SliceV:
		if !x.require(st, "index in range", in.Pos(), tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, c.len))) {
			return nil, false
		}
		return PtrV{nilc: tb.False(), obj: c.obj, path: append(append([]Step{}, c.path...), Step{kind: 'i', idx: tb.Add(c.off, idx)}), elem: c.elem}, true
	case PtrV:
		if !x.require(st, "nil pointer dereference", in.Pos(), tb.Not(c.nilc)) {
			return nil, false
		}
		at := under(c.elem).(*types.Array)
		if !x.require(st, "index in range", in.Pos(), tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, tb.Int(at.Len())))) {
			return nil, false
		}
		return PtrV{nilc: tb.False(), obj: c.obj, path: append(append([]Step{}, c.path...), Step{kind: 'i', idx: idx}), elem: at.Elem()}, true
	}
	unsup("IndexAddr of %T", x.val(fr, st, in.X))
	return nil, false
}

func (x *Exec) sliceInstr(fr *Frame, st *State, in *ssa.Slice) (Value, bool) {
	tb := x.tb
	lo := tb.Int(0)
	if in.Low != nil {
		lo = x.term1(fr, st, in.Low)
	}
	get := func(n *Term) (*Term, bool) {
		hi := n
		if in.High != nil {
			hi = x.term1(fr, st, in.High)
		}
		mx := hi
		ok := tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, n))
		_ = mx
		return hi, x.require(st, "slice bounds in range", in.Pos(), ok)
	}
	switch c := x.val(fr, st, in.X).(type) {
	case *Term:
		hi, ok := get(tb.Len(c))
		if !ok {
			return nil, false
		}
		return tb.Sub3(c, lo, tb.Sub(hi, lo)), true
	case SliceV:
		hi, ok := get(c.len)
		if !ok {
			return nil, false
		}
		c.off = tb.Add(c.off, lo)
		c.len = tb.Sub(hi, lo)
		return c, true
	case PtrV:
		at, isArr := under(c.elem).(*types.Array)
		if !isArr {
			unsup("slice of pointer to %v", c.elem)
		}
		hi, ok := get(tb.Int(at.Len()))
		if !ok {
			return nil, false
		}
		return SliceV{nilc: tb.False(), obj: c.obj, path: c.path, off: lo, len: tb.Sub(hi, lo), elem: at.Elem()}, true
	}
	unsup("Slice of %T", x.val(fr, st, in.X))
	return nil, false
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) (Value, bool) {
	tb := x.tb
	c := x.val(fr, st, in.X)
	if s, ok := c.(*Term); ok {
		idx := x.term1(fr, st, in.Index)
		if !x.require(st, "index in range", in.Pos(), tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, tb.Len(s)))) {
			return nil, false
		}
		return x.nth(s, idx, tyByte), true
	}
	m, ok := c.(MapV)
	if !ok {
		unsup("Lookup in %T", c)
	}
	mc := x.content(st, m.obj).(MapC)
	kv := x.val(fr, st, in.Index)
	k := x.toTerm(kv, m.typ.Key(), st)
	_, vs := x.mapSorts(m.typ)
	has := tb.And(tb.Not(m.nilc), tb.Select(mc.dom, k, SBool))
	if in.CommaOk || !has.IsTrue() {
		// zero value when absent
		z := x.toTerm(x.zero(m.typ.Elem()), m.typ.Elem(), st)
		t := tb.Ite(has, tb.Select(mc.val, k, vs), z)
		var v Value
		if has.IsFalse() {
			v = x.zero(m.typ.Elem())
		} else {
			v = stamp(x.fromTerm(t, m.typ.Elem(), &Origin{obj: m.obj, mapKey: k}), st)
		}
		if in.CommaOk {
			return TupleV{[]Value{v, has}}, true
		}
		return v, true
	}
	return stamp(x.fromTerm(tb.Select(mc.val, k, vs), m.typ.Elem(), &Origin{obj: m.obj, mapKey: k}), st), true
}

func (x *Exec) typeAssert(fr *Frame, b *ssa.BasicBlock, i int, in *ssa.TypeAssert, st *State, ret retCont) {
	tb := x.tb
	iv, ok := x.val(fr, st, in.X).(IfaceV)
	if !ok {
		unsup("type assert on %T", x.val(fr, st, in.X))
	}
	cont := func(st *State, v Value, okT bool) {
		if in.CommaOk {
			st.set(fr, in, TupleV{[]Value{v, tb.Bool(okT)}})
		} else {
			st.set(fr, in, v)
		}
		x.instrs(fr, b, i+1, st, ret)
	}
	fail := func(st *State) {
		if !in.CommaOk {
			x.require(st, "type assertion holds", in.Pos(), tb.False())
			return
		}
		cont(st, x.zero(in.AssertedType), false)
	}
	_, toIface := under(in.AssertedType).(*types.Interface)
	if iv.nilc.IsTrue() {
		fail(st)
		return
	}
	if iv.dyn != nil {
		good := false
		if toIface {
			good = types.Implements(iv.dyn, under(in.AssertedType).(*types.Interface))
		} else {
			good = types.Identical(iv.dyn, in.AssertedType)
		}
		x.split(st, iv.nilc, fail, func(st *State) {
			if !good {
				fail(st)
				return
			}
			if toIface {
				cont(st, iv, true)
			} else {
				cont(st, iv.val, true)
			}
		})
		return
	}
	if toIface {
		c := tb.App("implements_"+sanitize(typeName(in.AssertedType)), SBool, iv.id)
		x.split(st, tb.And(tb.Not(iv.nilc), c), func(st *State) {
			cont(st, IfaceV{nilc: tb.False(), id: iv.id}, true)
		}, fail)
		return
	}
	c := tb.Eq(tb.App("typeid", SInt, iv.id), tb.Int(x.typeID(in.AssertedType)))
	x.split(st, tb.And(tb.Not(iv.nilc), c), func(st *State) {
		s := x.sortOf(in.AssertedType)
		var v Value
		if s == SOpaque {
			v = x.fresh(in.AssertedType, "unboxed")
		} else {
			ub := tb.App("unbox_"+sanitize(typeName(in.AssertedType)), s, iv.id)
			if r, ok := intRange(in.AssertedType); ok {
				ub.setRange(r)
			}
			v = detach(x.fromTerm(ub, in.AssertedType, nil))
		}
		cont(st, v, true)
	}, fail)
}

func (x *Exec) rangeInstr(fr *Frame, st *State, in *ssa.Range) Value {
	tb := x.tb
	switch c := x.val(fr, st, in.X).(type) {
	case *Term:
		o := x.newObj("strpos", tyInt)
		o.key = fr.key + "!" + in.Name()
		x.objByKey[o.key] = append(x.objByKey[o.key], o)
		o.init = tb.Int(0)
		st.m[o] = o.init
		return RangeIter{kind: "string", str: c, obj: o}
	case MapV:
		o := x.newObj("visited", c.typ)
		o.key = fr.key + "!" + in.Name()
		x.objByKey[o.key] = append(x.objByKey[o.key], o)
		o.init = x.emptyMap(c.typ)
		st.m[o] = o.init
		return RangeIter{kind: "map", m: c, obj: o}
	}
	unsup("range over %T", x.val(fr, st, in.X))
	return nil
}

func (x *Exec) nextInstr(fr *Frame, b *ssa.BasicBlock, i int, in *ssa.Next, st *State, ret retCont) {
	tb := x.tb
	it := x.val(fr, st, in.Iter).(RangeIter)
	fin := func(st *State, vs ...Value) {
		st.set(fr, in, TupleV{vs})
		x.instrs(fr, b, i+1, st, ret)
	}
	if it.kind == "string" {
		pos := x.content(st, it.obj).(*Term)
		// position stays within 0..len (invariant of the iterator)
		x.assume(st, tb.And(tb.Le(tb.Int(0), pos), tb.Le(pos, tb.Len(it.str))))
		x.split(st, tb.Lt(pos, tb.Len(it.str)), func(st *State) {
			r, w := x.runeAt(st, it.str, pos)
			x.write(st, it.obj, nil, tb.Add(pos, w))
			fin(st, tb.True(), pos, r)
		}, func(st *State) {
			fin(st, tb.False(), tb.Int(0), tb.Int(0))
		})
		return
	}
	m := it.m
	mc := x.content(st, m.obj).(MapC)
	vis := x.content(st, it.obj).(MapC)
	ks, vs := x.mapSorts(m.typ)
	// either some unvisited key remains, or every key has been visited
	s1 := st.clone()
	k := x.freshTerm(m.typ.Key(), "key")
	x.assume(s1, tb.And(tb.Not(m.nilc), tb.Select(mc.dom, k, SBool), tb.Not(tb.Select(vis.dom, k, SBool))))
	x.write(s1, it.obj, nil, MapC{tb.Store(vis.dom, k, tb.True()), vis.val, vis.typ})
	if !x.restart {
		kv := x.fromTerm(k, m.typ.Key(), nil)
		vv := stamp(x.fromTerm(tb.Select(mc.val, k, vs), m.typ.Elem(), &Origin{obj: m.obj, mapKey: k}), s1)
		fin(s1, tb.True(), kv, vv)
	}
	if x.restart {
		return
	}
	bv := tb.BVar("k", ks)
	x.assume(st, tb.Or(m.nilc, tb.Forall([]*Term{bv}, tb.Implies(tb.Select(mc.dom, bv, SBool), tb.Select(vis.dom, bv, SBool)))))
	fin(st, tb.False(), x.zero(m.typ.Key()), x.zero(m.typ.Elem()))
}

// runeAt models UTF-8 decoding at position pos.
func (x *Exec) runeAt(st *State, s, pos *Term) (r, w *Term) {
	tb := x.tb
	r = tb.App("utf8rune", SInt, s, pos)
	r.setRange(rng{big.NewInt(0), big.NewInt(0x10FFFF)})
	w = tb.App("utf8width", SInt, s, pos)
	w.setRange(rng{big.NewInt(1), big.NewInt(4)})
	b0 := x.nth(s, pos, tyByte)
	x.assume(st, tb.Ite(tb.Lt(b0, tb.Int(128)), tb.And(tb.Eq(r, b0), tb.Eq(w, tb.Int(1))), tb.Le(tb.Int(128), r)))
	x.assume(st, tb.Le(tb.Add(pos, w), tb.Len(s)))
	// well-formed sequences re-encode to themselves; ill-formed bytes decode to U+FFFD with width 1
	enc := x.utf8enc(r)
	x.assume(st, tb.Or(tb.Eq(enc, tb.Sub3(s, pos, w)), tb.And(tb.Eq(r, tb.Int(0xFFFD)), tb.Eq(w, tb.Int(1)))))
	x.assumed["UTF-8 decoding (range over string) per the Go specification"] = true
	return
}
func (x *Exec) utf8enc(r *Term) *Term {
	tb := x.tb
	if r.isInt() && r.Val.Sign() >= 0 && r.Val.Cmp(big.NewInt(128)) < 0 {
		return tb.Unit(r)
	}
	e := tb.App("utf8enc", SBytes, r)
	x.fact(tb.Implies(tb.And(tb.Le(tb.Int(0), r), tb.Lt(r, tb.Int(128))), tb.mkEq(e, tb.Unit(r))))
	x.fact(tb.And(tb.Le(tb.Int(1), tb.Len(e)), tb.Le(tb.Len(e), tb.Int(4))))
	return e
}

type deferred struct {
	fr *Frame
	in *ssa.Defer
}

func (x *Exec) runDefer(fr *Frame, st *State, d *ssa.Defer) {
	c := d.Call
	name := ""
	if c.IsInvoke() {
		name = c.Method.Name()
	} else if f := c.StaticCallee(); f != nil {
		name = f.Name()
	}
	switch name {
	case "Close", "Unlock", "RUnlock":
		return
	}
	unsup("deferred call %s", name)
}

// printedOnly: the address is an element of an argument list that is only handed to a function of fmt or log,
// which reads it at once and keeps nothing.
func printedOnly(a ssa.Value) bool {
	ia, ok := a.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	al, ok := ia.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return false
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
		case *ssa.Slice:
			for _, u := range *r.Referrers() {
				c, ok := u.(*ssa.Call)
				if !ok {
					return false
				}
				f := c.Call.StaticCallee()
				if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "fmt" && f.Pkg.Pkg.Path() != "log" {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
