package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	Fn        string
	Con       *Contract
	Err       string // outside the subset etc.
	Obls      []*Obl
	Failed    []*Obl
	Unknown   []*Obl
	N         int
	Trivial   int
	BySolver  map[string]int
	Secs      float64
	SolveSecs float64
	Assumed   []string
	Inlined   []string
	Called    []string
	Paths     int
	Mode      int
	Invs      []string
	Vacuous   []string
	Params    []SV
	Lemma     string
}

func (x *Exec) reset() {
	x.facts = nil
	x.nobj = 0
	x.obls = nil
	x.restart = false
	x.globals = map[*ssa.Global]*Obj{}
	x.objByKey = map[string][]*Obj{}
	x.retPaths, x.npaths = 0, 0
	x.ufs = map[string]bool{}
	x.tb.fresh = 0
	x.factSyms = map[*Term][]string{}
	x.inParam = false
	x.curKey, x.lazyOf = "", nil
	if x.lazyParent == nil {
		x.lazyParent = map[string]string{}
		x.globalKey = map[string]*ssa.Global{}
	}
}

func NewExec(p *Program, sp *Specs, con *Contract, fn *ssa.Function) *Exec {
	x := &Exec{prog: p, specs: sp, con: con, fn: fn, tb: NewTB(), loops: map[string]*LoopInfo{},
		usedSpec: map[string]bool{}, assumed: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{},
		sortCache: map[string]string{}, typeIDs: map[string]int64{}, maxPaths: 6000, safety: true, term: true,
		symCache: map[*Term][]string{}, usedLemma: map[string]bool{}, noLemma: map[string]bool{}, inc: NewInc(), feasSeen: map[uint64]bool{}, specAppC: map[*Term]bool{}, needCtxC: map[*Term]bool{}}
	if con.Attrs["safety"] == "off" {
		x.safety = false
	}
	if con.Attrs["termination"] == "off" {
		x.term = false
	}
	if v := con.Attrs["maxpaths"]; v != "" {
		fmt.Sscanf(v, "%d", &x.maxPaths)
	}
	x.merge = con.Attrs["merge"] == "on" || con.Attrs["merge"] == "same"
	x.mergeSame = con.Attrs["merge"] == "same" // join only what did not become different
	x.fuel = 2
	if v := con.Attrs["fuel"]; v != "" {
		fmt.Sscanf(v, "%d", &x.fuel)
	}
	x.lemmaOn = true
	x.reset()
	return x
}

// generate executes the function once and collects the obligations.
func (x *Exec) generate() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				err = fmt.Errorf("outside the supported subset: %s", e.msg)
			case specErr:
				err = fmt.Errorf("contract does not apply: %s", e.msg)
			default:
				if os.Getenv("GOVC_DEBUG") != "" {
					panic(r)
				}
				err = fmt.Errorf("internal: %v", r)
			}
		}
	}()
	for round := 0; round < 60; round++ {
		x.reset()
		x.nrestart++
		st := newState()
		x.params = nil
		var args []Value
		x.inParam = true
		for i, p := range x.fn.Params {
			nm := p.Name()
			if i < len(x.con.Params) {
				nm = x.con.Params[i]
			}
			v := x.fresh(p.Type(), nm)
			args = append(args, v)
			x.params = append(x.params, SV{v, p.Type()})
		}
		x.inParam = false
		var binds []Value
		for _, fv := range x.fn.FreeVars {
			binds = append(binds, x.fresh(fv.Type(), fv.Name()))
		}
		x.entry = st.clone()
		env := x.baseEnv(st)
		for _, r := range x.con.Requires {
			x.assume(st, x.evalBool(r.E, env))
		}
		for _, u := range x.con.Uses {
			for _, t := range x.useLemma(u.E, env) {
				x.assume(st, t)
			}
		}
		x.entry = st.clone()
		x.runFn(x.fn, args, binds, nil, "", st, func(st *State, rs []Value) { x.atReturn(st, rs) })
		if !x.restart {
			return nil
		}
	}
	return fmt.Errorf("loop write-set iteration did not converge")
}

func (x *Exec) atReturn(st *State, rs []Value) {
	x.retPaths++
	env := x.baseEnv(st)
	sig := x.fn.Signature
	for i, n := range x.con.Results {
		if i < len(rs) {
			env.vars[n] = SV{rs[i], sig.Results().At(i).Type()}
		}
	}
	for i, e := range x.con.Ensures {
		g := x.evalBool(e.E, env)
		nm := e.Name
		if nm == "" {
			nm = fmt.Sprintf("%d", i+1)
		}
		if g.IsTrue() {
			x.oblige(st, "ensures", nm+": "+e.Src, 0, g, nil)
			continue
		}
		x.oblige(st, "ensures", nm+": "+e.Src, 0, g, nil)
	}
	x.frameCheck(st, env)
}

// frameCheck: every parameter-reachable object not listed in modifies is unchanged.
func (x *Exec) frameCheck(st *State, env *SEnv) {
	if x.con.ModAll || x.con.Attrs["frame"] == "off" {
		return
	}
	type allow struct {
		o    *Obj
		path string
	}
	var al []allow
	oldEnv := *env
	oldEnv.st = x.entry
	for _, m := range x.con.Modifies {
		func() {
			defer func() { recover() }()
			switch m.E.Op {
			case "field":
				b := x.eval(m.E.Args[0], &oldEnv)
				p := b.v.(PtrV)
				u := structOf(p.elem)
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == m.E.S {
						al = append(al, allow{p.obj, fmt.Sprintf("%d", i)})
						switch c := x.load(x.entry, p.obj, append(append([]Step{}, p.path...), Step{kind: 'f', field: i})).(type) {
						case MapV:
							al = append(al, allow{c.obj, ""})
						case SliceV:
							al = append(al, allow{c.obj, ""})
						}
					}
				}
			default:
				b := x.eval(m.E, &oldEnv)
				switch c := b.v.(type) {
				case PtrV:
					al = append(al, allow{c.obj, ""})
				case SliceV:
					al = append(al, allow{c.obj, ""})
				case MapV:
					al = append(al, allow{c.obj, ""})
				}
			}
		}()
	}
	var objs []*Obj
	for o := range st.m {
		if o.param {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		ok := false
		skip := map[int]bool{}
		for _, a := range al {
			if a.o == o {
				if a.path == "" {
					ok = true
				} else {
					n := 0
					fmt.Sscanf(a.path, "%d", &n)
					skip[n] = true
				}
			}
		}
		if ok {
			continue
		}
		now, was := st.m[o], x.content(x.entry, o)
		if s1, ok1 := now.(StructV); ok1 {
			s2 := was.(StructV)
			u := structOf(o.typ)
			for i := range s1.fields {
				if skip[i] {
					continue
				}
				x.frameEq(st, o.name+"."+u.Field(i).Name(), s1.fields[i], s2.fields[i], u.Field(i).Type())
			}
			continue
		}
		x.frameEq(st, o.name, now, was, o.typ)
	}
}

func (x *Exec) CheckFunction(budget time.Duration) *FnResult {
	t0 := time.Now()
	r := &FnResult{Fn: x.con.Pkg + "." + x.con.Fn, Con: x.con, BySolver: map[string]int{}}
	defer func() {
		r.Secs = time.Since(t0).Seconds()
		x.inc.Close()
		x.stats()
		for k := range x.assumed {
			r.Assumed = append(r.Assumed, k)
		}
		for k := range x.inlined {
			r.Inlined = append(r.Inlined, k)
		}
		for k := range x.called {
			r.Called = append(r.Called, k)
		}
		sort.Strings(r.Assumed)
		sort.Strings(r.Inlined)
		sort.Strings(r.Called)
		r.Paths = x.npaths
	}()
	deadline := t0.Add(budget)
	x.deadline = deadline
	for mode := 0; mode <= maxMode; mode++ {
		x.tmplMode = mode
		r.Mode = mode
		if mode == 1 {
			// revive everything: new instances may make old ones inductive
			for _, li := range x.loops {
				for _, c := range li.cands {
					c.dead = false
				}
				for k := range li.meas {
					li.meas[k] = true
				}
			}
		}
		ok := x.houdini(r, deadline, mode)
		if r.Err != "" {
			return r
		}
		if ok {
			break
		}
		if len(x.loops) == 0 {
			break
		}
		if time.Now().After(deadline) {
			break
		}
	}
	for _, k := range x.lorder {
		for _, c := range x.loops[k].cands {
			if !c.dead {
				r.Invs = append(r.Invs, x.loopName(x.loops[k])+": "+c.src)
			}
		}
	}
	return r
}

// houdini prunes candidate invariants to an inductive set, then discharges the rest.
func (x *Exec) houdini(r *FnResult, deadline time.Time, mode int) bool {
	hasUser := len(x.con.Invs) > 0
	for x.stage = 0; x.stage <= 1; x.stage++ {
		if x.stage == 1 && !hasUser && mode == 0 {
			break
		}
		for iter := 0; iter < 60; iter++ {
			if err := x.generate(); err != nil {
				r.Err = err.Error()
				return false
			}
			if len(x.loops) == 0 {
				break
			}
			changed := false
			var invs []*Obl
			for _, o := range x.obls {
				if o.Cand != nil && !o.Cand.off(x) || o.Kind == "measure" {
					invs = append(invs, o)
				}
			}
			drop := func(o *Obl) {
				if !o.Cand.dead {
					o.Cand.dead = true
					changed = true
					if debugInv != "" && strings.Contains(o.Name, debugInv) {
						fmt.Fprintf(os.Stderr, "DROP %s (%s) at %s\n", o.Name, o.Status, o.Pos)
					}
				}
			}
			var unk []*Obl
			x.discharge(invs, 1500, false, deadline, func(o *Obl) bool {
				if o.Cand != nil {
					return o.Cand.dead
				}
				return !x.loops[o.Trace[0]].meas[o.Name]
			}, func(o *Obl) {
				if o.Status == "valid" {
					return
				}
				if o.Cand != nil {
					if o.Cand.user && o.Status == "unknown" && !o.Cand.dead {
						unk = append(unk, o)
						return
					}
					drop(o)
				} else {
					x.loops[o.Trace[0]].meas[o.Name] = false
				}
			})
			if time.Now().After(deadline) {
				r.Err = "time budget exceeded while inferring loop invariants"
				return false
			}
			if changed {
				continue
			}
			if len(unk) > 0 {
				// a longer attempt before an invariant from the contract is given up
				x.discharge(unk, 4500, false, deadline, func(o *Obl) bool { return o.Cand.dead }, func(o *Obl) {
					if o.Status != "valid" {
						drop(o)
					}
				})
			}
			if !changed {
				break
			}
		}
	}
	if x.stage > 1 {
		x.stage = 1
	}
	var rest []*Obl
	r.Failed, r.Unknown = nil, nil
	r.Obls = nil
	invN := 0
	for _, o := range x.obls {
		if o.Kind == "measure" {
			continue
		}
		if o.Cand != nil {
			if !o.Cand.dead {
				r.Obls = append(r.Obls, o)
				invN++
			}
			continue
		}
		rest = append(rest, o)
		r.Obls = append(r.Obls, o)
	}
	// termination
	if x.term {
		for _, k := range x.lorder {
			li := x.loops[k]
			if li.measIn || li.meas == nil {
				continue
			}
			alive := ""
			for m, a := range li.meas {
				if a {
					alive = m
				}
			}
			o := &Obl{Kind: "term", Name: x.loopName(li) + " terminates", Pos: x.prog.pos(headerPos(li.header)), Goal: x.tb.Bool(alive != "")}
			if alive != "" {
				o.Status = "valid"
				o.Solver = "measure " + alive
			} else {
				o.Status = "unknown"
			}
			r.Obls = append(r.Obls, o)
		}
	}
	x.discharge(rest, solveMS, true, deadline, nil, nil)
	ok := true
	r.N = 0
	r.Trivial = 0
	r.BySolver = map[string]int{}
	for _, o := range r.Obls {
		r.N++
		r.SolveSecs += o.Secs
		if o.Status == "valid" {
			if o.Solver == "" {
				r.Trivial++
				r.BySolver["simplifier"]++
			} else {
				r.BySolver[o.Solver]++
			}
			continue
		}
		ok = false
		if o.Status == "invalid" {
			r.Failed = append(r.Failed, o)
		} else {
			r.Unknown = append(r.Unknown, o)
		}
	}
	if x.retPaths == 0 && ok {
		r.Vacuous = append(r.Vacuous, "no path reaches a return statement")
	}
	return ok
}

var solveMS = 5000
var debugInv = os.Getenv("GOVC_INV")
var workers = 8
var dumpN int
var maxMode = 1

func (x *Exec) discharge(os_ []*Obl, ms int, model bool, deadline time.Time, skip func(*Obl) bool, each func(*Obl)) {
	type job struct {
		o *Obl
		q string
	}
	var jobs []job
	for _, o := range os_ {
		if o.Goal.IsTrue() {
			o.Status = "valid"
			continue
		}
		triv := false
		for _, p := range o.PC {
			if p == o.Goal || p.IsFalse() {
				triv = true
				break
			}
		}
		if triv {
			o.Status = "valid"
			continue
		}
		jobs = append(jobs, job{o: o})
	}
	// queries are built sequentially (terms are not shared across goroutines) but solved in parallel
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, workers)
	for i := range jobs {
		j := &jobs[i]
		mu.Lock()
		sk := skip != nil && skip(j.o)
		mu.Unlock()
		if sk {
			j.o.Status = "unknown"
			continue
		}
		sem <- struct{}{}
		wg.Add(1)
		go func(j *job, idx int) {
			defer func() { <-sem; wg.Done() }()
			only := ""
			if each != nil && (x.tmplMode == 1 || j.o.Cand == nil || !j.o.Cand.user) {
				only = "first"
			}
			tms := ms
			if each != nil && only == "" {
				tms = 2 * ms
			}
			var dump func(int, string)
			var lastq string
			if os.Getenv("GOVC_DUMP") != "" {
				dump = func(fuel int, q string) { lastq = q }
			}
			depth := 0
			if only == "" {
				depth = 4
				if x.con != nil && x.con.Attrs["merge"] == "on" {
					depth = 7
				}
			}
			var res qres
			if depth > 0 {
				res = x.prove(&mu, j.o.PC, j.o.Goal, 500, only, depth, false, deadline, dump)
			}
			if res.res != "unsat" {
				s0 := res.secs
				res = x.prove(&mu, j.o.PC, j.o.Goal, tms, only, depth/2, model, deadline, dump)
				res.secs += s0
			}
			if d := os.Getenv("GOVC_DUMP"); d != "" && res.res != "unsat" && strings.Contains(j.o.Kind+" "+j.o.Name, d) {
				dumpN++
				os.MkdirAll("/tmp/gd", 0755)
				os.WriteFile(fmt.Sprintf("/tmp/gd/%d.smt2", dumpN), []byte(lastq), 0644)
				fmt.Fprintf(os.Stderr, "dump %d: %s %s %s %s\n", dumpN, res.res, j.o.Kind, j.o.Name, j.o.Pos)
			}
			if os.Getenv("GOVC_T") != "" && res.secs > 1 {
				fmt.Fprintf(os.Stderr, "slow obl %.1fs %s %s %s %s by %s\n", res.secs, res.res, j.o.Kind, j.o.Name, j.o.Pos, res.solver)
			}
			mu.Lock()
			defer mu.Unlock()
			j.o.Secs = res.secs
			j.o.Solver = res.solver
			switch res.res {
			case "unsat":
				j.o.Status = "valid"
			case "sat":
				j.o.Status = "invalid"
				if model {
					j.o.Model = map[string]string{"raw": res.out}
				}
			default:
				j.o.Status = "unknown"
			}
			if each != nil {
				each(j.o)
			}
		}(j, i)
	}
	wg.Wait()
}

// prove decides pc ==> goal: increasing unfolding depth, then case splits on the undecided
// conditions of the specification functions involved.
func (x *Exec) prove(mu *sync.Mutex, pc []*Term, goal *Term, ms int, only string, depth int, model bool, deadline time.Time, dump func(int, string)) qres {
	var res qres
	prev := ""
	mu.Lock()
	pc, goal = x.expand(pc, goal)
	mu.Unlock()
	if goal.IsTrue() {
		return qres{res: "unsat", solver: "simplifier"}
	}
	for fuel := 0; fuel <= x.fuel; fuel++ {
		if time.Now().After(deadline) {
			res.res = "unknown"
			return res
		}
		mu.Lock()
		as := x.closure(append(append([]*Term{}, pc...), x.tb.Not(goal)), fuel)
		var gm []*Term
		if model {
			gm = x.modelTerms()
		}
		q := x.printQuery(as, gm)
		mu.Unlock()
		if q == prev {
			break
		}
		prev = q
		if dump != nil {
			dump(fuel, q)
		}
		r := solve(q, ms, only)
		r.secs += res.secs
		res = r
		if res.res == "unsat" {
			return res
		}
	}
	if depth == 0 {
		return res
	}
	mu.Lock()
	c := x.splitCond(pc, goal)
	mu.Unlock()
	if c == nil {
		return res
	}
	secs := res.secs
	for _, h := range []*Term{c, x.tb.Not(c)} {
		mu.Lock()
		p2 := append(append([]*Term{}, pc...), h)
		if h.Op == "and" {
			p2 = append(append([]*Term{}, pc...), h.Args...)
		}
		// the condition is decided: its occurrences go
		sub := map[*Term]*Term{}
		if h == c {
			sub[c] = x.tb.True()
			if c.Op == "and" {
				for _, a := range c.Args {
					sub[a] = x.tb.True()
				}
			}
		} else {
			sub[c] = x.tb.False()
		}
		for k, v := range sub {
			sub[x.tb.Not(k)] = x.tb.Not(v)
		}
		for i, p := range p2[:len(pc)] {
			p2[i] = x.tb.Subst(p, sub)
		}
		goal := x.tb.Subst(goal, sub)
		for i, p := range p2 {
			p2[i] = x.ctxSimp(append(append([]*Term{}, p2[:i]...), p2[i+1:]...), p)
		}
		g2 := x.ctxSimp(p2, goal)
		mu.Unlock()
		r := x.prove(mu, p2, g2, ms, only, depth-1, model, deadline, dump)
		secs += r.secs
		res = r
		res.secs = secs
		if r.res != "unsat" {
			return res
		}
	}
	return res
}

// splitCond: the first undecided condition in the one-step unfolding of a specification function.
func (x *Exec) splitCond(pc []*Term, goal *Term) *Term {
	base := append(append([]*Term{}, pc...), x.tb.Not(goal))
	seen := map[*Term]bool{}
	var apps []*Term
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			scan(a)
		}
		if t.Op == "app" && !t.hasBV && strings.HasPrefix(t.Name, "f.") {
			apps = append(apps, t)
		}
	}
	for _, b := range base {
		scan(b)
	}
	var cond *Term
	var find func(t *Term)
	fseen := map[*Term]bool{}
	find = func(t *Term) {
		if cond != nil || fseen[t] || t.Op == "forall" || t.Op == "exists" {
			return
		}
		fseen[t] = true
		if t.Op == "ite" && !x.hasSpecApp(t.Args[0]) && !t.Args[0].hasBV {
			cond = t.Args[0]
			return
		}
		for _, a := range t.Args {
			find(a)
		}
	}
	for i := len(base) - 1; i >= 0 && cond == nil; i-- {
		find(base[i])
	}
	for _, t := range apps {
		if cond != nil {
			break
		}
		f := x.unfoldSafe(t)
		if f == nil || f.Op != "=" {
			continue
		}
		find(x.ctxSimp(base, f.Args[1]))
	}
	return cond
}

// modelTerms: leaf terms of the parameters, for replay.
func (x *Exec) modelTerms() []*Term {
	var out []*Term
	for _, p := range x.params {
		switch v := p.v.(type) {
		case *Term:
			out = append(out, v)
		case SliceV:
			if s, ok := v.obj.init.(SeqV); ok {
				out = append(out, s.t)
			}
		}
	}
	return out
}
