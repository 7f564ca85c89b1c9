package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// maxLen: no Go slice or string is longer than the 47-bit user address space.
var maxLen = new(big.Int).Lsh(big.NewInt(1), 47)

// ---------- building a query ----------

type query struct {
	decls   map[string]string
	order   []string
	usesOpq bool
	usesFlt bool
}

// closure collects the assertions for (pc and not goal): facts sharing symbols, ranges, unfoldings, lemmas.
func (x *Exec) closure(base []*Term, fuel int) []*Term {
	tb := x.tb
	out := append([]*Term{}, base...)
	seenT := map[*Term]bool{}
	inOut := map[*Term]bool{}
	for _, t := range base {
		inOut[t] = true
	}
	unfolded := map[*Term]bool{}
	syms := map[string]bool{}
	var level []*Term // applications found at the current level
	ranges := map[*Term]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if seenT[t] {
			return
		}
		seenT[t] = true
		for _, a := range t.Args {
			scan(a)
		}
		switch t.Op {
		case "var":
			syms[t.Name] = true
		case "app":
			if !t.hasBV {
				syms[fmt.Sprintf("#%d", t.ID)] = true
				if strings.HasPrefix(t.Name, "f.") && !unfolded[t] {
					level = append(level, t)
				}
				if u := specUF[t.Name]; u != nil && u.ax != nil && !nestedCipher(t) {
					x.ufApp(u, t.Args) // a rewritten application has the facts of its function too
				}
			}
		}
		if !t.hasBV && t.Sort == SInt {
			switch t.Op {
			case "var", "app", "dtsel", "select", "nth", "nthi", "nthb", "seq.indexof":
				ranges[t] = true
			}
		}
	}
	for _, t := range base {
		scan(t)
	}
	addFacts := func() {
		for {
			n := 0
			for _, f := range x.facts {
				if inOut[f] {
					continue
				}
				if x.touches(f, syms) {
					inOut[f] = true
					out = append(out, f)
					scan(f)
					n++
				}
			}
			if n == 0 {
				return
			}
		}
	}
	addFacts()
	for k := 0; k < fuel; k++ {
		cur := level
		level = nil
		for _, t := range cur {
			if unfolded[t] {
				continue
			}
			unfolded[t] = true
			f := x.unfoldSafe(t)
			if f != nil && f.Op == "=" && f.Args[0] == t {
				f = tb.mkEq(t, x.ctxSimp(base, f.Args[1]))
			}
			if f != nil && !f.IsTrue() && !inOut[f] {
				inOut[f] = true
				out = append(out, f)
				scan(f)
			}
		}
		addFacts()
		if len(level) == 0 {
			break
		}
	}
	if x.lemmaOn {
		for _, f := range x.lemmaInstances(seenT) {
			if !inOut[f] {
				inOut[f] = true
				out = append(out, f)
				scan(f)
			}
		}
		addFacts()
	}
	for _, f := range x.subFacts(seenT) {
		if !inOut[f] {
			inOut[f] = true
			out = append(out, f)
			scan(f)
		}
	}
	// congruence of the digests and ciphers, spelled out for pairs of applications
	byName := map[string][]*Term{}
	for t := range seenT {
		if t.Op == "app" && !t.hasBV && digestName[t.Name] {
			byName[t.Name] = append(byName[t.Name], t)
		}
	}
	for _, n := range digestNames {
		ts := byName[n]
		if len(ts) > 6 {
			continue
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
		for i := range ts {
			for j := i + 1; j < len(ts); j++ {
				var eq []*Term
				for k := range ts[i].Args {
					eq = append(eq, tb.mkEq(ts[i].Args[k], ts[j].Args[k]))
				}
				if f := tb.Implies(tb.And(eq...), tb.mkEq(ts[i], ts[j])); !f.IsTrue() && !inOut[f] {
					inOut[f] = true
					out = append(out, f)
				}
			}
		}
	}
	// program values fit in the address space
	if x.lemma == nil {
		var vs []*Term
		for t := range seenT {
			if t.Op == "var" && strings.HasPrefix(t.Sort, "(Seq ") {
				vs = append(vs, t)
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
		for _, v := range vs {
			out = append(out, tb.mk("<=", SBool, "", nil, tb.Len(v), tb.BigInt(maxLen)))
		}
	}
	// one more round of range facts for everything reachable
	var rs []*Term
	for t := range ranges {
		rs = append(rs, t)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].ID < rs[j].ID })
	for _, t := range rs {
		lo, hi := bounds(t)
		var c []*Term
		if lo != nil {
			c = append(c, tb.mk("<=", SBool, "", nil, tb.BigInt(lo), t))
		}
		if hi != nil {
			c = append(c, tb.mk("<=", SBool, "", nil, t, tb.BigInt(hi)))
		}
		if len(c) > 0 {
			out = append(out, tb.And(c...))
		}
	}
	return out
}

func (x *Exec) unfoldSafe(t *Term) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(specErr); ok {
				panic(unsupported{"unfolding " + t.Name + ": " + s.msg})
			}
			panic(e)
		}
	}()
	return x.unfold(t)
}

// touches: f mentions at least one symbol already present, and is about it.
func (x *Exec) touches(f *Term, syms map[string]bool) bool {
	ss, ok := x.factSyms[f]
	if !ok {
		m := map[string]bool{}
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.Op == "var" {
				m[t.Name] = true
			}
			if t.Op == "app" && !t.hasBV {
				m[fmt.Sprintf("#%d", t.ID)] = true
			}
			for _, a := range t.Args {
				rec(a)
			}
		}
		rec(f)
		for k := range m {
			ss = append(ss, k)
		}
		// a fact about an application is keyed by the application with the largest id
		best := ""
		bid := -1
		for _, k := range ss {
			if k[0] == '#' {
				n := 0
				fmt.Sscanf(k, "#%d", &n)
				if n > bid {
					bid, best = n, k
				}
			}
		}
		if best != "" {
			ss = nil
			for k := range m {
				if k[0] == '#' {
					ss = append(ss, k)
				}
			}
		}
		x.factSyms[f] = ss
	}
	for _, k := range ss {
		if syms[k] {
			return true
		}
	}
	return false
}

func (x *Exec) printQuery(asserts []*Term, getModel []*Term) string {
	// count sharing
	cnt := map[*Term]int{}
	var order []*Term
	decl := map[string]string{}
	var declOrder []string
	usesOpq, usesFlt := false, false
	sorts := map[string]bool{}
	addSort := func(s string) {
		if sorts[s] {
			return
		}
		sorts[s] = true
		if strings.Contains(s, SOpaque) {
			usesOpq = true
		}
		if strings.Contains(s, SReal) {
			usesFlt = true
		}
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
		addSort(t.Sort)
		switch t.Op {
		case "var":
			if _, ok := decl[t.Name]; !ok {
				decl[t.Name] = fmt.Sprintf("(declare-const %s %s)", sym(t.Name), t.Sort)
				declOrder = append(declOrder, t.Name)
			}
		case "app":
			if _, ok := decl[t.Name]; !ok {
				var as []string
				for _, a := range t.Args {
					as = append(as, a.Sort)
					addSort(a.Sort)
				}
				decl[t.Name] = fmt.Sprintf("(declare-fun %s (%s) %s)", sym(t.Name), strings.Join(as, " "), t.Sort)
				declOrder = append(declOrder, t.Name)
			}
		case "forall", "exists":
			for _, b := range t.Binders {
				addSort(b.Sort)
			}
		}
		order = append(order, t)
	}
	for _, t := range asserts {
		visit(t)
	}
	for _, t := range getModel {
		visit(t)
	}
	for _, ax := range x.quantAxioms {
		visit(ax)
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	// datatypes used (all registered ones, in dependency order)
	var dts []string
	need := map[string]bool{}
	var addDT func(n string)
	addDT = func(n string) {
		d := x.tb.dts.m[n]
		if d == nil || need[n] {
			return
		}
		need[n] = true
		for _, c := range d.Ctors {
			for _, s := range c.Sorts {
				for _, m := range x.tb.dts.order {
					if strings.Contains(s, m) && containsSort(s, m) {
						addDT(m)
					}
				}
				addSort(s)
			}
		}
		dts = append(dts, n)
	}
	var ks []string
	for s := range sorts {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	for _, s := range ks {
		for _, m := range x.tb.dts.order {
			if containsSort(s, m) {
				addDT(m)
			}
		}
	}
	if usesOpq || len(dts) > 0 {
		sb.WriteString("(declare-sort Opq 0)\n")
	}
	if usesFlt || len(dts) > 0 {
		sb.WriteString("(declare-sort Flt 0)\n")
	}
	for _, n := range dts {
		d := x.tb.dts.m[n]
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) ((", d.Name)
		for _, c := range d.Ctors {
			fmt.Fprintf(&sb, "(%s", sym(c.Name))
			for i, s := range c.Sels {
				fmt.Fprintf(&sb, " (%s %s)", sym(s), c.Sorts[i])
			}
			sb.WriteString(")")
		}
		sb.WriteString(")))\n")
	}
	for _, n := range declOrder {
		sb.WriteString(decl[n])
		sb.WriteByte('\n')
	}
	names := map[*Term]string{}
	for _, t := range order {
		if cnt[t] > 1 && len(t.Args) > 0 && !t.hasBV && !underQuant(t) {
			nm := fmt.Sprintf("$t%d", t.ID)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", nm, t.Sort, printTerm(t, names))
			names[t] = nm
		}
	}
	for _, t := range x.quantAxioms {
		fmt.Fprintf(&sb, "(assert %s)\n", printNamed(t, names))
	}
	for _, t := range asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", printNamed(t, names))
	}
	sb.WriteString("(check-sat)\n")
	for _, t := range getModel {
		fmt.Fprintf(&sb, "(get-value (%s))\n", printNamed(t, names))
	}
	return sb.String()
}
func printNamed(t *Term, names map[*Term]string) string {
	if n, ok := names[t]; ok {
		return n
	}
	return printTerm(t, names)
}
func underQuant(t *Term) bool { return false }
func containsSort(s, m string) bool {
	for i := 0; i+len(m) <= len(s); i++ {
		if s[i:i+len(m)] == m {
			before := i == 0 || s[i-1] == ' ' || s[i-1] == '('
			after := i+len(m) == len(s) || s[i+len(m)] == ' ' || s[i+len(m)] == ')'
			if before && after {
				return true
			}
		}
	}
	return false
}

// ---------- running solvers ----------

type solverSpec struct {
	name string
	args func(ms int) []string
}

var solvers = []solverSpec{
	{"z3-5.3.2", func(ms int) []string {
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)}
	}},
	{"cvc5-1.1.2", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--strings-exp", "--produce-models", fmt.Sprintf("--tlimit=%d", ms)}
	}},
	{"z3-4.8.12", func(ms int) []string {
		return []string{"z3", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)}
	}},
}

var procSem = make(chan struct{}, 10)
var solverCalls int64
var solverNanos int64
var queryCache sync.Map // sha -> result

type qres struct {
	res    string
	solver string
	out    string
	secs   float64
}

const wallFactor = 6

// cpuMS: CPU time used so far by a solver process this program started.
func cpuMS(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := strings.LastIndexByte(string(b), ')')
	f := strings.Fields(string(b[i+1:]))
	if i < 0 || len(f) < 13 {
		return 0
	}
	u, _ := strconv.Atoi(f[11])
	v, _ := strconv.Atoi(f[12])
	return (u + v) * 10
}

func runSolver(sp solverSpec, q string, ms int, stop chan struct{}) (string, string, float64) {
	select {
	case procSem <- struct{}{}:
	case <-stop:
		return "unknown", "", 0
	}
	defer func() { <-procSem }()
	a := sp.args(ms * wallFactor)
	t0 := time.Now()
	cmd := exec.Command(a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(q)
	var ob strings.Builder
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return "error", err.Error(), 0
	}
	go func() { done <- cmd.Wait() }()
	// the limit is on the solver's own CPU time, so that the answer does not depend on the machine's load
	end := t0.Add(time.Duration(ms*wallFactor+1500) * time.Millisecond)
wait:
	for step := ms / 4; ; step = 50 {
		select {
		case <-done:
			break wait
		case <-stop:
			cmd.Process.Kill()
			<-done
			break wait
		case <-time.After(time.Duration(max(step, 20)) * time.Millisecond):
			if c := cpuMS(cmd.Process.Pid); c > ms || time.Now().After(end) {
				cmd.Process.Kill()
				<-done
				break wait
			}
		}
	}
	d := time.Since(t0)
	atomic.AddInt64(&solverCalls, 1)
	atomic.AddInt64(&solverNanos, int64(d))
	out := ob.String()
	first := strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
	if first != "sat" && first != "unsat" {
		if strings.Contains(out, "(error") && os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR", sp.name, out[:min(len(out), 400)])
			os.WriteFile("/tmp/govc_err.smt2", []byte(q), 0644)
		}
		first = "unknown"
	}
	return first, out, d.Seconds()
}

// solve runs the portfolio; the first definite answer wins.
func solve(q string, ms int, only string) qres {
	h := fmt.Sprintf("%x|%d|%s", sha256.Sum256([]byte(q)), ms, only)
	if r, ok := queryCache.Load(h); ok {
		return r.(qres)
	}
	var r qres
	r.res = "unknown"
	// quick attempt with the first solver, then all
	quick := ms / 4
	if quick < 400 {
		quick = 400
	}
	res, out, secs := runSolver(solvers[0], q, quick, nil)
	r.secs = secs
	if res != "unknown" {
		r.res, r.solver, r.out = res, solvers[0].name, out
	} else if only == "" {
		ch := make(chan qres, len(solvers))
		stop := make(chan struct{})
		defer close(stop)
		for _, sp := range solvers {
			go func(sp solverSpec) {
				res, out, secs := runSolver(sp, q, ms, stop)
				ch <- qres{res, sp.name, out, secs}
			}(sp)
		}
		for range solvers {
			k := <-ch
			if k.res != "unknown" && r.res == "unknown" {
				sec := r.secs
				r = k
				r.secs += sec
				break
			}
		}
	}
	queryCache.Store(h, r)
	return r
}

// ---------- incremental feasibility solver ----------

type IncSolver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	dead  bool
	stack []*Term
	decls map[string]int // symbol -> stack depth at declaration (0 global)
	opq   bool
	dts   map[string]bool
	n     int
	cache map[string]string
	full  bool // also consult sequence theory
	calls int
	spent time.Duration
}

func NewInc() *IncSolver {
	return &IncSolver{cache: map[string]string{}}
}

// Check decides pc and c with a small budget (used for pruning and for overflow elimination only:
// "unsat" answers are definite, anything else is treated as feasible).
func (s *IncSolver) Check(x *Exec, pc []*Term, c *Term) string {
	if !x.hasSpecApp(c) {
		var p2 []*Term
		for _, p := range pc {
			if !x.hasSpecApp(p) {
				p2 = append(p2, p)
			}
		}
		pc = p2
	}
	// relevant slice of the path condition: terms sharing symbols with c, transitively
	base := relevant(x, pc, c)
	var kb strings.Builder
	for _, p := range base {
		fmt.Fprintf(&kb, "%d,", p.ID)
	}
	fmt.Fprintf(&kb, "|%d %v", c.ID, s.full)
	k := kb.String()
	if r, ok := s.cache[k]; ok {
		return r
	}
	t0 := time.Now()
	r := s.check1(x, base, c)
	s.calls++
	s.spent += time.Since(t0)
	if d := time.Since(t0); d > 100*time.Millisecond && os.Getenv("GOVC_T") != "" {
		fmt.Fprintln(os.Stderr, "slow inc", d, r, c)
	}
	s.cache[k] = r
	return r
}

func (s *IncSolver) check1(x *Exec, base []*Term, c *Term) string {
	ts := append(append([]*Term{}, base...), c)
	// facts about the symbols involved (lengths, ranges)
	all := x.closureLight(ts)
	res := s.run(x.printAbs(all))
	if res == "unsat" || !s.full {
		return res
	}
	q := x.printQuery(all, nil)
	return s.run(strings.TrimPrefix(q, "(set-logic ALL)\n"))
}

// printAbs renders the arithmetic skeleton of the assertions: every non-arithmetic term becomes an
// opaque constant (or an uninterpreted function of its integer index). Only weakens: "unsat" is sound.
func (x *Exec) printAbs(asserts []*Term) string {
	tb := x.tb
	var body, decls strings.Builder
	declared := map[string]bool{}
	lens := map[*Term]bool{}
	var extra []string
	memo := map[*Term]string{}
	decl := func(n, sig string) string {
		if !declared[n] {
			declared[n] = true
			decls.WriteString("(declare-fun " + n + " " + sig + ")\n")
		}
		return n
	}
	var pr func(t *Term) string
	length := func(t *Term) string { return pr(tb.Len(t)) }
	nary := func(op string, t *Term) string {
		var sb strings.Builder
		sb.WriteString("(" + op)
		for _, a := range t.Args {
			sb.WriteString(" " + pr(a))
		}
		return sb.String() + ")"
	}
	pr = func(t *Term) string {
		if r, ok := memo[t]; ok {
			return r
		}
		var r string
		switch t.Op {
		case "true", "false":
			r = t.Op
		case "int":
			r = smtInt(t.Val)
		case "and", "or", "not", "=>", "<=", "<", "+":
			r = nary(t.Op, t)
		case "*":
			nc := 0
			for _, a := range t.Args {
				if !a.isInt() {
					nc++
				}
			}
			if nc <= 1 {
				r = nary("*", t)
			}
		case "div", "mod":
			if t.Args[1].isInt() && t.Args[1].Val.Sign() > 0 {
				r = nary(t.Op, t)
			}
		case "ite":
			if t.Sort == SInt || t.Sort == SBool {
				r = nary("ite", t)
			}
		case "=":
			s := t.Args[0].Sort
			if s == SInt || s == SBool {
				r = nary("=", t)
			} else {
				r = decl(fmt.Sprintf("b%d", t.ID), "() Bool")
				if strings.HasPrefix(s, "(Seq ") && !t.hasBV {
					memo[t] = r
					extra = append(extra, "(=> "+r+" (= "+length(t.Args[0])+" "+length(t.Args[1])+"))")
				}
			}
		case "len":
			s := t.Args[0]
			r = decl(fmt.Sprintf("l%d", s.ID), "() Int")
			memo[t] = r
			if !lens[s] && !t.hasBV {
				lens[s] = true
				extra = append(extra, "(<= 0 "+r+")")
				if s.Op == "extract" {
					o, n, l := pr(s.Args[1]), pr(s.Args[2]), length(s.Args[0])
					extra = append(extra, fmt.Sprintf("(=> (and (<= 0 %s) (<= 0 %s) (<= (+ %s %s) %s)) (= %s %s))", o, n, o, n, l, r, n))
					extra = append(extra, fmt.Sprintf("(<= %s %s)", r, l))
				}
			}
		case "nth", "nthb", "nthi":
			if t.Sort == SInt && !t.hasBV {
				r = "(" + decl(fmt.Sprintf("n%d", t.Args[0].ID), "(Int) Int") + " " + pr(t.Args[1]) + ")"
			}
		}
		if r == "" {
			switch t.Sort {
			case SBool:
				r = decl(fmt.Sprintf("b%d", t.ID), "() Bool")
			case SInt:
				r = decl(fmt.Sprintf("i%d", t.ID), "() Int")
			default:
				r = "?"
			}
		}
		if len(r) > 80 && (t.Sort == SInt || t.Sort == SBool) && r[0] == '(' {
			srt := "Int"
			if t.Sort == SBool {
				srt = "Bool"
			}
			n := fmt.Sprintf("d%d", t.ID)
			decls.WriteString("(define-fun " + n + " () " + srt + " " + r + ")\n")
			r = n
		}
		memo[t] = r
		return r
	}
	for _, t := range asserts {
		if t.Op == "forall" || t.Op == "exists" || t.hasBV {
			continue
		}
		body.WriteString("(assert " + pr(t) + ")\n")
	}
	for _, e := range extra {
		body.WriteString("(assert " + e + ")\n")
	}
	return decls.String() + body.String() + "(check-sat)\n"
}

func (s *IncSolver) run(q string) string {
	if s.cmd == nil || s.dead {
		s.start()
	}
	s.n++
	fmt.Fprintf(s.in, "(push 1)\n%s(pop 1)\n(echo \"done%d\")\n", q, s.n)
	res := "unknown"
	end := fmt.Sprintf("done%d", s.n)
	type lr struct {
		s   string
		err error
	}
	for {
		ch := make(chan lr, 1)
		go func() {
			l, err := s.out.ReadString('\n')
			ch <- lr{l, err}
		}()
		select {
		case l := <-ch:
			if l.err != nil {
				s.kill()
				return "unknown"
			}
			t := strings.TrimSpace(l.s)
			if t == end {
				return res
			}
			if t == "sat" || t == "unsat" {
				res = t
			}
			if strings.HasPrefix(t, "(error") && os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "INC ERROR", t)
				os.WriteFile("/tmp/govc_inc_err.smt2", []byte(q), 0644)
			}
		case <-time.After(3 * time.Second):
			s.kill()
			return "unknown"
		}
	}
}
func (s *IncSolver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2", "-t:2000", "rlimit=300000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	s.dead = false
	if err := s.cmd.Start(); err != nil {
		s.dead = true
	}
}
func (s *IncSolver) kill() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.dead = true
	s.cmd = nil
}
func (s *IncSolver) Close() { s.kill() }

func termSyms(x *Exec, t *Term) []string {
	if r, ok := x.symCache[t]; ok {
		return r
	}
	m := map[string]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "var" || t.Op == "app" && len(t.Args) == 0 {
			m[t.Name] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	x.symCache[t] = r
	return r
}

func relevant(x *Exec, pc []*Term, c *Term) []*Term {
	syms := map[string]bool{}
	for _, s := range termSyms(x, c) {
		syms[s] = true
	}
	used := make([]bool, len(pc))
	for {
		n := 0
		for i, p := range pc {
			if used[i] {
				continue
			}
			for _, s := range termSyms(x, p) {
				if syms[s] {
					used[i] = true
					n++
					for _, s2 := range termSyms(x, p) {
						syms[s2] = true
					}
					break
				}
			}
		}
		if n == 0 {
			break
		}
	}
	var out []*Term
	for i, p := range pc {
		if used[i] {
			out = append(out, p)
		}
	}
	return out
}

// closureLight: facts and ranges, no unfolding.
func (x *Exec) closureLight(base []*Term) []*Term {
	save := x.lemmaOn
	x.lemmaOn = false
	defer func() { x.lemmaOn = save }()
	return x.closure(base, 0)
}

// nestedCipher: a cipher applied to the result of a cipher; its inverse law would produce further applications without end.
func nestedCipher(t *Term) bool {
	c := map[string]bool{"rc4": true, "cbcenc": true, "cbcdec": true, "aesenc": true, "aesdec": true}
	if !c[t.Name] {
		return false
	}
	a := t.Args[len(t.Args)-1]
	return a.Op == "app" && c[a.Name]
}

var digestNames = []string{"md5", "sha256", "rc4", "cbcenc", "cbcdec", "aesenc", "aesdec"}
var digestName = map[string]bool{"md5": true, "sha256": true, "rc4": true, "cbcenc": true, "cbcdec": true, "aesenc": true, "aesdec": true}
