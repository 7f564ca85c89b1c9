package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------- the per-property check ----------

type harnessViol struct {
	Kind   string `json:"kind"` // violation | cases | skip
	Test   string `json:"test"`
	Key    string `json:"key"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
	Cases  int    `json:"cases"`
	Bound  string `json:"bound"`
	Sample string `json:"sample"`
	pkg    string
}

type harnessOut struct {
	viols   []harnessViol
	cases   map[string]int
	bounds  map[string]string
	samples []string
	dropped []string
	errs    []string
	secs    float64
	pkgs    []string
}

func goEnv(cache string) []string {
	var out []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOCACHE", "GOPROXY", "GOWORK", "CGO_ENABLED", "GOTOOLCHAIN", "GOTMPDIR":
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOCACHE="+cache)
}

// runHarness runs the executable counterparts of the contracts of one property against the real code.
func runHarness(verif, repo, prop, tier string, seed int, work string, budget time.Duration) *harnessOut {
	t0 := time.Now()
	ho := &harnessOut{cases: map[string]int{}, bounds: map[string]string{}}
	defer func() { ho.secs = time.Since(t0).Seconds() }()
	base := filepath.Join(verif, "harness")
	dirs := map[string][]string{}
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, "_test.go") {
			d, _ := filepath.Rel(base, filepath.Dir(p))
			dirs[d] = append(dirs[d], p)
		}
		return nil
	})
	helper, _ := os.ReadFile(filepath.Join(base, "helper.go.txt"))
	var names []string
	for d := range dirs {
		names = append(names, d)
	}
	sort.Strings(names)
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	for _, d := range names {
		var files []string
		with := map[string]bool{}
		for _, f := range dirs[d] {
			b, _ := os.ReadFile(f)
			if bytes.Contains(b, []byte("TestVerif_"+prop+"_")) {
				files = append(files, f)
				for _, m := range withRe.FindAllStringSubmatch(string(b), -1) {
					with[filepath.Join(filepath.Dir(f), m[1])] = true
				}
			}
		}
		for _, f := range files {
			delete(with, f)
		}
		for f := range with {
			files = append(files, f)
		}
		sort.Strings(files)
		if len(files) == 0 {
			continue
		}
		ho.pkgs = append(ho.pkgs, d)
		wg.Add(1)
		go func(d string, files []string) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			o := runPkgHarness(repo, d, files, string(helper), prop, tier, seed, work, budget)
			mu.Lock()
			defer mu.Unlock()
			ho.viols = append(ho.viols, o.viols...)
			for k, v := range o.cases {
				ho.cases[k] += v
			}
			for k, v := range o.bounds {
				ho.bounds[k] = v
			}
			ho.samples = append(ho.samples, o.samples...)
			ho.dropped = append(ho.dropped, o.dropped...)
			ho.errs = append(ho.errs, o.errs...)
		}(d, files)
	}
	wg.Wait()
	return ho
}

// a harness file names the files whose helpers it uses
var withRe = regexp.MustCompile(`(?m)^// with: (\S+)$`)

var pkgRe = regexp.MustCompile(`(?m)^package (\w+)`)

func runPkgHarness(repo, d string, files []string, helper, prop, tier string, seed int, work string, budget time.Duration) *harnessOut {
	ho := &harnessOut{cases: map[string]int{}, bounds: map[string]string{}}
	wd := filepath.Join(work, strings.ReplaceAll(d, "/", "_"))
	os.MkdirAll(filepath.Join(wd, "tmp"), 0755)
	results := filepath.Join(wd, "results.jsonl")
	bin := filepath.Join(wd, "h.test")
	hidden := map[string]string{}
	// the repository's own tests are not part of the harness binary
	ents, _ := os.ReadDir(filepath.Join(repo, d))
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			hidden[filepath.Join(repo, d, e.Name())] = ""
		}
	}
	live := append([]string{}, files...)
	var out []byte
	var err error
	for {
		rep := map[string]string{}
		for k, v := range hidden {
			rep[k] = v
		}
		pk := map[string]bool{}
		for _, f := range live {
			b, _ := os.ReadFile(f)
			m := pkgRe.FindSubmatch(b)
			rep[filepath.Join(repo, d, "zz_verif_"+filepath.Base(f))] = f
			pk[string(m[1])] = true
		}
		for p := range pk {
			hf := filepath.Join(wd, "helper_"+p+"_test.go")
			os.WriteFile(hf, []byte(strings.Replace(helper, "package HELPER", "package "+p, 1)), 0644)
			rep[filepath.Join(repo, d, "zz_verif_helper_"+p+"_test.go")] = hf
		}
		ov := filepath.Join(wd, "overlay.json")
		j, _ := json.Marshal(map[string]any{"Replace": rep})
		os.WriteFile(ov, j, 0644)
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./"+d)
		cmd.Dir = repo
		cmd.Env = os.Environ()
		out, err = cmd.CombinedOutput()
		if err == nil {
			break
		}
		// a harness file whose in-package subject changed shape is set aside; exported interfaces are compared elsewhere
		var bad string
		for _, f := range live {
			if bytes.Contains(out, []byte("zz_verif_"+filepath.Base(f))) || bytes.Contains(out, []byte(filepath.Base(f)+":")) {
				bad = f
				break
			}
		}
		if bad == "" || len(live) == 1 {
			ho.errs = append(ho.errs, fmt.Sprintf("harness for %s does not build: %s", d, trunc(string(out), 1500)))
			return ho
		}
		ho.dropped = append(ho.dropped, filepath.Base(bad))
		var nl []string
		for _, f := range live {
			if f != bad {
				nl = append(nl, f)
			}
		}
		live = nl
	}
	cmd := exec.Command(bin, "-test.run", "^TestVerif_"+prop+"_", "-test.timeout", fmt.Sprintf("%ds", int(budget.Seconds())), "-test.count=1")
	cmd.Dir = filepath.Join(repo, d)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = append(os.Environ(), "VERIF_RESULTS="+results, "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "TMPDIR="+filepath.Join(wd, "tmp"), "HOME="+filepath.Join(wd, "tmp"))
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err = cmd.Start()
	if err == nil {
		tm := time.AfterFunc(budget+20*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		err = cmd.Wait()
		tm.Stop()
	}
	nv := 0
	if f, e := os.Open(results); e == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var h harnessViol
			if json.Unmarshal(sc.Bytes(), &h) != nil {
				continue
			}
			h.pkg = d
			switch h.Kind {
			case "violation":
				nv++
				ho.viols = append(ho.viols, h)
			case "cases":
				ho.cases[h.Test] += h.Cases
				if h.Bound != "" {
					ho.bounds[h.Test] = h.Bound
				}
				if h.Sample != "" {
					ho.samples = append(ho.samples, h.Test+": "+trunc(h.Sample, 300))
				}
			}
		}
		f.Close()
	}
	if err != nil && nv == 0 {
		ho.viols = append(ho.viols, harnessViol{Kind: "violation", Test: "process", Key: "crash", Detail: "the harness process ended abnormally: " + err.Error() + "\n" + tail(buf.String(), 4000), pkg: d})
	}
	return ho
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type known struct{ prop, key, text string }

// known_findings.txt: "known: property=<id> key=<key> <what fails>" (fixed: lines suppress nothing).
func loadKnown(verif string) []known {
	var out []known
	b, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, known{m[1], m[2], m[3]})
		}
	}
	return out
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Int("seed", 1, "seed")
	budget := fs.Int("budget", 560, "seconds for proofs")
	nohar := fs.Bool("noharness", false, "")
	noproof := fs.Bool("noproof", false, "")
	fs.Parse(args)
	t0 := time.Now()
	work, err := os.MkdirTemp("", "govc-"+*prop+"-")
	if err != nil {
		fmt.Println("cannot create scratch directory:", err)
		return 1
	}
	defer os.RemoveAll(work)
	vdir := filepath.Join(*verif, "evidence", "violations")
	os.MkdirAll(vdir, 0755)
	old, _ := filepath.Glob(filepath.Join(vdir, *prop+"-*"))
	for _, f := range old {
		os.Remove(f)
	}
	// the executable contracts, in parallel with the proofs
	hch := make(chan *harnessOut, 1)
	hb := 240 * time.Second
	if *tier == "thorough" {
		hb = 700 * time.Second
	}
	var concrete atomic.Bool // a failing input is already known
	kf := loadKnown(*verif)
	go func() {
		if *nohar {
			hch <- &harnessOut{}
			return
		}
		ho := runHarness(*verif, *repo, *prop, *tier, *seed, work, hb)
		for _, h := range ho.viols {
			isKnown := false
			for _, k := range kf {
				isKnown = isKnown || k.prop == *prop && k.key == h.Key
			}
			if !isKnown {
				concrete.Store(true)
			}
		}
		hch <- ho
	}()

	type pf struct {
		what, kind, name, pos, status string
		raw                           string
	}
	var fails []pf
	var results []*FnResult
	var notes, assumed, missing []string
	bySolver := map[string]int{}
	sp := func() (s *Specs) {
		defer func() {
			if r := recover(); r != nil {
				fails = append(fails, pf{what: "contracts", kind: "contract", name: fmt.Sprint("contract file error: ", r), status: "error"})
			}
		}()
		return LoadSpecs(filepath.Join(*verif, "contracts"))
	}()
	var p *Program
	if sp != nil && !*noproof {
		p, err = LoadProgram(*repo, "./...")
		if err != nil {
			fails = append(fails, pf{what: "load", kind: "load", name: "the repository does not load: " + err.Error(), status: "error"})
		}
	}
	solver := 0.0
	subjects := 0
	deadline := t0.Add(time.Duration(*budget) * time.Second)
	if p != nil && sp != nil {
		var lemmas []*Lemma
		for _, n := range sp.LOrder {
			if hasStr(sp.Lemmas[n].Props, *prop) {
				lemmas = append(lemmas, sp.Lemmas[n])
			}
		}
		done := map[string]bool{}
		var queue []string
		for _, k := range sp.Order {
			if hasStr(sp.Contracts[k].Props, *prop) {
				queue = append(queue, k)
			}
		}
		var mu sync.Mutex
		sem := make(chan struct{}, 3)
		var wg sync.WaitGroup
		run := func(f func() *FnResult) {
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				r := f()
				mu.Lock()
				results = append(results, r)
				mu.Unlock()
			}()
		}
		per := func() time.Duration {
			d := time.Until(deadline)
			if d > 280*time.Second {
				d = 280 * time.Second
			}
			if concrete.Load() && d > 100*time.Second {
				d = 100 * time.Second
			}
			if d < time.Second {
				d = time.Second
			}
			return d
		}
		for _, l := range lemmas {
			l := l
			run(func() *FnResult { return CheckLemma(p, sp, l, per()) })
		}
		for len(queue) > 0 {
			for _, k := range queue {
				if done[k] {
					continue
				}
				done[k] = true
				con := sp.Contracts[k]
				f := p.funcs[k]
				if f == nil {
					missing = append(missing, k)
					continue
				}
				subjects++
				run(func() *FnResult {
					r := NewExec(p, sp, con, f).CheckFunction(per())
					return r
				})
			}
			wg.Wait()
			queue = nil
			for _, r := range results {
				for _, c := range r.Called {
					if !done[c] && sp.Contracts[c] != nil && !hasStr(queue, c) {
						queue = append(queue, c)
					}
				}
			}
			sort.Strings(queue)
		}
		wg.Wait()
		// an obligation that stayed open is tried once more, alone, before it is reported
		for i, r := range results {
			if r.Err == "" && len(r.Failed)+len(r.Unknown) == 0 && len(r.Vacuous) == 0 || strings.Contains(r.Err, "contract does not apply") || time.Until(deadline) < 30*time.Second || concrete.Load() {
				continue
			}
			var n *FnResult
			if l := sp.Lemmas[r.Lemma]; l != nil {
				n = CheckLemma(p, sp, l, per())
			} else if f := p.funcs[r.Con.Pkg+"."+r.Con.Fn]; f != nil {
				n = NewExec(p, sp, r.Con, f).CheckFunction(per())
			}
			if n != nil && n.Err == "" && len(n.Failed)+len(n.Unknown)+len(n.Vacuous) == 0 {
				results[i] = n
			}
		}
		sort.Slice(results, func(i, j int) bool { return results[i].Fn < results[j].Fn })
		for _, r := range results {
			solver += r.SolveSecs
			for k, n := range r.BySolver {
				bySolver[k] += n
			}
			for _, a := range r.Assumed {
				if !hasStr(assumed, a) {
					assumed = append(assumed, a)
				}
			}
			if r.Err != "" {
				exported := true
				if r.Con != nil && strings.Contains(r.Err, "contract does not apply") {
					n := r.Con.Fn[strings.LastIndex(r.Con.Fn, ".")+1:]
					exported = n[0] >= 'A' && n[0] <= 'Z'
				}
				if !exported {
					notes = append(notes, r.Fn+": "+r.Err+" (unexported: its callers are checked against its body)")
					continue
				}
				fails = append(fails, pf{what: r.Fn, kind: "error", name: r.Err, status: "unproved"})
			}
			seen := map[string]bool{}
			for _, o := range append(append([]*Obl{}, r.Failed...), r.Unknown...) {
				k := o.Kind + o.Name + o.Pos
				if seen[k] {
					continue
				}
				seen[k] = true
				f := pf{what: r.Fn, kind: o.Kind, name: o.Name, pos: o.Pos, status: o.Status}
				if o.Model != nil {
					f.raw = o.Model["raw"]
				}
				fails = append(fails, f)
			}
			for _, v := range r.Vacuous {
				fails = append(fails, pf{what: r.Fn, kind: "vacuity", name: v, status: "vacuous"})
			}
		}
		if subjects == 0 && len(lemmas) == 0 {
			fails = append(fails, pf{what: *prop, kind: "vacuity", name: "no function under contract is left for this property: " + strings.Join(missing, ", "), status: "missing"})
		}
	}
	ho := <-hch

	// ---- report ----
	nviol := 0
	for _, h := range ho.viols {
		isKnown := false
		for _, k := range kf {
			if k.prop == *prop && k.key == h.Key {
				isKnown = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
			}
		}
		if isKnown {
			continue
		}
		nviol++
		if nviol > 5 {
			continue
		}
		rp := filepath.Join(vdir, fmt.Sprintf("%s-%d.json", *prop, nviol))
		var obl []string
		for _, f := range fails {
			obl = append(obl, fmt.Sprintf("%s: %s %s %s (%s)", f.what, f.kind, f.name, f.pos, f.status))
		}
		j, _ := json.MarshalIndent(map[string]any{"property": *prop, "package": h.pkg, "test": h.Test, "key": h.Key, "input": h.Input, "detail": h.Detail, "seed": *seed, "tier": *tier,
			"failed_obligations": obl, "replay": fmt.Sprintf("VERIF_SEED=%d %s/run.sh replay %s %s", *seed, *verif, *prop, h.Test)}, "", " ")
		os.WriteFile(rp, j, 0644)
		fmt.Printf("%s: %s\n  input: %s\n", h.Test, trunc(h.Detail, 600), trunc(h.Input, 400))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
	}
	for _, f := range fails {
		fmt.Printf("unproved: %s: %s %s %s (%s)\n", f.what, f.kind, trunc(f.name, 300), f.pos, f.status)
	}
	for _, e := range ho.errs {
		fmt.Println(e)
	}
	if nviol == 0 && (len(fails) > 0 || len(ho.errs) > 0) {
		nviol++
		rp := filepath.Join(vdir, fmt.Sprintf("%s-proof.json", *prop))
		var l []map[string]string
		for _, f := range fails {
			l = append(l, map[string]string{"function": f.what, "kind": f.kind, "obligation": f.name, "position": f.pos, "status": f.status, "verifier_output": trunc(f.raw, 6000)})
		}
		j, _ := json.MarshalIndent(map[string]any{"property": *prop, "failed_obligations": l, "harness_errors": ho.errs, "searched_cases": ho.cases, "replay": fmt.Sprintf("%s/run.sh check %s quick", *verif, *prop)}, "", " ")
		os.WriteFile(rp, j, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, rp)
	}
	// ---- evidence ----
	nobl, ndis := 0, 0
	var fns []map[string]any
	for _, r := range results {
		bad := len(r.Failed) + len(r.Unknown)
		nobl += r.N
		if r.Err == "" {
			ndis += r.N - bad
		}
		m := map[string]any{"name": strings.TrimPrefix(r.Fn, "github.com/benedoc-inc/pdfer/"), "obligations": r.N, "discharged": r.N - bad, "paths": r.Paths, "seconds": round(r.Secs), "solver_seconds": round(r.SolveSecs), "by": r.BySolver}
		if r.Err != "" {
			m["error"] = r.Err
		}
		if len(r.Inlined) > 0 {
			m["inlined_repo_functions"] = r.Inlined
		}
		if len(r.Called) > 0 {
			m["callee_contracts_used"] = r.Called
		}
		fns = append(fns, m)
	}
	total := 0
	for _, n := range ho.cases {
		total += n
	}
	sort.Strings(assumed)
	sort.Strings(ho.samples)
	trusted := []string{
		"govc (this verifier: SSA symbolic execution, simplifier, lemma instantiation)", "golang.org/x/tools/go/ssa v0.52.0", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
		"Go slices and strings are at most 2^47 elements long", "goroutines: the functions under contract are executed sequentially",
	}
	level := "proof"
	if nobl == 0 {
		level = "other"
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": level, "wall_s": round(time.Since(t0).Seconds()), "violations": nviol,
		"coverage": map[string]any{
			"obligations": nobl, "discharged": ndis, "checker_cmd": "govc check -prop " + *prop + " (z3-new, z3, cvc5)", "trusted_base": trusted,
			"functions_under_contract": fns, "discharged_by": bySolver, "solver_seconds": round(solver),
			"contracts_without_subject": missing, "notes": notes,
			"bounded_executable_contracts": map[string]any{"label": "bounded, never counted as proved", "cases": ho.cases, "bounds": ho.bounds, "seconds": round(ho.secs), "set_aside": ho.dropped},
			"evaluations":                  total, "samples": ho.samples,
			"explanation": "obligations are the verification conditions generated from /repo's current source for the functions listed; evaluations are runs of the real code against executable contracts, which supply the failing inputs",
		},
		"assumptions": assumed,
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), j, 0644)
	fmt.Printf("%s: %d/%d obligations discharged over %d functions and lemmas, %d executable cases, %.1fs (%d cpus)\n", *prop, ndis, nobl, len(results), total, time.Since(t0).Seconds(), runtime.NumCPU())
	if nviol > 0 {
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }
