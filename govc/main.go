package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	if os.Getenv("GOVC_M0") != "" {
		maxMode = 0
	}
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(40 * time.Second); pprof.StopCPUProfile(); w.Close(); os.Exit(7) }()
	}
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "fn" {
		p, err := LoadProgram(repoDir(), "./...")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		sp := LoadSpecs(os.Args[2])
		show := func(k string, r *FnResult) {
			fmt.Printf("%-60s N=%d trivial=%d fail=%d unk=%d paths=%d mode=%d %.1fs %s\n", strings.TrimPrefix(k, "github.com/benedoc-inc/pdfer/"), r.N, r.Trivial, len(r.Failed), len(r.Unknown), r.Paths, r.Mode, r.Secs, r.Err)
			seen := map[string]bool{}
			for _, o := range append(r.Failed, r.Unknown...) {
				s := fmt.Sprintf("   %s %s %s %s", o.Status, o.Kind, o.Name, o.Pos)
				if !seen[s] {
					seen[s] = true
					fmt.Println(s)
				}
			}
		}
		for _, k := range sp.LOrder {
			if len(os.Args) > 3 && !strings.Contains("lemma "+k, os.Args[3]) {
				continue
			}
			show("lemma "+k, CheckLemma(p, sp, sp.Lemmas[k], 120*time.Second))
		}
		for _, k := range sp.Order {
			if len(os.Args) > 3 && !strings.Contains(k, os.Args[3]) {
				continue
			}
			con := sp.Contracts[k]
			f := p.funcs[k]
			if f == nil {
				fmt.Println("no function", k)
				continue
			}
			x := NewExec(p, sp, con, f)
			r := x.CheckFunction(120 * time.Second)
			show(k, r)
			if os.Getenv("GOVC_STAT") != "" {
				fmt.Printf("inc: %d calls %.1fs; solver %d calls %.1fs; restarts %d\n", x.inc.calls, x.inc.spent.Seconds(), solverCalls, float64(solverNanos)/1e9, x.nrestart)
			}
			if os.Getenv("GOVC_V") != "" {
				for _, i := range r.Invs {
					fmt.Println("     inv", i)
				}
				for _, i := range r.Assumed {
					fmt.Println("     assumed", i)
				}
			}
		}
	}
}

func repoDir() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}
