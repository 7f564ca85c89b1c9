package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	fset  *token.FileSet
	ssa   *ssa.Program
	pkgs  map[string]*ssa.Package
	funcs map[string]*ssa.Function
	repo  string
	mod   string

	mu    sync.Mutex
	loops map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
	names map[*ssa.Function]map[ssa.Value][]string
}

func LoadProgram(repo string, pats ...string) (*Program, error) {
	p := &Program{fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, repo: repo,
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}, names: map[*ssa.Function]map[ssa.Value][]string{}}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo, Fset: p.fset, Env: os.Environ(),
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, q := range ps {
		for _, e := range q.Errors {
			return nil, fmt.Errorf("%s: %v", q.PkgPath, e)
		}
		if q.Module != nil {
			p.mod = q.Module.Path
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	p.ssa = prog
	for _, q := range prog.AllPackages() {
		if q.Pkg.Path() == p.mod || strings.HasPrefix(q.Pkg.Path(), p.mod+"/") {
			q.Build()
			p.pkgs[q.Pkg.Path()] = q
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Synthetic == "" && f.Object() != nil && p.inRepo(f) {
			p.funcs[fnKey(f)] = f
		}
	}
	for _, q := range p.pkgs {
		for _, m := range q.Members {
			if f, ok := m.(*ssa.Function); ok && f.Synthetic == "" {
				p.funcs[fnKey(f)] = f
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(ty)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							p.funcs[fnKey(f)] = f
						}
					}
				}
			}
		}
	}
	return p, nil
}

func (p *Program) inRepo(f *ssa.Function) bool {
	pk := f.Package()
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Package()
	}
	if pk == nil && f.Parent() != nil {
		return p.inRepo(f.Parent())
	}
	if pk == nil {
		return false
	}
	return pk.Pkg.Path() == p.mod || strings.HasPrefix(pk.Pkg.Path(), p.mod+"/")
}

func (p *Program) pos(pos token.Pos) string {
	q := p.fset.Position(pos)
	r, err := filepath.Rel(p.repo, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func (p *Program) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	p.mu.Lock()
	defer p.mu.Unlock()
	if l, ok := p.loops[f]; ok {
		return l
	}
	l := natLoops(f)
	p.loops[f] = l
	return l
}

func (p *Program) debugNames(f *ssa.Function) map[ssa.Value][]string {
	p.mu.Lock()
	defer p.mu.Unlock()
	if m, ok := p.names[f]; ok {
		return m
	}
	m := map[ssa.Value][]string{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && d.Object() != nil && !d.IsAddr {
				if _, isVar := d.Object().(*types.Var); !isVar {
					continue
				}
				n := d.Object().Name()
				if !hasName(m[d.X], n) {
					m[d.X] = append(m[d.X], n)
				}
			}
		}
	}
	p.names[f] = m
	return m
}

// conOK: the contract still fits the function's signature.
func (p *Program) conOK(c *Contract, f *ssa.Function) bool {
	return len(c.Params) == len(paramTypes(f)) && len(c.Results) == f.Signature.Results().Len()
}

// paramTypes: receiver and parameter types from the signature (bodyless functions have no SSA parameters).
func paramTypes(f *ssa.Function) []types.Type {
	var ts []types.Type
	if len(f.Params) > 0 {
		for _, p := range f.Params {
			ts = append(ts, p.Type())
		}
		return ts
	}
	if r := f.Signature.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		ts = append(ts, f.Signature.Params().At(i).Type())
	}
	return ts
}
