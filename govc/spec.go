package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ---------- specification language ----------

type SExpr struct {
	Op    string // int str bool nil ident bin un call index slice field if let forall exists old seqlit result
	S     string
	N     *big.Int
	Args  []*SExpr
	Binds []SBind
	Pos   string
}
type SBind struct{ Name, Type string }

type SpecFunc struct {
	Name   string
	Params []SBind
	Ret    string
	Body   *SExpr // nil: uninterpreted
	Rec    bool
	Lo, Hi *big.Int
	Fuel   int
}
type Clause struct {
	E    *SExpr
	Src  string
	Name string
	Line string
}
type InvT struct {
	Vars []SBind
	E    *SExpr
	Src  string
	Loop int // 0: every loop
}
type Contract struct {
	Pkg, Fn  string // Fn: "Name" or "(*T).Name" or "(T).Name"
	Params   []string
	Results  []string
	Props    []string
	Requires []Clause
	Ensures  []Clause
	Modifies []Clause
	ModAll   bool
	Invs     []InvT
	Uses     []Clause // lemma instances, evaluated at entry
	Attrs    map[string]string
	Line     string
	Extern   bool
}
type Lemma struct {
	Name     string
	Params   []SBind
	Requires []Clause
	Ensures  []Clause
	Uses     []Clause // instances of lemmas (incl. itself, with decreasing measure)
	Measure  *SExpr
	Props    []string
	Trigger  []*SExpr
	Attrs    map[string]string
	Cases    []Clause
	Line     string
}
type Specs struct {
	Funcs     map[string]*SpecFunc
	Contracts map[string]*Contract
	Order     []string
	Lemmas    map[string]*Lemma
	LOrder    []string
	Axioms    []string
	Files     []string
}

// ---- lexer ----
type tok struct {
	k string // id num str op eof
	s string
}

func lex(src string) []tok {
	var ts []tok
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F' || src[j] == 'x' || src[j] == '_') {
				j++
			}
			ts = append(ts, tok{"num", src[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '$':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] == '$' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			ts = append(ts, tok{"id", src[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("bad string %s", src[i:j+1]))
			}
			ts = append(ts, tok{"str", s})
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				panic("bad char " + src[i:])
			}
			ts = append(ts, tok{"num", strconv.Itoa(int(r))})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "::", "..", "==", "!=", "<=", ">=", "&&", "||", "++"}
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{"op", o})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				ts = append(ts, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(ts, tok{"eof", ""})
}

type sparser struct {
	ts  []tok
	p   int
	src string
}

func (p *sparser) peek() tok { return p.ts[p.p] }
func (p *sparser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *sparser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("spec syntax: expected %q at %q in: %s", s, p.peek().s, p.src))
	}
}

func ParseSpec(src string) *SExpr {
	p := &sparser{ts: lex(src), src: src}
	e := p.expr(0)
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("spec syntax: trailing %q in: %s", p.peek().s, src))
	}
	return e
}

var precs = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "++": 6, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *sparser) binds(end string) []SBind {
	var bs []SBind
	for !p.is(end) {
		n := p.next().s
		ty := p.typ()
		bs = append(bs, SBind{n, ty})
		if !p.accept(",") {
			break
		}
	}
	p.expect(end)
	return bs
}
func (p *sparser) typ() string {
	t := p.next().s
	if t == "seq" {
		p.expect("(")
		in := p.typ()
		p.expect(")")
		return "seq(" + in + ")"
	}
	return t
}

func (p *sparser) expr(min int) *SExpr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := precs[t.s]
		if !ok || t.k != "op" || pr < min {
			return l
		}
		p.next()
		var r *SExpr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		// chained comparison a <= b < c
		l = &SExpr{Op: "bin", S: t.s, Args: []*SExpr{l, r}}
	}
}
func (p *sparser) unary() *SExpr {
	t := p.peek()
	if t.k == "op" && t.s == "!" {
		p.next()
		return &SExpr{Op: "un", S: "!", Args: []*SExpr{p.unary()}}
	}
	if t.k == "op" && t.s == "-" {
		p.next()
		return &SExpr{Op: "un", S: "-", Args: []*SExpr{p.unary()}}
	}
	if t.k == "id" {
		switch t.s {
		case "if":
			p.next()
			c := p.expr(0)
			p.expect("then")
			a := p.expr(0)
			p.expect("else")
			b := p.expr(0)
			return &SExpr{Op: "if", Args: []*SExpr{c, a, b}}
		case "let":
			p.next()
			n := p.next().s
			p.expect("=")
			v := p.expr(0)
			p.expect("in")
			return &SExpr{Op: "let", S: n, Args: []*SExpr{v, p.expr(0)}}
		case "forall", "exists":
			p.next()
			bs := p.binds("::")
			return &SExpr{Op: t.s, Binds: bs, Args: []*SExpr{p.expr(0)}}
		}
	}
	return p.postfix(p.primary())
}
func (p *sparser) postfix(e *SExpr) *SExpr {
	for {
		switch {
		case p.accept("."):
			e = &SExpr{Op: "field", S: p.next().s, Args: []*SExpr{e}}
		case p.accept("["):
			if p.accept("..") {
				h := p.exprNoIn()
				p.expect("]")
				e = &SExpr{Op: "slice", Args: []*SExpr{e, nil, h}}
				continue
			}
			i := p.exprNoIn()
			if p.accept("..") {
				if p.accept("]") {
					e = &SExpr{Op: "slice", Args: []*SExpr{e, i, nil}}
					continue
				}
				h := p.exprNoIn()
				p.expect("]")
				e = &SExpr{Op: "slice", Args: []*SExpr{e, i, h}}
				continue
			}
			p.expect("]")
			e = &SExpr{Op: "index", Args: []*SExpr{e, i}}
		default:
			return e
		}
	}
}
func (p *sparser) exprNoIn() *SExpr { return p.expr(0) }
func (p *sparser) primary() *SExpr {
	t := p.next()
	switch t.k {
	case "num":
		n, ok := new(big.Int).SetString(strings.ReplaceAll(t.s, "_", ""), 0)
		if !ok {
			panic("bad number " + t.s)
		}
		return &SExpr{Op: "int", N: n}
	case "str":
		return &SExpr{Op: "str", S: t.s}
	case "id":
		switch t.s {
		case "true", "false":
			return &SExpr{Op: "bool", S: t.s}
		case "nil":
			return &SExpr{Op: "nil"}
		}
		if p.accept("(") {
			var as []*SExpr
			for !p.is(")") {
				as = append(as, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			if t.s == "old" {
				return &SExpr{Op: "old", Args: as}
			}
			return &SExpr{Op: "call", S: t.s, Args: as}
		}
		return &SExpr{Op: "ident", S: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
		if t.s == "[" {
			var as []*SExpr
			for !p.is("]") {
				as = append(as, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect("]")
			return &SExpr{Op: "seqlit", Args: as}
		}
	}
	panic(fmt.Sprintf("spec syntax: unexpected %q in: %s", t.s, p.src))
}

// ---- contract files ----

func LoadSpecs(dir string) *Specs {
	sp := &Specs{Funcs: map[string]*SpecFunc{}, Contracts: map[string]*Contract{}, Lemmas: map[string]*Lemma{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		sp.loadFile(f)
		sp.Files = append(sp.Files, f)
	}
	return sp
}

func (sp *Specs) loadFile(path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	// logical lines: a line starting with whitespace + clause keyword starts a clause,
	// other indented lines continue the previous one.
	type ll struct {
		n      int
		indent bool
		s      string
	}
	var lines []ll
	kw := map[string]bool{"prop": true, "requires": true, "ensures": true, "modifies": true, "inv": true, "use": true, "attr": true, "measure": true, "trigger": true, "case": true}
	for i, raw := range strings.Split(string(data), "\n") {
		s := raw
		if k := strings.Index(s, "//"); k >= 0 && !strings.Contains(s[:k], "\"") {
			s = s[:k]
		}
		if strings.TrimSpace(s) == "" {
			continue
		}
		ind := s[0] == ' ' || s[0] == '\t'
		ts := strings.TrimSpace(s)
		first := strings.FieldsFunc(ts, func(r rune) bool { return r == ' ' || r == '[' || r == '(' || r == '\t' })[0]
		if ind && !kw[first] && len(lines) > 0 {
			lines[len(lines)-1].s += "\n" + ts
			continue
		}
		lines = append(lines, ll{i + 1, ind, ts})
	}
	pkg := ""
	var con *Contract
	var lem *Lemma
	var curProps []string
	for _, l := range lines {
		where := fmt.Sprintf("%s:%d", filepath.Base(path), l.n)
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintf(os.Stderr, "%s: %v\n", where, r)
					os.Exit(3)
				}
			}()
			word, rest := l.s, ""
			if k := strings.IndexAny(l.s, " \t["); k >= 0 {
				word, rest = l.s[:k], strings.TrimSpace(l.s[k:])
			}
			if !l.indent {
				con, lem = nil, nil
				switch word {
				case "package":
					pkg = rest
				case "props":
					curProps = strings.Fields(rest)
				case "spec":
					sp.parseSpecFunc(rest)
				case "lemma":
					p := &sparser{ts: lex(rest), src: rest}
					lem = &Lemma{Name: p.next().s, Attrs: map[string]string{}, Line: where, Props: curProps}
					p.expect("(")
					lem.Params = p.binds(")")
					sp.Lemmas[lem.Name] = lem
					sp.LOrder = append(sp.LOrder, lem.Name)
				case "func", "extern":
					con = parseFuncHead(rest)
					con.Pkg = pkg
					con.Line = where
					con.Props = curProps
					if word == "extern" { // an assumed contract on a dependency: used at call sites, never proved
						con.Extern = true
						con.Props = nil
					}
					key := pkg + "." + con.Fn
					if sp.Contracts[key] != nil {
						panic("duplicate contract " + key)
					}
					sp.Contracts[key] = con
					if !con.Extern {
						sp.Order = append(sp.Order, key)
					}
				default:
					panic("unknown directive " + word)
				}
				return
			}
			cl := func() Clause {
				name := ""
				s := rest
				if strings.HasPrefix(s, "@") {
					k := strings.IndexAny(s, " \t\n")
					name = s[1:k]
					s = strings.TrimSpace(s[k:])
				}
				return Clause{E: ParseSpec(s), Src: s, Name: name, Line: where}
			}
			switch {
			case con != nil:
				switch word {
				case "prop":
					con.Props = strings.Fields(rest)
				case "requires":
					con.Requires = append(con.Requires, cl())
				case "ensures":
					con.Ensures = append(con.Ensures, cl())
				case "modifies":
					if rest == "*" {
						con.ModAll = true
					} else {
						for _, m := range strings.Split(rest, ",") {
							con.Modifies = append(con.Modifies, Clause{E: ParseSpec(m), Src: m})
						}
					}
				case "inv":
					iv := InvT{}
					s := rest
					if strings.HasPrefix(s, "[") {
						k := strings.Index(s, "]")
						p := &sparser{ts: lex(s[1:k] + ")"), src: s}
						iv.Vars = p.binds(")")
						s = strings.TrimSpace(s[k+1:])
					}
					iv.Src = s
					iv.E = ParseSpec(s)
					con.Invs = append(con.Invs, iv)
				case "use":
					con.Uses = append(con.Uses, cl())
				case "attr":
					k, v, _ := strings.Cut(rest, " ")
					con.Attrs[k] = strings.TrimSpace(v)
				default:
					panic("unknown clause " + word)
				}
			case lem != nil:
				switch word {
				case "prop":
					lem.Props = strings.Fields(rest)
				case "requires":
					lem.Requires = append(lem.Requires, cl())
				case "ensures":
					lem.Ensures = append(lem.Ensures, cl())
				case "use":
					lem.Uses = append(lem.Uses, cl())
				case "measure":
					lem.Measure = ParseSpec(rest)
				case "trigger":
					lem.Trigger = append(lem.Trigger, ParseSpec(rest))
				case "case":
					lem.Cases = append(lem.Cases, cl())
				case "attr":
					k, v, _ := strings.Cut(rest, " ")
					lem.Attrs[k] = strings.TrimSpace(v)
				default:
					panic("unknown lemma clause " + word)
				}
			default:
				panic("clause outside of a declaration")
			}
		}()
	}
}

func parseFuncHead(s string) *Contract {
	// Name(p, q) (r, err)   |  (*T).Name(p) (r)
	c := &Contract{Attrs: map[string]string{}}
	i := 0
	if s[0] == '(' {
		k := strings.Index(s, ")")
		i = k + 1
	}
	k := strings.Index(s[i:], "(") + i
	c.Fn = strings.TrimSpace(s[:k])
	rest := s[k:]
	e := strings.Index(rest, ")")
	split := func(x string) []string {
		var out []string
		for _, p := range strings.Split(x, ",") {
			p = strings.TrimSpace(p)
			if p != "" {
				out = append(out, strings.Fields(p)[0])
			}
		}
		return out
	}
	c.Params = split(rest[1:e])
	rest = strings.TrimSpace(rest[e+1:])
	if strings.HasPrefix(rest, "(") {
		c.Results = split(rest[1 : len(rest)-1])
	} else if rest != "" {
		c.Results = split(rest)
	}
	return c
}

func (sp *Specs) parseSpecFunc(s string) {
	f := &SpecFunc{Fuel: 2}
	p := &sparser{ts: lex(s), src: s}
	f.Name = p.next().s
	if f.Name == "rec" {
		f.Rec = true
		f.Name = p.next().s
	}
	p.expect("(")
	f.Params = p.binds(")")
	f.Ret = p.typ()
	if f.Ret == "byte" {
		f.Lo, f.Hi = big.NewInt(0), big.NewInt(255)
	}
	if f.Ret == "nat" {
		f.Lo = big.NewInt(0)
	}
	if p.accept("=") {
		f.Body = p.expr(0)
		if p.peek().k != "eof" {
			panic(fmt.Sprintf("trailing %q", p.peek().s))
		}
	} else {
		f.Rec = true
	}
	if sp.Funcs[f.Name] != nil {
		panic("duplicate spec function " + f.Name)
	}
	sp.Funcs[f.Name] = f
}
