package main

import (
	"regexp"
	"regexp/syntax"
	"strings"
)

// constBytes: the bytes of a term that denotes a literal string.
func (t *Term) constBytes() (string, bool) {
	switch t.Op {
	case "empty":
		return "", true
	case "unit":
		if t.Args[0].isInt() {
			return string([]byte{byte(t.Args[0].Int64())}), true
		}
	case "concat":
		s := ""
		for _, a := range t.Args {
			b, ok := a.constBytes()
			if !ok {
				return "", false
			}
			s += b
		}
		return s, true
	}
	return "", false
}

// patternBytes: the bytes of a regular expression built from literal text and formatted integers; an integer stands
// as the digit 1 (the number of groups and the least length of a match do not depend on its digits).
func (t *Term) patternBytes() (string, bool) {
	if s, ok := t.constBytes(); ok {
		return s, true
	}
	if t.Op != "concat" {
		return "", false
	}
	out := ""
	for _, a := range t.Args {
		if a.Op == "app" && a.Name == "itoa" {
			out += "1"
			continue
		}
		s, ok := a.constBytes()
		if !ok {
			return "", false
		}
		if strings.Contains(s, "{") {
			return "", false
		}
		out += s
	}
	return out, true
}

func reFact(name, pat string) (int64, bool) {
	switch name {
	case "regroups":
		re, err := regexp.Compile(pat)
		if err != nil {
			return 0, false
		}
		return int64(re.NumSubexp()), true
	}
	r, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return 0, false
	}
	if name == "reminlen" {
		return int64(reMin(r)), true
	}
	must := map[int]bool{}
	reMust(r, must)
	n := 0
	for must[n+1] {
		n++
	}
	return int64(n), true
}

// reMin: no match is shorter than this many bytes.
func reMin(r *syntax.Regexp) int {
	switch r.Op {
	case syntax.OpLiteral:
		return len(r.Rune)
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return reMin(r.Sub[0])
	case syntax.OpRepeat:
		return r.Min * reMin(r.Sub[0])
	case syntax.OpConcat:
		n := 0
		for _, s := range r.Sub {
			n += reMin(s)
		}
		return n
	case syntax.OpAlternate:
		n := reMin(r.Sub[0])
		for _, s := range r.Sub[1:] {
			n = min(n, reMin(s))
		}
		return n
	}
	return 0
}

// reMust: the groups that take part in every match.
func reMust(r *syntax.Regexp, m map[int]bool) {
	switch r.Op {
	case syntax.OpCapture:
		m[r.Cap] = true
		reMust(r.Sub[0], m)
	case syntax.OpConcat:
		for _, s := range r.Sub {
			reMust(s, m)
		}
	case syntax.OpPlus:
		reMust(r.Sub[0], m)
	}
}

// reDigits: the groups that take part in every match and match one or more digits only.
func reDigits(pat string) []int {
	r, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	must := map[int]bool{}
	reMust(r, must)
	var out []int
	var walk func(r *syntax.Regexp)
	walk = func(r *syntax.Regexp) {
		if r.Op == syntax.OpCapture && must[r.Cap] {
			s := r.Sub[0]
			if s.Op == syntax.OpPlus {
				s = s.Sub[0]
				if s.Op == syntax.OpCharClass && len(s.Rune) == 2 && s.Rune[0] >= '0' && s.Rune[1] <= '9' {
					out = append(out, r.Cap)
				}
			}
		}
		for _, s := range r.Sub {
			walk(s)
		}
	}
	walk(r)
	return out
}
