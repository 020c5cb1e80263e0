package main

import (
	"fmt"
	"os"
	"regexp/syntax"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unknownLines: for one arbitrary line, every decision path of the decoder that has an effect may
// only accept lines of the grammar. Decisions on the line are translated to regular languages.
func (c *Check) unknownLines(rule, grammar string, dec *ssa.Function, fields []string) {
	c.scenario("any line", func(s *Scenario) {
		s.listBound = 2
		line := s.SymStr("line", &StrInfo{max: -1, noNL: true})
		s.Eng.InitPkg(dec.Pkg)
		st := s.NewState()
		ret, o := s.callFn(dec, []*Term{s.strSlice([]*Term{line})}, nil, st, nil, dec.Pos())
		if o == nil {
			s.undecided("decoder did not return")
			return
		}
		res := s.deepResult(dec, ret, o)
		if res.k != KOp || res.s != "list" {
			s.undecided("result is not a list")
			return
		}
		gl := parseLang(grammar)
		eff := func(l *Term) *Term {
			r := s.False
			for i := 0; i+1 < len(l.args); i += 2 {
				any := s.False
				for _, f := range fields {
					any = s.Or(any, s.present(s.recField(l.args[i+1], f)))
				}
				r = s.Or(r, s.And(l.args[i], any))
			}
			return r
		}
		cond := s.And(o.g, eff(res))
		paths := 0
		seen := map[string]bool{}
		var path []lit
		var rec func(t *Term)
		rec = func(t *Term) {
			if t == s.False || paths > 20000 {
				return
			}
			if t.k == KIte {
				path = append(path, lit{t.args[0], true})
				rec(t.args[1])
				path[len(path)-1].pol = false
				rec(t.args[2])
				path = path[:len(path)-1]
				return
			}
			paths++
			pos, neg, key := pathLangs(path, line)
			if seen[key] {
				return
			}
			seen[key] = true
			if os.Getenv("RPSHOW") != "" {
				fmt.Println("PATH", key)
			}
			w, found, done := findString(pos, append(neg, gl))
			if !done {
				s.undecided("language search bound reached: " + key)
				return
			}
			if !found {
				s.ok()
				return
			}
			// confirm: the decoder's result for exactly this line
			sb := newSubst()
			sb.m[line] = s.Str(w)
			got := s.subst(res, sb)
			e2 := s.subst(cond, sb)
			if e2 != s.True {
				s.undecided(fmt.Sprintf("a line outside the grammar such as %q is not excluded on a path with effect", w))
				return
			}
			s.Eng.fixAtoms(got, got, new(rnd))
			s.violate(rule, fnName(dec), fmt.Sprintf("the line %q is not part of the grammar, but %s turns it into %.400s", w, fnName(dec), s.show(got)))
		}
		rec(cond)
		if paths > 20000 {
			s.undecided("too many paths")
		}
	})
}

// present: a message field carries something.
func (e *Eng) present(v *Term) *Term {
	return e.app1S(v, func(l *Term) *Term {
		switch {
		case l == e.Nil, l.k == KOp && l.s == "map" && len(l.args) == 0:
			return e.False
		case l.k == KOp && l.s == "list":
			r := e.False
			for i := 0; i < len(l.args); i += 2 {
				r = e.Or(r, l.args[i])
			}
			return r
		case l.sort == SInt:
			return e.Not(e.eqConst(l, 0))
		case l.sort == SStr:
			return e.Not(e.strEq(l, e.Empty))
		case l.k == KBool || l.sort == SBool:
			return l
		}
		return e.True
	})
}

// pathLangs: the languages a decision path requires of (pos) or excludes from (neg) the line.
func pathLangs(path []lit, line *Term) (pos, neg []*lang, key string) {
	return pathLangsFill(path, line, "")
}

// langCandidates: strings meeting the language requirements of the path, with various contents in
// the groups the path leaves open.
func (e *Eng) langCandidates(path []lit, line *Term) (out []*Term) {
	_, _, key := pathLangs(path, line)
	if key == "" {
		return nil
	}
	if e.langMemo == nil {
		e.langMemo = map[string][]*Term{}
	}
	k := line.s + "|" + key
	if v, ok := e.langMemo[k]; ok {
		return v
	}
	for _, fill := range []string{"", "a", "1", "7", "a:b", "a:b:c", "a,b", "1,2", "a|b", "-1", "1:2:3", ":", ",", "|"} {
		pos, neg, _ := pathLangsFill(path, line, fill)
		if w, found, done := findString(pos, neg); done && found {
			out = append(out, e.Str(w))
		}
	}
	e.langMemo[k] = out
	return out
}

// pathLangsFill: as pathLangs, with the last open group of every matched pattern set to fill.
func pathLangsFill(path []lit, line *Term, fill string) (pos, neg []*lang, key string) {
	type grp struct {
		re   string
		lits map[int]string
	}
	groups := map[string]*grp{}
	var order []string
	var keys []string
	for _, l := range path {
		a := l.a
		if a.k != KOp || len(a.args) == 0 {
			continue
		}
		switch {
		case strings.HasPrefix(a.s, "rxmatch:") && a.args[0] == line:
			re := a.s[len("rxmatch:"):]
			if l.pol {
				if groups[re] == nil {
					groups[re] = &grp{re, map[int]string{}}
					order = append(order, re)
				}
			} else {
				neg = append(neg, parseLang(re))
				keys = append(keys, "!"+re)
			}
		case a.s == "eqs" && len(a.args) == 2:
			x, y := a.args[0], a.args[1]
			if x.k == KStr {
				x, y = y, x
			}
			if y.k != KStr {
				continue
			}
			if x == line {
				if l.pol {
					pos = append(pos, litLang(y.s))
					keys = append(keys, "="+y.s)
				} else {
					neg = append(neg, litLang(y.s))
				}
				continue
			}
			if l.pol && x.k == KOp && strings.HasPrefix(x.s, "rxsub:") && x.args[0] == line {
				f := strings.SplitN(x.s, ":", 3)
				n, _ := strconv.Atoi(f[1])
				if groups[f[2]] == nil {
					groups[f[2]] = &grp{f[2], map[int]string{}}
					order = append(order, f[2])
				}
				groups[f[2]].lits[n] = y.s
			}
			if l.pol && x.k == KOp && x.s == "substr" && x.args[0] == line && len(x.args) == 3 && x.args[1].k == KInt && x.args[1].n == 0 && x.args[2].k == KInt && int64(len(y.s)) == x.args[2].n {
				pos = append(pos, prefixLang(y.s))
				keys = append(keys, "^"+y.s)
			}
		case a.s == "hasprefix" && a.args[0] == line && a.args[1].k == KStr:
			if l.pol {
				pos = append(pos, prefixLang(a.args[1].s))
				keys = append(keys, "^"+a.args[1].s)
			} else {
				neg = append(neg, prefixLang(a.args[1].s))
				keys = append(keys, "!^"+a.args[1].s)
			}
		}
	}
	for _, k := range order {
		g := groups[k]
		re, err := syntax.Parse(g.re, syntax.Perl)
		if err != nil {
			continue
		}
		if n := re.MaxCap(); fill != "" && n > 0 {
			if _, ok := g.lits[n]; !ok {
				re = substGroup(re, n, fill)
			}
		}
		for n, v := range g.lits {
			re = substGroup(re, n, v)
			k += fmt.Sprint("#", n, "=", v)
		}
		l, err := compileLang(re)
		if err != nil {
			continue
		}
		pos = append(pos, l)
		keys = append(keys, k)
	}
	return pos, neg, strings.Join(keys, " & ")
}

func prefixLang(p string) *lang {
	l, err := compileLang(&syntax.Regexp{Op: syntax.OpConcat, Sub: []*syntax.Regexp{
		{Op: syntax.OpBeginText}, {Op: syntax.OpLiteral, Rune: []rune(p)}}})
	if err != nil {
		panic(err)
	}
	return l
}
