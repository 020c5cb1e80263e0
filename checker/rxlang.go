package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
)

// Regular languages over bytes (ASCII view of the regexp syntax), explored as on-the-fly subset automata.

type lang struct{ p *syntax.Prog }

func compileLang(re *syntax.Regexp) (*lang, error) {
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	return &lang{p}, nil
}

func parseLang(pat string) *lang {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		panic(err)
	}
	l, err := compileLang(re)
	if err != nil {
		panic(err)
	}
	return l
}

func litLang(s string) *lang {
	l, err := compileLang(&syntax.Regexp{Op: syntax.OpConcat, Sub: []*syntax.Regexp{
		{Op: syntax.OpBeginText}, {Op: syntax.OpLiteral, Rune: []rune(s)}, {Op: syntax.OpEndText}}})
	if err != nil {
		panic(err)
	}
	return l
}

// substGroup: the regexp with capture group n replaced by a literal.
func substGroup(re *syntax.Regexp, n int, lit string) *syntax.Regexp {
	if re.Op == syntax.OpCapture && re.Cap == n {
		if lit == "" {
			return &syntax.Regexp{Op: syntax.OpEmptyMatch}
		}
		return &syntax.Regexp{Op: syntax.OpLiteral, Rune: []rune(lit)}
	}
	c := *re
	c.Sub = nil
	for _, s := range re.Sub {
		c.Sub = append(c.Sub, substGroup(s, n, lit))
	}
	return &c
}

// step set of instruction indices; unanchored languages restart at every position.
type rset string

func (l *lang) closure(pcs []int, first, last bool) ([]int, bool) {
	seen := map[int]bool{}
	match := false
	var out []int
	var add func(pc int)
	add = func(pc int) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &l.p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(int(in.Out))
			add(int(in.Arg))
		case syntax.InstCapture, syntax.InstNop:
			add(int(in.Out))
		case syntax.InstEmptyWidth:
			f := syntax.EmptyOp(in.Arg)
			ok := true
			if f&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 && !first {
				ok = false
			}
			if f&(syntax.EmptyEndText|syntax.EmptyEndLine) != 0 && !last {
				ok = false
			}
			if ok {
				add(int(in.Out))
			}
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			out = append(out, pc)
		}
	}
	for _, pc := range pcs {
		add(pc)
	}
	sort.Ints(out)
	return out, match
}

// state: raw entry points (before closure), matched flag (unanchored match already found), first.
type lstate struct {
	pcs     []int
	matched bool
	first   bool
}

func (l *lang) start() lstate { return lstate{[]int{l.p.Start}, false, true} }
func (l *lang) accepts(s lstate) bool {
	if s.matched {
		return true
	}
	_, m := l.closure(s.pcs, s.first, true)
	return m
}
func (l *lang) step(s lstate, b byte) lstate {
	if s.matched {
		return s
	}
	cl, m := l.closure(s.pcs, s.first, false)
	if m { // a match that does not need the end of the text
		return lstate{pcs: nil, matched: true}
	}
	var nx []int
	seen := map[int]bool{}
	for _, pc := range cl {
		in := &l.p.Inst[pc]
		if in.MatchRune(rune(b)) && !seen[int(in.Out)] {
			seen[int(in.Out)] = true
			nx = append(nx, int(in.Out))
		}
	}
	if !seen[l.p.Start] && l.p.StartCond()&syntax.EmptyBeginText == 0 { // a match may start later
		nx = append(nx, l.p.Start)
	}
	sort.Ints(nx)
	return lstate{nx, false, false}
}
func (s lstate) key() string { return fmt.Sprint(s.pcs, s.matched, s.first) }

// findString: a shortest string accepted by every language of pos and by none of neg.
// done=false when the exploration bound was hit.
func findString(pos, neg []*lang) (w string, found, done bool) {
	// byte classes: bytes that every instruction treats alike
	var insts []*syntax.Inst
	for _, l := range append(append([]*lang{}, pos...), neg...) {
		for i := range l.p.Inst {
			switch l.p.Inst[i].Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				insts = append(insts, &l.p.Inst[i])
			}
		}
	}
	sig := map[string]byte{}
	var reps []byte
	order := "Xx7aQz0 _#=,:/.|-?!{}[]()"
	for b := 32; b < 127; b++ {
		order += string(rune(b))
	}
	order += "\t\r\n"
	for i := 0; i < len(order); i++ {
		b := order[i]
		var k strings.Builder
		for _, in := range insts {
			if in.MatchRune(rune(b)) {
				k.WriteByte('1')
			} else {
				k.WriteByte('0')
			}
		}
		if _, ok := sig[k.String()]; !ok {
			sig[k.String()] = b
			reps = append(reps, b)
		}
	}
	type node struct {
		st   []lstate
		prev int
		b    byte
	}
	mk := func(st []lstate) string {
		var sb strings.Builder
		for _, s := range st {
			sb.WriteString(s.key())
			sb.WriteByte('|')
		}
		return sb.String()
	}
	all := append(append([]*lang{}, pos...), neg...)
	var st0 []lstate
	for _, l := range all {
		st0 = append(st0, l.start())
	}
	nodes := []node{{st0, -1, 0}}
	seen := map[string]bool{mk(st0): true}
	for i := 0; i < len(nodes); i++ {
		if len(nodes) > 60000 {
			return "", false, false
		}
		n := nodes[i]
		ok := true
		for j, l := range all {
			if l.accepts(n.st[j]) != (j < len(pos)) {
				ok = false
				break
			}
		}
		if ok {
			var out []byte
			for k := i; nodes[k].prev >= 0; k = nodes[k].prev {
				out = append([]byte{nodes[k].b}, out...)
			}
			return string(out), true, true
		}
		for _, b := range reps {
			nx := make([]lstate, len(all))
			dead := false
			for j, l := range all {
				nx[j] = l.step(n.st[j], b)
				if j < len(pos) && !nx[j].matched && len(nx[j].pcs) == 0 {
					dead = true
				}
			}
			if dead {
				continue
			}
			k := mk(nx)
			if seen[k] {
				continue
			}
			seen[k] = true
			nodes = append(nodes, node{nx, i, b})
		}
	}
	return "", false, true
}

// termLang: the strings a term can denote (an over-approximation), nil when unknown.
func (e *Eng) termRx(t *Term, d int) *syntax.Regexp {
	cat := &syntax.Regexp{Op: syntax.OpConcat}
	for _, p := range e.parts(t) {
		switch {
		case p.k == KStr:
			if p.s != "" {
				cat.Sub = append(cat.Sub, &syntax.Regexp{Op: syntax.OpLiteral, Rune: []rune(p.s)})
			}
		case p.k == KIte && d < 3 && len(leafSet(p)) <= 12:
			alt := &syntax.Regexp{Op: syntax.OpAlternate}
			for _, l := range leafSet(p) {
				alt.Sub = append(alt.Sub, e.termRx(l, d+1))
			}
			cat.Sub = append(cat.Sub, alt)
		case p.k == KOp && p.s == "itoa":
			pat := "(?:0|[1-9][0-9]*)"
			if lo, _ := e.rng(p.args[0]); lo < 0 && !(p.args[0].w == 64 && !p.args[0].sgn) {
				pat = "(?:0|-?[1-9][0-9]*)"
			}
			re, _ := syntax.Parse(pat, syntax.Perl)
			cat.Sub = append(cat.Sub, re)
		default:
			c := e.csetOf(p)
			cls := &syntax.Regexp{Op: syntax.OpCharClass}
			for b := 0; b < 128; b++ {
				if c.has(byte(b)) {
					cls.Rune = append(cls.Rune, rune(b), rune(b))
				}
			}
			if c.in == "" {
				cls.Rune = append(cls.Rune, 128, 0x10FFFF)
			}
			h, tl := firstLast(p)
			if h != 0 {
				cat.Sub = append(cat.Sub, &syntax.Regexp{Op: syntax.OpLiteral, Rune: []rune{rune(h)}})
			}
			hi := -1
			if c.max > 0 && c.max <= 32 && h == 0 {
				hi = c.max
			}
			mn := min(c.min, 8)
			if h != 0 {
				mn = 0
			}
			cat.Sub = append(cat.Sub, &syntax.Regexp{Op: syntax.OpRepeat, Min: mn, Max: hi, Sub: []*syntax.Regexp{cls}})
			if h != 0 {
				cat.Sub = append(cat.Sub, &syntax.Regexp{Op: syntax.OpLiteral, Rune: []rune{rune(tl)}})
			}
		}
	}
	return cat
}

func (e *Eng) termLang(t *Term) *lang {
	l, err := compileLang(&syntax.Regexp{Op: syntax.OpConcat, Sub: []*syntax.Regexp{{Op: syntax.OpBeginText}, e.termRx(t, 0), {Op: syntax.OpEndText}}})
	if err != nil {
		return nil
	}
	return l
}

// matchDecided: does every / no string of the term match?
func (e *Eng) matchDecided(pat string, t *Term) (match, decided bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false, false
	}
	rl, err := compileLang(re)
	tl := e.termLang(t)
	if err != nil || tl == nil {
		return false, false
	}
	if _, found, done := findString([]*lang{tl, rl}, nil); done && !found {
		return false, true
	}
	if _, found, done := findString([]*lang{tl}, []*lang{rl}); done && !found {
		return true, true
	}
	return false, false
}
