package main

import (
	"encoding/base64"
	"fmt"
	"go/types"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---- substitution and constant folding of derived terms

type Subst struct {
	m    map[*Term]*Term // symbols and atoms
	memo map[*Term]*Term
}

func newSubst() *Subst { return &Subst{m: map[*Term]*Term{}, memo: map[*Term]*Term{}} }

func (e *Eng) subst(t *Term, s *Subst) *Term {
	if t.isConst() {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	var r *Term
	switch t.k {
	case KSym:
		r = t
		if v, ok := s.m[t]; ok {
			r = v
		}
	case KIte:
		var c *Term
		if v, ok := s.m[t.args[0]]; ok {
			c = v
		} else {
			c = e.substAtom(t.args[0], s)
		}
		switch c {
		case e.True:
			r = e.subst(t.args[1], s)
		case e.False:
			r = e.subst(t.args[2], s)
		default:
			r = e.ite(c, e.subst(t.args[1], s), e.subst(t.args[2], s))
		}
	case KOp:
		if v, ok := s.m[t]; ok {
			r = v
			break
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = e.subst(a, s)
			if args[i] != a {
				ch = true
			}
		}
		if !ch {
			r = t
		} else {
			r = e.rebuild(t, args)
		}
	default:
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = e.subst(a, s)
			if args[i] != a {
				ch = true
			}
		}
		r = t
		if ch {
			r = e.mk(&Term{k: t.k, sort: t.sort, w: t.w, sgn: t.sgn, n: t.n, s: t.s, x: t.x, args: args})
		}
	}
	s.memo[t] = r
	return r
}

// substAtom returns the boolean value of an atom under the substitution.
func (e *Eng) substAtom(a *Term, s *Subst) *Term {
	if v, ok := s.m[a]; ok && v.sort == SBool {
		return v
	}
	r := e.subst(a, s)
	if r.sort == SBool && (r.k == KBool || r.k == KIte) {
		return r
	}
	return e.atom(r)
}

// rebuild applies the operation of t to new arguments, folding constants.
func (e *Eng) rebuild(t *Term, a []*Term) *Term {
	same := func() *Term {
		return e.mk(&Term{k: KOp, s: t.s, sort: t.sort, w: t.w, sgn: t.sgn, n: t.n, x: t.x, args: a})
	}
	lift := func(f func() *Term) *Term { return f() }
	_ = lift
	// distribute over decision diagrams in scalar operations
	isStruct := t.sort == SAny || t.s == "pb" || t.s == "json" || t.s == "jsonindent"
	if !isStruct && t.s != "concat" && t.s != "trimjoin" {
		for i, x := range a {
			if x.k == KIte && ddSize(x, map[*Term]bool{}, 60) <= 60 {
				return e.app1S(x, func(l *Term) *Term {
					b := append([]*Term(nil), a...)
					b[i] = l
					return e.boolOrVal(e.rebuild(t, b))
				})
			}
		}
	}
	switch t.s {
	case "concat":
		return e.Concat(a...)
	case "substr":
		if len(a) == 3 {
			if a[0].k == KStr && a[1].k == KInt && a[2].k == KInt {
				lo, hi := clampI(a[1].n, 0, int64(len(a[0].s))), clampI(a[2].n, 0, int64(len(a[0].s)))
				if lo > hi {
					lo = hi
				}
				return e.Str(a[0].s[lo:hi])
			}
			return e.SubStr(a[0], a[1], a[2])
		}
		if a[0].k == KStr && a[1].k == KInt {
			return e.Str(a[0].s[clampI(a[1].n, 0, int64(len(a[0].s))):])
		}
		return e.SubStr(a[0], a[1], nil)
	case "charat":
		if a[0].k == KStr && a[1].k == KInt {
			if a[1].n < 0 || a[1].n >= int64(len(a[0].s)) {
				return e.IntT(0, 8, false)
			}
			return e.IntT(int64(a[0].s[a[1].n]), 8, false)
		}
		return e.CharAt(a[0], a[1])
	case "strlen":
		return e.StrLen(a[0])
	case "itoa":
		return e.Itoa(a[0])
	case "atoi":
		if a[0].k == KStr {
			v, _ := strconv.Atoi(a[0].s)
			return e.Int(int64(v))
		}
		v, _ := e.Atoi(a[0])
		return v
	case "atoiok":
		_, ok := e.Atoi(a[0])
		return ok
	case "lin":
		l := linF{m: map[*Term]int64{}, c: t.n}
		for i := 0; i+1 < len(a); i += 2 {
			e.addLin(&l, a[i+1], a[i].n)
		}
		return e.fromLin(l, t.w, t.sgn)
	case "bits":
		bs := t.x.([]bitRef)
		base := t.args[:len(t.args)-1]
		nb := make([]bitRef, len(bs))
		ext := map[*Term][]bitRef{}
		for i, b := range base {
			ext[b] = e.bitsOf(a[i])
		}
		for i, b := range bs {
			if b.t == nil {
				nb[i] = b
			} else {
				nb[i] = ext[b.t][b.b]
			}
		}
		return e.fromBits(nb, t.w, t.sgn)
	case "add", "sub", "mul", "quo", "rem", "and", "or", "xor", "andnot", "shl", "shr":
		return e.bin(t.s, a[0], a[1])
	case "fadd", "fsub", "fmul", "fquo":
		return e.floatBin(t.s[1:], a[0], a[1])
	case "feq", "flt":
		return e.cmpLeaf(t.s[1:], a[0], a[1])
	case "eq", "lt", "ltv":
		n := t.s
		if n == "ltv" {
			n = "lt"
		}
		return e.cmp(n, a[0], a[1])
	case "ltu":
		return e.cmp("lt", a[0], a[1])
	case "eqs":
		return e.strEq(a[0], a[1])
	case "lts":
		return e.cmpLeaf("lt", a[0], a[1])
	case "contains":
		return e.Contains(a[0], a[1])
	case "hasprefix":
		return e.HasPrefix(a[0], a[1])
	case "hassuffix":
		return e.HasSuffix(a[0], a[1])
	case "trim:both", "trim:left", "trim:right":
		n := t.s[5:]
		return e.TrimSet(a[0], a[1].s, n != "right", n != "left", n)
	case "count":
		n := int64(0)
		for _, x := range a {
			if x == e.True {
				n++
			} else if x != e.False {
				return nil
			}
		}
		return e.Int(n)
	case "replaceall":
		return e.ReplaceAll(a[0], a[1], a[2])
	case "replacen":
		if a[0].k == KStr && a[3].k == KInt {
			return e.Str(strings.Replace(a[0].s, a[1].s, a[2].s, int(a[3].n)))
		}
	case "b64":
		if a[0].k == KStr {
			return e.Str(base64.StdEncoding.EncodeToString([]byte(a[0].s)))
		}
	case "unb64":
		v, _ := e.unb64(a[0])
		return v
	case "b64ok":
		_, ok := e.unb64(a[0])
		return ok
	case "trimjoin":
		for _, x := range a {
			if x.k != KStr {
				return same()
			}
		}
		return e.Str(trimJoin(a))
	case "stripjson":
		// removes empty objects; identity on text without braces
		if a[0].k == KStr && !strings.Contains(a[0].s, "{}") {
			return a[0]
		}
	case "i2f":
		if a[0].k == KInt {
			return e.Float(float64(a[0].n))
		}
	case "f2i":
		if a[0].k == KFloat {
			return e.IntT(int64(a[0].f), t.w, t.sgn)
		}
	case "ftoa":
		if a[0].k == KFloat {
			return e.fmtFloat(a[0], byte(a[1].n), int(a[2].n), int(a[3].n))
		}
	case "parsefloat":
		v, _ := e.parseFloat(a[0], a[1])
		return v
	case "parsefloatok":
		_, v := e.parseFloat(a[0], a[1])
		return v
	case "chr":
		return e.chr(a[0])
	case "int2str":
		if a[0].k == KInt {
			return e.Str(string(rune(a[0].n)))
		}
	case "index", "lastindex":
		if a[0].k == KStr && a[1].k == KStr {
			if t.s == "index" {
				return e.Int(int64(strings.Index(a[0].s, a[1].s)))
			}
			return e.Int(int64(strings.LastIndex(a[0].s, a[1].s)))
		}
	case "cut0", "cut1":
		if a[0].k == KStr {
			x, y, _ := strings.Cut(a[0].s, a[1].s)
			if t.s == "cut0" {
				return e.Str(x)
			}
			return e.Str(y)
		}
	case "strings.ToUpper", "strings.ToLower":
		if a[0].k == KStr {
			if t.s == "strings.ToUpper" {
				return e.Str(strings.ToUpper(a[0].s))
			}
			return e.Str(strings.ToLower(a[0].s))
		}
	case "zeros":
		if a[0].k == KInt && a[0].n >= 0 && a[0].n < 1<<20 {
			return e.Str(strings.Repeat("\x00", int(a[0].n)))
		}
	case "repeat":
		if a[0].k == KStr && a[1].k == KInt && a[1].n >= 0 && a[1].n < 4096 {
			return e.Str(strings.Repeat(a[0].s, int(a[1].n)))
		}
	case "math.Abs":
		if a[0].k == KFloat {
			return e.Float(math.Abs(a[0].f))
		}
	case "math.Ceil":
		if a[0].k == KFloat {
			return e.Float(math.Ceil(a[0].f))
		}
	case "math.Floor":
		if a[0].k == KFloat {
			return e.Float(math.Floor(a[0].f))
		}
	case "math.Round":
		if a[0].k == KFloat {
			return e.Float(math.Round(a[0].f))
		}
	case "isnil":
		return e.refEq(a[0], e.Nil)
	}
	switch {
	case strings.HasPrefix(t.s, "fmt:%") && len(a) == 1:
		sp := t.s[4:]
		switch a[0].k {
		case KInt:
			return e.Str(fmt.Sprintf(sp, a[0].n))
		case KStr:
			return e.Str(fmt.Sprintf(sp, a[0].s))
		case KFloat:
			return e.Str(fmt.Sprintf(sp, a[0].f))
		}
	case strings.HasPrefix(t.s, "rxmatch:"):
		re := regexp.MustCompile(t.s[8:])
		return e.rxMatch(re, a[0])
	case strings.HasPrefix(t.s, "rxsub:"):
		re := t.x.(*regexp.Regexp)
		i, _ := strconv.Atoi(strings.SplitN(t.s, ":", 3)[1])
		r := e.Regex(re, a[0])
		if r.decided {
			if !r.match || i >= len(r.subs) {
				return e.Empty
			}
			return r.subs[i]
		}
	case strings.HasPrefix(t.s, "field:"):
		if a[0].k == KStr && a[1].k == KInt {
			f := strings.SplitN(a[0].s, t.s[6:], int(a[2].n))
			if a[1].n < int64(len(f)) {
				return e.Str(f[a[1].n])
			}
			return e.Empty
		}
	case strings.HasPrefix(t.s, "split:") && strings.HasSuffix(t.s, ":len"):
		if a[0].k == KStr {
			x := t.s[6 : len(t.s)-4]
			j := strings.LastIndexByte(x, ':')
			n, _ := strconv.Atoi(x[j+1:])
			return e.Int(int64(len(strings.SplitN(a[0].s, x[:j], n))))
		}
	case strings.HasPrefix(t.s, "enum:"):
		return same()
	}
	return same()
}

func (e *Eng) boolOrVal(t *Term) *Term { return t }

func clampI(v, lo, hi int64) int64 {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// ---- comparison

type Diff struct {
	path string
	g    *Term
	a, b *Term
}

type cmpState struct {
	e      *Eng
	diffs  []Diff
	seen   map[mkey3]bool
	budget int
	obl    int
}

// Compare walks two deep values under guard g and returns the positions where their normal
// forms differ.
func (e *Eng) Compare(path string, a, b, g *Term) (diffs []Diff, obligations int) {
	cs := &cmpState{e: e, seen: map[mkey3]bool{}, budget: 200000}
	cs.cmp(path, a, b, g)
	return cs.diffs, cs.obl
}

func (cs *cmpState) cmp(path string, a, b, g *Term) {
	e := cs.e
	if g == e.False {
		return
	}
	cs.obl++
	if a == b {
		return
	}
	a, b = e.constrain(a, g), e.constrain(b, g)
	if a == b {
		return
	}
	k := mkey3{a.id, b.id, g.id}
	if cs.seen[k] {
		return
	}
	cs.seen[k] = true
	if len(cs.diffs) > 40 {
		return
	}
	if a.k == KIte || b.k == KIte {
		// distinct leaf pairs
		type pr struct{ a, b *Term }
		idx := map[pr]int{}
		var gs []*Term
		var ps []pr
		memo := map[mkey]bool{}
		var rec func(x, y, h *Term, n int)
		over := false
		rec = func(x, y, h *Term, n int) {
			if h == e.False || x == y || over {
				return
			}
			if x.k == KIte || y.k == KIte {
				v := top3(x, y, nil)
				at := e.atom(v)
				rec(e.cof(x, v, true), e.cof(y, v, true), e.And(h, at), n+1)
				rec(e.cof(x, v, false), e.cof(y, v, false), e.And(h, e.Not(at)), n+1)
				return
			}
			p := pr{x, y}
			if i, ok := idx[p]; ok {
				gs[i] = e.Or(gs[i], h)
				return
			}
			if len(ps) > 4000 {
				over = true
				return
			}
			idx[p] = len(ps)
			ps = append(ps, p)
			gs = append(gs, h)
		}
		_ = memo
		rec(a, b, g, 0)
		if over {
			cs.diffs = append(cs.diffs, Diff{path, g, a, b})
			return
		}
		for i, p := range ps {
			cs.leaf(path, p.a, p.b, gs[i])
		}
		return
	}
	cs.leaf(path, a, b, g)
}

func (cs *cmpState) leaf(path string, a, b, g *Term) {
	e := cs.e
	if a == b {
		return
	}
	isL := func(t *Term) bool { return t.k == KOp && t.s == "list" }
	if isL(a) && isL(b) {
		pa, pb := e.posForm(a), e.posForm(b)
		end := e.Op("end", SAny, 0, false)
		for i := 0; i < len(pa) || i < len(pb); i++ {
			x, y := end, end
			if i < len(pa) {
				x = pa[i]
			}
			if i < len(pb) {
				y = pb[i]
			}
			cs.cmp(fmt.Sprintf("%s[%d]", path, i), x, y, g)
		}
		return
	}
	if a.k == KOp && b.k == KOp && a.s == b.s && len(a.args) == len(b.args) && (a.sort == SAny || a.s == "pb" || a.s == "json" || a.s == "jsonindent" || a.s == "trimjoin" || a.s == "b64") && len(a.args) > 0 {
		var u *types.Struct
		if strings.HasPrefix(a.s, "rec:") {
			u, _ = a.x.(types.Type).Underlying().(*types.Struct)
		}
		k := 0
		for i := range a.args {
			nm := fmt.Sprintf("%s.%s#%d", path, a.s, i)
			if u != nil {
				for k < u.NumFields() && skipField(u, k) {
					k++
				}
				nm = path + "." + u.Field(k).Name()
				k++
			}
			cs.cmp(nm, a.args[i], b.args[i], g)
		}
		return
	}
	if a.sort == SStr && b.sort == SStr {
		pa, pb := e.parts(a), e.parts(b)
		for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
			pa, pb = pa[1:], pb[1:]
		}
		for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
		}
		if len(pa) == 1 && len(pb) == 1 && (pa[0] != a || pb[0] != b) {
			cs.cmp(path, pa[0], pb[0], g)
			return
		}
	}
	// decisions buried inside
	if (a.deepIte || b.deepIte) && cs.budget > 0 {
		v := innerAtom(a)
		if w := innerAtom(b); v == nil || w != nil && w.id < v.id {
			v = w
		}
		if v != nil {
			cs.budget--
			for _, pol := range []bool{true, false} {
				h := e.atom(v)
				if !pol {
					h = e.Not(h)
				}
				h = e.And(g, h)
				if h == e.False {
					continue
				}
				cs.cmp(path, e.assumeDeep(a, v, pol), e.assumeDeep(b, v, pol), h)
			}
			return
		}
	}
	if ne := e.And(g, e.Not(e.deepEq(a, b))); ne == e.False {
		return
	} else {
		g = ne
	}
	cs.diffs = append(cs.diffs, Diff{path, g, a, b})
}

func innerAtom(t *Term) *Term {
	if !t.deepIte {
		return nil
	}
	if t.k == KIte {
		if v := innerAtom(t.args[0]); v != nil {
			return v
		}
		return t.args[0]
	}
	var best *Term
	for _, a := range t.args {
		if v := innerAtom(a); v != nil && (best == nil || v.id < best.id) {
			best = v
		}
	}
	return best
}

// assumeDeep rewrites a term under the assumption atom==pol, also inside operations.
func (e *Eng) assumeDeep(t, atom *Term, pol bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if !t.deepIte {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.k == KIte {
			switch e.implied(atom, pol, t.args[0]) {
			case 1:
				r = rec(t.args[1])
			case 0:
				r = rec(t.args[2])
			default:
				c := t.args[0]
				if n := rec(c); n != c {
					c = n
				} else {
					c = e.atom(c)
				}
				if c.k != KIte && c.k != KBool {
					c = e.atom(c)
				}
				r = e.ite(c, rec(t.args[1]), rec(t.args[2]))
			}
		} else {
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			r = t
			if ch {
				if t.k == KOp {
					r = e.rebuild(t, args)
				} else {
					r = e.mk(&Term{k: t.k, sort: t.sort, w: t.w, sgn: t.sgn, n: t.n, s: t.s, x: t.x, args: args})
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// ---- witness search: a valuation of the input symbols under which two summaries differ

type Witness struct {
	vals map[*Term]*Term
	a, b *Term
}

func (e *Eng) collect(ts []*Term) (syms []*Term, atoms []*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.k == KSym {
			syms = append(syms, t)
			return
		}
		if t.k == KIte {
			atoms = append(atoms, t.args[0])
		}
		if t.k == KOp && t.s == "bits" {
			for _, a := range t.args[:len(t.args)-1] {
				rec(a)
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].s < syms[j].s })
	return
}

func isUnknown(s *Term) bool { return s.k == KSym && strings.HasPrefix(s.s, "?") }

// hasUnknown: the term depends on something the analysis could not model.
func (e *Eng) hasUnknown(ts ...*Term) bool {
	syms, _ := e.collect(ts)
	for _, s := range syms {
		if isUnknown(s) {
			return true
		}
	}
	return false
}

type rnd uint64

func (r *rnd) next(n int) int {
	*r ^= *r << 13
	*r ^= *r >> 7
	*r ^= *r << 17
	return int(uint64(*r) >> 11 % uint64(n))
}

// pickPath chooses one satisfying path of diagram g as literals.
func (e *Eng) pickPath(g *Term, r *rnd) []lit {
	var out []lit
	for g.k == KIte {
		hi, lo := g.args[1], g.args[2]
		pol := true
		if hi == e.False {
			pol = false
		} else if lo != e.False && r != nil && r.next(2) == 0 {
			pol = false
		}
		out = append(out, lit{g.args[0], pol})
		if pol {
			g = hi
		} else {
			g = lo
		}
	}
	return out
}

type lit struct {
	a   *Term
	pol bool
}

func (e *Eng) candidates(s *Term, rel []*Term, tries int, r *rnd) []*Term {
	// constants appearing in atoms or operations over this symbol
	var out []*Term
	seen := map[*Term]bool{}
	switch s.sort {
	case SInt:
		lo, hi := e.rng(s)
		add := func(v int64) {
			if s.w < 64 {
				v = normInt(v, s.w, s.sgn)
			}
			if s.rok && (v < lo || v > hi) {
				return
			}
			if s.w == 64 && !s.sgn && false {
				return
			}
			t := e.IntT(v, s.w, s.sgn)
			if !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
		for _, c := range rel {
			if c.k == KInt {
				add(c.n)
				add(c.n + 1)
				add(c.n - 1)
				for i := 0; i < 20; i += 2 {
					add(c.n << i)
				}
			}
			if c.k == KStr {
				if v, err := strconv.ParseInt(c.s, 10, 64); err == nil {
					add(v)
				}
			}
		}
		for _, v := range []int64{0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 42, 63, 64, 100, 127, 128, 255, 256, 300, 1000, 4095, 4096, 65535, -1, -2, -7, -100, -300} {
			add(v)
		}
		add(lo)
		if !(s.w == 64 && !s.sgn) {
			add(hi)
		}
		for i := 0; i < 6; i++ {
			v := int64(r.next(1 << 30))
			if s.rok && hi > lo && hi-lo >= 0 && hi-lo < 1<<40 {
				v = lo + int64(r.next(int(hi-lo+1)))
			}
			add(v)
		}
	case SStr:
		c := e.csetOf(s)
		add := func(v string) {
			if len(v) < c.min || c.max >= 0 && len(v) > c.max {
				return
			}
			for i := 0; i < len(v); i++ {
				if !c.has(v[i]) {
					return
				}
			}
			t := e.Str(v)
			if !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
		for _, v := range []string{"a", "Title", "x y"} {
			add(v)
		}
		if c.min > 1 && c.min <= 1<<16 { // a minimum length: no byte pattern of a short period
			for _, salt := range []int{1, 90} {
				var bs []byte
				for i, k := 0, salt; i < c.min; i++ {
					for n := 0; n < 256; n++ {
						k = (k*31 + 7) & 0xFF
						if b := byte(k ^ i>>3); c.has(b) {
							bs = append(bs, b)
							break
						}
					}
				}
				add(string(bs))
			}
		}
		for _, cc := range rel {
			if cc.k == KStr {
				add(cc.s)
				add(cc.s + "x")
				add("x" + cc.s)
				if cc.s != "" {
					add(cc.s + "y" + cc.s)
					add("x" + cc.s + "y")
				}
			}
		}
		for _, v := range e.samples(s) {
			add(v)
		}
		add("a\nb")
		add(" a ")
		add("")
		if tries > 2 {
			pool := []string{"a", "b", "1", " ", "x"}
			for _, cc := range rel {
				if cc.k == KStr && len(cc.s) <= 12 && cc.s != "" {
					pool = append(pool, cc.s, cc.s[:1])
				}
			}
			for i := 0; i < 5; i++ {
				v := ""
				for n := 1 + r.next(7); n > 0; n-- {
					v += pool[r.next(len(pool))]
				}
				add(v)
			}
		}
	case SFloat:
		for _, f := range []float64{0, 1, -1, 0.5, 2.25, 100, 1e9} {
			out = append(out, e.Float(f))
		}
		for _, c := range rel {
			if c.k == KFloat {
				out = append(out, e.Float(c.f), e.Float(c.f+1), e.Float(c.f-1))
			}
		}
	}
	return out
}

// relConsts: constants that occur near a symbol.
func (e *Eng) relConsts(ts []*Term) map[*Term][]*Term {
	out := map[*Term][]*Term{}
	have := map[mkey]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term, up []*Term)
	addTo := func(s *Term, cs []*Term) {
		for _, c := range cs {
			k := mkey{"", s.id, c.id}
			if !have[k] && len(out[s]) < 60 {
				have[k] = true
				out[s] = append(out[s], c)
			}
		}
	}
	var symsOf func(t *Term, d int, f func(*Term))
	symsOf = func(t *Term, d int, f func(*Term)) {
		if t.k == KSym {
			f(t)
			return
		}
		if d > 6 {
			return
		}
		for _, a := range t.args {
			symsOf(a, d+1, f)
		}
	}
	rec = func(t *Term, up []*Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.k == KOp && t.sort == SBool || t.k == KOp && (t.s == "lin" || t.s == "and" || t.s == "quo" || t.s == "rem" || t.s == "mul" || strings.HasPrefix(t.s, "trim") || strings.HasPrefix(t.s, "replace") || strings.HasPrefix(t.s, "field:") || strings.HasPrefix(t.s, "split:")) {
			var cs []*Term
			if i := strings.IndexByte(t.s, ':'); i > 0 && len(t.s) > i+1 && t.s[:i] != "trim" {
				cs = append(cs, e.Str(strings.SplitN(t.s[i+1:], ":", 2)[0]))
			}
			for _, a := range t.args {
				if a.k == KInt || a.k == KStr || a.k == KFloat {
					cs = append(cs, a)
				}
			}
			if len(cs) > 0 {
				symsOf(t, 0, func(s *Term) { addTo(s, cs) })
			}
		}
		for _, a := range t.args {
			rec(a, nil)
		}
	}
	for _, t := range ts {
		rec(t, nil)
	}
	return out
}

// findWitness looks for input values satisfying g for which a and b fold to different values.
// differ decides whether the folded values really differ.
func (e *Eng) findWitness(g, a, b *Term, differ func(x, y *Term) bool) *Witness {
	return e.findWitnessX(g, a, b, nil, differ)
}

func (e *Eng) findWitnessX(g, a, b *Term, whole []*Term, differ func(x, y *Term) bool) *Witness {
	all := []*Term{g, a, b}
	syms, _ := e.collect(all)
	for _, s := range syms {
		if isUnknown(s) {
			return nil
		}
	}
	rel := e.relConsts(all)
	r := rnd(0x9E3779B97F4A7C15)
	for try := 0; try < 160; try++ {
		s := newSubst()
		path := e.pickPath(g, map[bool]*rnd{true: nil, false: &r}[try == 0])
		if !e.solve(path, syms, rel, s, try, &r) {
			continue
		}
		s.memo = map[*Term]*Term{}
		if e.subst(g, s) != e.True {
			continue
		}
		if !e.inRange(all, s) {
			continue
		}
		x, y := e.subst(a, s), e.subst(b, s)
		// remaining free decisions (opaque predicates): fix them arbitrarily
		x, y = e.fixAtoms(x, y, &r)
		if x == y || !e.grounded(x) || !e.grounded(y) || !differ(x, y) {
			continue
		}
		if whole != nil {
			all2 := []*Term{whole[0], whole[1]}
			syms2, _ := e.collect(all2)
			if !e.solve(nil, syms2, nil, s, 0, &r) {
				continue
			}
			s.memo = map[*Term]*Term{}
			if e.subst(g, s) != e.True {
				continue
			}
			if !e.inRange(all2, s) {
				continue
			}
			wx, wy := e.fixAtoms(e.subst(whole[0], s), e.subst(whole[1], s), &r)
			if wx == wy || e.deepEq(wx, wy) != e.False {
				continue
			}
		}
		return &Witness{s.m, x, y}
	}
	return nil
}

// inRange: every operation with a declared range stays in it under the valuation (bounded models
// are only evaluated inside their bounds).
func (e *Eng) inRange(ts []*Term, s *Subst) bool {
	seen := map[*Term]bool{}
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] || !ok {
			return
		}
		seen[t] = true
		if t.k == KOp && t.rok && strings.HasPrefix(t.s, "split:") {
			if v := e.subst(t, s); v.k == KInt && (v.n < t.rlo || v.n > t.rhi) {
				ok = false
				return
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return ok
}

// findWitness2 looks for a valuation separating a and b under which the whole results differ too.
func (e *Eng) findWitness2(g, a, b, wa, wb *Term, differ func(x, y *Term) bool) *Witness {
	if a == wa && b == wb {
		return e.findWitness(g, a, b, differ)
	}
	if e.hasUnknown(g, a, b) {
		return nil
	}
	// the rest of the results is needed only under the valuation
	return e.findWitnessX(g, a, b, []*Term{wa, wb}, differ)
}

// grounded: a term built from constants and constructors only.
func (e *Eng) grounded(t *Term) bool {
	switch t.k {
	case KInt, KStr, KBool, KFloat, KNil:
		return true
	case KSym:
		return false
	case KOp:
		switch {
		case t.s == "list", t.s == "end", strings.HasPrefix(t.s, "rec:"), t.s == "pb", t.s == "json", t.s == "jsonindent", t.s == "cat", t.s == "map", t.s == "mapents", strings.HasPrefix(t.s, "iface:"), t.s == "b64":
		default:
			return false
		}
	case KIte:
		return false
	}
	for _, a := range t.args {
		if !e.grounded(a) {
			return false
		}
	}
	return true
}

func (e *Eng) fixAtoms(x, y *Term, r *rnd) (*Term, *Term) {
	for n := 0; n < 200; n++ {
		v := innerAtom(x)
		if v == nil {
			v = innerAtom(y)
		}
		if v == nil {
			break
		}
		if v.k != KSym && !(v.k == KOp && (v.s == "isnil" || v.s == "haskey" || strings.HasPrefix(v.s, "decodes:"))) {
			break // not a free decision: no witness this way
		}
		pol := r.next(2) == 0
		x, y = e.assumeDeep(x, v, pol), e.assumeDeep(y, v, pol)
	}
	return x, y
}

// solve assigns every symbol so that the literals hold (best effort).
func (e *Eng) solve(path []lit, syms []*Term, rel map[*Term][]*Term, s *Subst, try int, r *rnd) bool {
	// literals by the symbols they mention
	bySym := map[*Term][]lit{}
	for _, l := range path {
		ss, _ := e.collect([]*Term{l.a})
		if len(ss) == 0 || l.a.k == KSym {
			s.m[l.a] = e.Bool(l.pol)
			continue
		}
		if l.a.k == KOp && (l.a.s == "isnil" || l.a.s == "haskey" || strings.HasPrefix(l.a.s, "decodes:")) {
			s.m[l.a] = e.Bool(l.pol)
			continue
		}
		for _, x := range ss {
			bySym[x] = append(bySym[x], l)
		}
	}
	for _, x := range syms {
		if _, ok := s.m[x]; ok {
			continue
		}
		if x.sort == SBool {
			if _, ok := s.m[x]; !ok {
				s.m[x] = e.Bool(r.next(2) == 0)
			}
			continue
		}
		cs := e.candidates(x, rel[x], try, r)
		if len(cs) == 0 {
			continue
		}
		start := 0
		if try > 0 {
			start = r.next(len(cs))
		}
		found := false
		more := x.sort == SStr
		for k := 0; k < len(cs) || more; k++ {
			if k == len(cs) { // nothing fits: build strings from the languages the path requires
				more = false
				cs = append(cs, e.langCandidates(path, x)...)
				start = 0
				if k == len(cs) {
					break
				}
			}
			v := cs[(start+k)%len(cs)]
			s.m[x] = v
			s.memo = map[*Term]*Term{}
			ok := true
			for _, l := range bySym[x] {
				t := e.substAtom(l.a, s)
				if t == e.Bool(!l.pol) {
					ok = false
					break
				}
			}
			if ok {
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func (e *Eng) showWitness(w *Witness) string {
	var ks []string
	parts := map[*partVar]int64{}
	for k, v := range w.vals {
		if p, ok := e.partOf[k]; ok {
			if v == e.True {
				parts[p.v] += 1 << p.bit
			} else {
				parts[p.v] += 0
			}
			continue
		}
		if k.k == KSym {
			if v.k == KInt && v.n == 0 || v == e.Empty || v == e.False {
				continue
			}
			ks = append(ks, k.s+"="+e.show(v))
		} else {
			ks = append(ks, e.show(k)+"="+e.show(v))
		}
	}
	for p, i := range parts {
		ks = append(ks, p.name+"="+e.show(p.vals[min(i, int64(len(p.vals)-1))]))
	}
	sort.Strings(ks)
	if len(ks) > 40 {
		ks = append(ks[:40], "...")
	}
	return strings.Join(ks, ", ")
}

// partVar is an unknown with finitely many values, as a tree of decisions: everything computed from
// it is a partition of the values.
type partVar struct {
	name string
	vals []*Term
}
type partBit struct {
	v   *partVar
	bit int
}

// Part is an unknown that has one of the given values.
func (e *Eng) Part(name string, vals ...*Term) *Term {
	p := &partVar{name, vals}
	nb := 0
	for 1<<nb < len(vals) {
		nb++
	}
	bits := make([]*Term, nb)
	for i := range bits {
		bits[i] = e.SymBool(fmt.Sprintf("%s bit %d", name, i))
		if e.partOf == nil {
			e.partOf = map[*Term]partBit{}
		}
		k := bits[i]
		if k.k == KIte {
			k = k.args[0]
		}
		e.partOf[k] = partBit{p, i}
	}
	var rec func(b, base int) *Term
	rec = func(b, base int) *Term {
		if b < 0 {
			return vals[min(base, len(vals)-1)]
		}
		return e.ite(bits[b], rec(b-1, base+1<<b), rec(b-1, base))
	}
	return rec(nb-1, 0)
}

// PartInt is an unknown integer of a range.
func (e *Eng) PartInt(name string, lo, hi int) *Term {
	var vs []*Term
	for i := lo; i <= hi; i++ {
		vs = append(vs, e.Int(int64(i)))
	}
	return e.Part(name, vs...)
}
