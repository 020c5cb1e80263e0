package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
	"time"
)

// Terms are hash-consed: pointer equality is structural equality.
type Kind uint8

const (
	KInt Kind = iota
	KStr
	KBool
	KFloat
	KNil
	KSym
	KOp
	KIte   // args[0] atom, args[1] hi, args[2] lo : ordered decision diagram
	KPtr   // n object id, args selectors (ints)
	KSlice // args[0] ptr to the array/list, args[1] offset, args[2] len
	KMap
	KChan
	KFunc
	KIface // s type string, x types.Type, args[0] value
	KTup
)

type Sort uint8

const (
	SAny Sort = iota
	SInt
	SStr
	SBool
	SFloat
)

type Term struct {
	id   int
	k    Kind
	sort Sort
	w    uint8
	sgn  bool
	n    int64
	f    float64
	s    string
	args []*Term
	x    any

	rok      bool
	rlo, rhi int64
	bloom    uint64 // subjects of the atoms in a decision diagram
	deepIte  bool   // an Ite occurs somewhere inside
}

type bitRef struct {
	t *Term // nil: constant
	b uint8
}

type StrInfo struct { // constraint on a symbolic string
	chars    string // representative alphabet ("" = anything)
	min, max int
	noNL     bool
}

// Eng is one analysis instance.
type Eng struct {
	pngs            []*Term // images encoded
	inlineBufio     bool
	partOf          map[*Term]partBit
	draws, symDraws int // random numbers drawn; how many of them are arbitrary
	langMemo        map[string][]*Term
	tab             map[uint64][]*Term
	nterm           int
	True            *Term
	False           *Term
	Nil             *Term
	LenAll          *Term
	Empty           *Term
	memo2           map[mkey]*Term
	memo3           map[mkey3]*Term
	deadline        time.Time
	maxTerms        int
	calls           int
	tabbing         bool
	*Interp
}

type mkey struct {
	op   string
	a, b int
}
type mkey3 struct{ a, b, c int }

func NewEng() *Eng {
	e := &Eng{tab: map[uint64][]*Term{}, memo2: map[mkey]*Term{}, memo3: map[mkey3]*Term{}}
	e.True = e.mk(&Term{k: KBool, sort: SBool, n: 1})
	e.False = e.mk(&Term{k: KBool, sort: SBool, n: 0})
	e.Nil = e.mk(&Term{k: KNil})
	e.LenAll = e.mk(&Term{k: KSym, s: "#len", sort: SInt, w: 64, sgn: true})
	e.Empty = e.Str("")
	return e
}

func (t *Term) hash() uint64 {
	h := uint64(14695981039346656037)
	mix := func(v uint64) { h ^= v; h *= 1099511628211; h ^= h >> 29 }
	mix(uint64(t.k))
	mix(uint64(t.sort))
	mix(uint64(t.w))
	if t.sgn {
		mix(1)
	}
	mix(uint64(t.n))
	mix(math.Float64bits(t.f))
	for i := 0; i < len(t.s); i++ {
		mix(uint64(t.s[i]))
	}
	for _, a := range t.args {
		mix(uint64(a.id) + 7)
	}
	return h
}

func sameTerm(a, b *Term) bool {
	if a.k != b.k || a.sort != b.sort || a.w != b.w || a.sgn != b.sgn || a.n != b.n || math.Float64bits(a.f) != math.Float64bits(b.f) || a.s != b.s || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return false
		}
	}
	if a.k == KFunc && a.x != b.x {
		return false
	}
	return true
}

func (e *Eng) mk(t *Term) *Term {
	h := t.hash()
	if e.calls++; e.calls&0xfff == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
		panic("time limit of the scenario reached")
	}
	if e.calls&0xfff == 0 && e.nterm > 300_000 && memHigh.Load() {
		panic("memory limit reached")
	}
	for _, o := range e.tab[h] {
		if sameTerm(o, t) {
			return o
		}
	}
	e.nterm++
	if e.maxTerms > 0 && e.nterm > e.maxTerms {
		panic("size limit of the scenario reached")
	}
	t.id = e.nterm
	if t.k == KIte {
		t.deepIte = true
		t.bloom = t.args[1].bloom | t.args[2].bloom | subjBloom(t.args[0])
	} else {
		for _, a := range t.args {
			if a.deepIte {
				t.deepIte = true
			}
		}
	}
	e.tab[h] = append(e.tab[h], t)
	return t
}

func subjBloom(atom *Term) uint64 {
	if atom.k == KOp && len(atom.args) > 0 {
		return 1 << uint(atom.args[0].id%64)
	}
	return 1 << uint(atom.id%64)
}

// ---- constructors

func (e *Eng) Str(s string) *Term { return e.mk(&Term{k: KStr, sort: SStr, s: s}) }
func (e *Eng) Bool(b bool) *Term {
	if b {
		return e.True
	}
	return e.False
}
func (e *Eng) Float(f float64) *Term { return e.mk(&Term{k: KFloat, sort: SFloat, f: f, w: 64}) }
func normInt(v int64, w uint8, sgn bool) int64 {
	if w >= 64 || w == 0 {
		return v
	}
	sh := 64 - w
	if sgn {
		return v << sh >> sh
	}
	return int64(uint64(v) << sh >> sh)
}
func (e *Eng) IntT(v int64, w uint8, sgn bool) *Term {
	return e.mk(&Term{k: KInt, sort: SInt, n: normInt(v, w, sgn), w: w, sgn: sgn})
}
func (e *Eng) Int(v int64) *Term { return e.IntT(v, 64, true) }
func (e *Eng) Sym(name string, s Sort, w uint8, sgn bool) *Term {
	return e.mk(&Term{k: KSym, s: name, sort: s, w: w, sgn: sgn})
}
func (e *Eng) SymInt(name string, w uint8, sgn bool) *Term { return e.Sym(name, SInt, w, sgn) }

// SymIntR is a symbolic integer with a known range.
func (e *Eng) SymIntR(name string, w uint8, sgn bool, lo, hi int64) *Term {
	t := e.Sym(name, SInt, w, sgn)
	if !t.rok {
		t.rok, t.rlo, t.rhi = true, lo, hi
	}
	return t
}
func (e *Eng) SymStr(name string, info *StrInfo) *Term {
	t := e.Sym(name, SStr, 0, false)
	if info == nil {
		return t
	}
	if old, ok := t.x.(*StrInfo); ok && *old != *info { // the same name with other bounds is another string
		t = e.Sym(fmt.Sprintf("%s[%d-%d %s]", name, info.min, info.max, info.chars), SStr, 0, false)
	}
	if t.x == nil {
		t.x = info
	}
	return t
}
func (e *Eng) SymBool(name string) *Term {
	return e.atom(e.Sym(name, SBool, 0, false))
}
func (e *Eng) Op(name string, s Sort, w uint8, sgn bool, args ...*Term) *Term {
	return e.mk(&Term{k: KOp, s: name, sort: s, w: w, sgn: sgn, args: args})
}
func (e *Eng) Tup(args ...*Term) *Term { return e.mk(&Term{k: KTup, args: args}) }
func (e *Eng) Ptr(obj int, sels ...*Term) *Term {
	return e.mk(&Term{k: KPtr, n: int64(obj), args: sels})
}
func (e *Eng) Slice(p, off, ln *Term) *Term {
	return e.mk(&Term{k: KSlice, args: []*Term{p, off, ln}})
}
func (e *Eng) Iface(t types.Type, v *Term) *Term {
	return e.mk(&Term{k: KIface, s: types.TypeString(t, nil), x: t, args: []*Term{v}})
}

// atom wraps a boolean leaf term as a decision diagram node.
func (e *Eng) atom(a *Term) *Term {
	return e.mk(&Term{k: KIte, sort: SBool, args: []*Term{a, e.True, e.False}})
}

func (t *Term) isConst() bool {
	return t.k == KInt || t.k == KStr || t.k == KBool || t.k == KFloat || t.k == KNil
}

// ---- decision diagrams

func (e *Eng) mkIte(atom, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	b := subjBloom(atom)
	if hi.bloom&b != 0 {
		hi = e.assume(hi, atom, true)
	}
	if lo.bloom&b != 0 {
		lo = e.assume(lo, atom, false)
	}
	if hi == lo {
		return hi
	}
	if eqAtomOf(atom, lo, hi) {
		return lo
	}
	if hi.k == KTup && lo.k == KTup && len(hi.args) == len(lo.args) && len(hi.args) > 0 {
		args := make([]*Term, len(hi.args))
		for i := range args {
			args[i] = e.ite(e.atom(atom), hi.args[i], lo.args[i])
		}
		return e.Tup(args...)
	}
	s := hi.sort
	if s == SAny {
		s = lo.sort
	}
	w, sg := hi.w, hi.sgn
	return e.mk(&Term{k: KIte, sort: s, w: w, sgn: sg, args: []*Term{atom, hi, lo}})
}

// implied: does atom (with polarity) decide atom2? 1 true, 0 false, -1 unknown
func (e *Eng) implied(a *Term, pol bool, b *Term) int {
	if a == b {
		if pol {
			return 1
		}
		return 0
	}
	if a.k != KOp || b.k != KOp || len(a.args) == 0 || len(b.args) == 0 || a.args[0] != b.args[0] {
		return -1
	}
	x := a.args[0]
	switch a.s {
	case "eqs":
		if b.s == "eqs" && pol && a.args[1].k == KStr && b.args[1].k == KStr {
			if a.args[1] == b.args[1] {
				return 1
			}
			return 0
		}
		if pol && a.args[1].k == KStr && (b.s == "hasprefix" || b.s == "hassuffix" || b.s == "contains") && b.args[1].k == KStr {
			ok := false
			switch b.s {
			case "hasprefix":
				ok = strings.HasPrefix(a.args[1].s, b.args[1].s)
			case "hassuffix":
				ok = strings.HasSuffix(a.args[1].s, b.args[1].s)
			case "contains":
				ok = strings.Contains(a.args[1].s, b.args[1].s)
			}
			if ok {
				return 1
			}
			return 0
		}
		return -1
	case "eq", "lt":
		if a.args[1].k != KInt || (b.s != "eq" && b.s != "lt") || b.args[1].k != KInt {
			return -1
		}
		if x.w == 64 && !x.sgn {
			return -1
		}
		lo, hi := e.rng(x)
		c := a.args[1].n
		if a.s == "eq" {
			if pol {
				lo, hi = c, c
			} else {
				if lo == c {
					lo++
				}
				if hi == c {
					hi--
				}
			}
		} else {
			if pol {
				hi = c - 1
			} else {
				lo = c
			}
		}
		d := b.args[1].n
		if b.s == "eq" {
			if lo == hi && lo == d {
				return 1
			}
			if d < lo || d > hi {
				return 0
			}
			return -1
		}
		if hi < d {
			return 1
		}
		if lo >= d {
			return 0
		}
		return -1
	}
	return -1
}

func (e *Eng) assume(t, atom *Term, pol bool) *Term {
	if t.k != KIte {
		return t
	}
	if t.bloom&subjBloom(atom) == 0 {
		return t
	}
	p := 0
	if pol {
		p = 1
	}
	k := mkey{"assume" + string(rune('0'+p)), t.id, atom.id}
	if r, ok := e.memo2[k]; ok {
		return r
	}
	var r *Term
	switch e.implied(atom, pol, t.args[0]) {
	case 1:
		r = e.assume(t.args[1], atom, pol)
	case 0:
		r = e.assume(t.args[2], atom, pol)
	default:
		r = e.mkIteRaw(t.args[0], e.assume(t.args[1], atom, pol), e.assume(t.args[2], atom, pol))
	}
	e.memo2[k] = r
	return r
}

// eqAtomOf: atom says x == c and hi is the constant c: the choice is x itself.
func eqAtomOf(atom, x, c *Term) bool {
	return atom.k == KOp && (atom.s == "eqs" || atom.s == "eq") && atom.args[0] == x && atom.args[1] == c
}

func (e *Eng) mkIteRaw(atom, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	if eqAtomOf(atom, lo, hi) {
		return lo
	}
	s := hi.sort
	if s == SAny {
		s = lo.sort
	}
	return e.mk(&Term{k: KIte, sort: s, w: hi.w, sgn: hi.sgn, args: []*Term{atom, hi, lo}})
}

func top3(a, b, c *Term) *Term {
	var m *Term
	for _, t := range []*Term{a, b, c} {
		if t != nil && t.k == KIte && (m == nil || t.args[0].id < m.id) {
			m = t.args[0]
		}
	}
	return m
}

func (e *Eng) cof(t, atom *Term, pol bool) *Term {
	if t.k == KIte && t.args[0] == atom {
		if pol {
			return t.args[1]
		}
		return t.args[2]
	}
	return t
}

func (e *Eng) ite(c, a, b *Term) *Term {
	if c == e.True {
		return a
	}
	if c == e.False {
		return b
	}
	if a == b {
		return a
	}
	if c.sort == SBool && a == e.True && b == e.False {
		return c
	}
	if a.k == KTup && b.k == KTup && len(a.args) == len(b.args) && len(a.args) > 0 {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = e.ite(c, a.args[i], b.args[i])
		}
		return e.Tup(args...)
	}
	k := mkey3{c.id, a.id, b.id}
	if r, ok := e.memo3[k]; ok {
		return r
	}
	v := top3(c, a, b)
	if v == nil {
		panic("ite: no decision variable in condition " + e.show(c))
	}
	r := e.mkIte(v, e.ite(e.cof(c, v, true), e.cof(a, v, true), e.cof(b, v, true)), e.ite(e.cof(c, v, false), e.cof(a, v, false), e.cof(b, v, false)))
	e.memo3[k] = r
	return r
}

func (e *Eng) And(a, b *Term) *Term { return e.ite(a, b, e.False) }
func (e *Eng) Or(a, b *Term) *Term  { return e.ite(a, e.True, b) }
func (e *Eng) Not(a *Term) *Term    { return e.ite(a, e.False, e.True) }
func (e *Eng) AndN(ts ...*Term) *Term {
	r := e.True
	for _, t := range ts {
		r = e.And(r, t)
	}
	return r
}

// constrain is the generalised cofactor: the value of f on the care set c.
func (e *Eng) constrain(f, c *Term) *Term {
	if c == e.True || c == e.False || f.k != KIte {
		if f.k == KTup && f.deepIte && c != e.True && c != e.False {
			args := make([]*Term, len(f.args))
			for i := range args {
				args[i] = e.constrain(f.args[i], c)
			}
			return e.Tup(args...)
		}
		return f
	}
	if f == c {
		return e.True
	}
	k := mkey{"constrain", f.id, c.id}
	if r, ok := e.memo2[k]; ok {
		return r
	}
	v := top3(f, c, nil)
	c1, c0 := e.cof(c, v, true), e.cof(c, v, false)
	var r *Term
	if c1 == e.False {
		r = e.constrain(e.cof(f, v, false), c0)
	} else if c0 == e.False {
		r = e.constrain(e.cof(f, v, true), c1)
	} else {
		if f.args[0] != v { // restrict: quantify the variable away from the care set
			r = e.constrain(f, e.Or(c1, c0))
		} else {
			r = e.mkIte(v, e.constrain(f.args[1], c1), e.constrain(f.args[2], c0))
		}
	}
	e.memo2[k] = r
	return r
}

func ddSize(t *Term, seen map[*Term]bool, lim int) int {
	if len(seen) > lim || seen[t] {
		return len(seen)
	}
	seen[t] = true
	if t.k == KIte {
		ddSize(t.args[1], seen, lim)
		ddSize(t.args[2], seen, lim)
	}
	return len(seen)
}

const ddLimit = 1500

// app1 lifts a leaf function over a decision diagram.
func (e *Eng) app1(key string, t *Term, f func(*Term) *Term) *Term {
	if t.k != KIte {
		return f(t)
	}
	k := mkey{key, t.id, 0}
	if r, ok := e.memo2[k]; ok {
		return r
	}
	r := e.ite(e.atom(t.args[0]), e.app1(key, t.args[1], f), e.app1(key, t.args[2], f))
	e.memo2[k] = r
	return r
}

func (e *Eng) app2(key string, a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.k != KIte && b.k != KIte {
		return f(a, b)
	}
	if a.k == KIte && b.k == KIte {
		if ddSize(a, map[*Term]bool{}, 200)*ddSize(b, map[*Term]bool{}, 200) > ddLimit*8 && (a.sort != SBool || b.sort != SBool) {
			return nil
		}
	}
	return e.app2r(key, a, b, f)
}
func (e *Eng) app2r(key string, a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.k != KIte && b.k != KIte {
		return f(a, b)
	}
	k := mkey{key, a.id, b.id}
	if r, ok := e.memo2[k]; ok {
		return r
	}
	v := top3(a, b, nil)
	r := e.ite(e.atom(v), e.app2r(key, e.cof(a, v, true), e.cof(b, v, true), f), e.app2r(key, e.cof(a, v, false), e.cof(b, v, false), f))
	e.memo2[k] = r
	return r
}

// leaves enumerates (guard, leaf) pairs of a decision diagram under g.
type gleaf struct{ g, v *Term }

func (e *Eng) leaves(t, g *Term) []gleaf {
	t = e.constrain(t, g)
	var out []gleaf
	idx := map[*Term]int{}
	var rec func(t, g *Term)
	rec = func(t, g *Term) {
		if g == e.False {
			return
		}
		if t.k == KIte {
			a := e.atom(t.args[0])
			rec(t.args[1], e.And(g, a))
			rec(t.args[2], e.And(g, e.Not(a)))
			return
		}
		if i, ok := idx[t]; ok {
			out[i].g = e.Or(out[i].g, g)
			return
		}
		idx[t] = len(out)
		out = append(out, gleaf{g, t})
	}
	rec(t, g)
	return out
}

// distinct leaf terms of a diagram
func leafSet(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.k == KIte {
			rec(t.args[1])
			rec(t.args[2])
			return
		}
		out = append(out, t)
	}
	rec(t)
	return out
}

// condition under which diagram t has leaf satisfying f
func (e *Eng) leafCond(key string, t *Term, f func(*Term) bool) *Term {
	if t.k != KIte {
		return e.Bool(f(t))
	}
	return e.app1(key, t, func(l *Term) *Term { return e.Bool(f(l)) })
}

// ---- ranges

func typeRange(w uint8, sgn bool) (int64, int64) {
	if w == 0 || w >= 64 {
		if !sgn {
			return 0, math.MaxInt64 // note: upper half of uint64 is not represented; users check w==64&&!sgn
		}
		return math.MinInt64, math.MaxInt64
	}
	if sgn {
		return -(1 << (w - 1)), 1<<(w-1) - 1
	}
	return 0, 1<<w - 1
}

func (e *Eng) rng(t *Term) (int64, int64) {
	if t.k == KInt {
		return t.n, t.n
	}
	if t.rok {
		return t.rlo, t.rhi
	}
	lo, hi := typeRange(t.w, t.sgn)
	if t.w == 64 && !t.sgn {
		// keep conservative: treat as full; callers must not rely on hi
		lo, hi = math.MinInt64, math.MaxInt64
	}
	switch t.k {
	case KIte:
		l1, h1 := e.rng(t.args[1])
		l2, h2 := e.rng(t.args[2])
		lo, hi = min(l1, l2), max(h1, h2)
	case KOp:
		switch t.s {
		case "count":
			lo, hi = 0, int64(len(t.args))
		case "len", "strlen":
			lo, hi = 0, math.MaxInt32*4
		case "bits":
			bs := t.x.([]bitRef)
			n := len(bs)
			// zero/sign extension of a base term
			if b, ext := extBase(bs); b != nil && ext {
				blo, bhi := e.rng(b)
				if !(b.w == 64 && !b.sgn) {
					lo, hi = blo, bhi
					break
				}
			}
			top := n
			for top > 0 && bs[top-1].t == nil && bs[top-1].b == 0 {
				top--
			}
			if top < n && top < 63 {
				var mn, mx int64
				for i := 0; i < top; i++ {
					if bs[i].t != nil || bs[i].b == 1 {
						mx |= 1 << i
					}
					if bs[i].t == nil && bs[i].b == 1 {
						mn |= 1 << i
					}
				}
				lo, hi = mn, mx
			}
		case "lin":
			l, h := t.n, t.n
			ok := true
			for i := 0; i+1 < len(t.args); i += 2 {
				c := t.args[i].n
				a, b := e.rng(t.args[i+1])
				x, ok1 := mulOv(c, a)
				y, ok2 := mulOv(c, b)
				if !ok1 || !ok2 {
					ok = false
					break
				}
				if x > y {
					x, y = y, x
				}
				var o1, o2 bool
				l, o1 = addOv(l, x)
				h, o2 = addOv(h, y)
				if !o1 || !o2 {
					ok = false
					break
				}
			}
			tl, th := typeRange(t.w, t.sgn)
			if ok && l >= tl && h <= th {
				lo, hi = l, h
			}
		case "quo":
			if t.args[1].k == KInt && t.args[1].n > 0 {
				a, b := e.rng(t.args[0])
				if a > math.MinInt64 {
					lo, hi = a/t.args[1].n, b/t.args[1].n
				}
			} else if a, b := e.rng(t.args[0]); a > math.MinInt64 {
				m := max(abs64(a), abs64(b))
				lo, hi = -m, m
				if a >= 0 {
					if l2, _ := e.rng(t.args[1]); l2 >= 0 {
						lo = 0
					}
				}
			}
		case "rem":
			if t.args[1].k == KInt && t.args[1].n > 0 {
				a, b := e.rng(t.args[0])
				lo, hi = -(t.args[1].n - 1), t.args[1].n-1
				if a >= 0 {
					lo = 0
					hi = min(hi, b)
				}
			}
		case "charat":
			lo, hi = 0, 255
		case "and":
			a1, b1 := e.rng(t.args[0])
			a2, b2 := e.rng(t.args[1])
			if a1 >= 0 && a2 >= 0 {
				lo, hi = 0, min(b1, b2)
			} else if a1 >= 0 {
				lo, hi = 0, b1
			} else if a2 >= 0 {
				lo, hi = 0, b2
			}
		}
	}
	t.rok, t.rlo, t.rhi = true, lo, hi
	return lo, hi
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	return c, true
}
func addOv(a, b int64) (int64, bool) {
	c := a + b
	if (c > a) == (b > 0) {
		return c, true
	}
	return c, b == 0
}

// ---- bit provenance

func (e *Eng) bitsOf(t *Term) []bitRef {
	w := int(t.w)
	if w == 0 {
		w = 64
	}
	out := make([]bitRef, w)
	if t.k == KInt {
		for i := range out {
			out[i] = bitRef{nil, uint8(uint64(t.n) >> i & 1)}
		}
		return out
	}
	if t.k == KOp && t.s == "bits" {
		copy(out, t.x.([]bitRef))
		return out
	}
	lo, hi := e.rng(t)
	top := w
	if lo >= 0 && !(t.w == 64 && !t.sgn) {
		top = 0
		for top < w && top < 63 && hi>>top != 0 {
			top++
		}
	}
	for i := range out {
		if i < top {
			out[i] = bitRef{t, uint8(i)}
		} else {
			out[i] = bitRef{nil, 0}
		}
	}
	return out
}

// extBase: bits are exactly a zero- or sign-extension of one base term.
func extBase(bs []bitRef) (*Term, bool) {
	if len(bs) == 0 || bs[0].t == nil {
		return nil, false
	}
	b := bs[0].t
	w := int(b.w)
	if w == 0 {
		w = 64
	}
	if w >= len(bs) {
		return b, false
	}
	n := 0
	for n < w && bs[n].t == b && int(bs[n].b) == n {
		n++
	}
	if n < w {
		// allow known-zero upper bits of base handled by caller only
		return b, false
	}
	for i := w; i < len(bs); i++ {
		if b.sgn {
			if bs[i].t != b || int(bs[i].b) != w-1 {
				return b, false
			}
		} else if bs[i].t != nil || bs[i].b != 0 {
			return b, false
		}
	}
	return b, true
}

func (e *Eng) fromBits(bs []bitRef, w uint8, sgn bool) *Term {
	allc := true
	var cv uint64
	for i, b := range bs {
		if b.t != nil {
			allc = false
			break
		}
		cv |= uint64(b.b) << i
	}
	if allc {
		return e.IntT(int64(cv), w, sgn)
	}
	// identity of a base of the same type
	if b := bs[0].t; b != nil && b.w == w && b.sgn == sgn && len(bs) == int(w) {
		ref := e.bitsOf(b)
		same := true
		for i := range bs {
			if bs[i] != ref[i] {
				same = false
				break
			}
		}
		if same {
			return b
		}
	}
	var sb strings.Builder
	var args []*Term
	idx := map[*Term]int{}
	for _, b := range bs {
		if b.t == nil {
			sb.WriteByte('0' + b.b)
			continue
		}
		i, ok := idx[b.t]
		if !ok {
			i = len(args)
			idx[b.t] = i
			args = append(args, b.t)
		}
		fmt.Fprintf(&sb, "(%d.%d)", i, b.b)
	}
	cp := append([]bitRef(nil), bs...)
	t := e.mk(&Term{k: KOp, s: "bits", sort: SInt, w: w, sgn: sgn, args: append(args, e.Str(sb.String())), x: cp})
	return t
}

// ---- linear forms (ring arithmetic modulo 2^w)

type linF struct {
	c  int64
	m  map[*Term]int64
	ok bool
}

func (e *Eng) toLin(t *Term) linF {
	l := linF{m: map[*Term]int64{}}
	e.addLin(&l, t, 1)
	return l
}
func (e *Eng) addLin(l *linF, t *Term, k int64) {
	switch {
	case t.k == KInt:
		l.c += k * t.n
	case t.k == KOp && t.s == "lin":
		l.c += k * t.n
		for i := 0; i+1 < len(t.args); i += 2 {
			e.addLin(l, t.args[i+1], k*t.args[i].n)
		}
	case t.k == KOp && t.s == "bits":
		// pure left shift of a base
		bs := t.x.([]bitRef)
		sh := 0
		for sh < len(bs) && bs[sh].t == nil && bs[sh].b == 0 {
			sh++
		}
		if sh > 0 && sh < len(bs) && bs[sh].t != nil && bs[sh].t.w == t.w {
			b := bs[sh].t
			ref := e.bitsOf(b)
			same := true
			for i := sh; i < len(bs); i++ {
				if bs[i] != ref[i-sh] {
					same = false
					break
				}
			}
			if same {
				if b.sgn != t.sgn {
					b = e.conv(b, t.w, t.sgn)
				}
				l.m[b] += k << sh
				return
			}
		}
		l.m[t] += k
	default:
		l.m[t] += k
	}
}
func (e *Eng) fromLin(l linF, w uint8, sgn bool) *Term {
	var ts []*Term
	for t, c := range l.m {
		if normInt(c, w, true) != 0 {
			ts = append(ts, t)
		}
	}
	c := normInt(l.c, w, sgn)
	if len(ts) == 0 {
		return e.IntT(c, w, sgn)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && c == 0 {
		k := normInt(l.m[ts[0]], w, true)
		if k == 1 {
			return ts[0]
		}
		if k > 0 && k&(k-1) == 0 {
			sh := 0
			for k>>sh != 1 {
				sh++
			}
			bs := e.bitsOf(ts[0])
			nb := make([]bitRef, len(bs))
			for i := range nb {
				if i >= sh {
					nb[i] = bs[i-sh]
				}
			}
			return e.fromBits(nb, w, sgn)
		}
	}
	var args []*Term
	for _, t := range ts {
		args = append(args, e.IntT(l.m[t], w, true), t)
	}
	return e.mk(&Term{k: KOp, s: "lin", sort: SInt, w: w, sgn: sgn, n: c, args: args})
}

// ---- integer operations (leaf-level, then lifted)

func (e *Eng) bin(op string, a, b *Term) *Term {
	r := e.app2("bin:"+op, a, b, func(a, b *Term) *Term { return e.binLeaf(op, a, b) })
	if r == nil {
		r = e.Op(op, a.sort, a.w, a.sgn, a, b)
	}
	return r
}

func (e *Eng) foldInt(op string, a, b int64, w uint8, sgn bool) (int64, bool) {
	var r int64
	switch op {
	case "add":
		r = a + b
	case "sub":
		r = a - b
	case "mul":
		r = a * b
	case "quo":
		if b == 0 {
			return 0, false
		}
		if sgn {
			if b == -1 {
				r = -a
			} else {
				r = a / b
			}
		} else {
			r = int64(uint64(a) / uint64(b))
		}
	case "rem":
		if b == 0 {
			return 0, false
		}
		if sgn {
			if b == -1 {
				r = 0
			} else {
				r = a % b
			}
		} else {
			r = int64(uint64(a) % uint64(b))
		}
	case "and":
		r = a & b
	case "or":
		r = a | b
	case "xor":
		r = a ^ b
	case "andnot":
		r = a &^ b
	case "shl":
		if uint64(b) >= 64 {
			r = 0
		} else {
			r = a << uint64(b)
		}
	case "shr":
		s := uint64(b)
		if sgn {
			if s > 63 {
				s = 63
			}
			r = a >> s
		} else if s >= 64 {
			r = 0
		} else {
			r = int64(uint64(normInt(a, w, false)) >> s)
		}
	default:
		return 0, false
	}
	return normInt(r, w, sgn), true
}

func (e *Eng) binLeaf(op string, a, b *Term) *Term {
	if a.sort == SFloat || b.sort == SFloat {
		return e.floatBin(op, a, b)
	}
	if a.sort == SStr && op == "add" {
		return e.Concat(a, b)
	}
	w, sgn := a.w, a.sgn
	if w == 0 {
		w, sgn = 64, true
	}
	if a.k == KInt && b.k == KInt {
		if v, ok := e.foldInt(op, a.n, b.n, w, sgn); ok {
			return e.IntT(v, w, sgn)
		}
		return e.Op(op, SInt, w, sgn, a, b)
	}
	switch op {
	case "add", "sub":
		if op == "add" {
			// disjoint bits: a+b == a|b
			if r := e.disjointOr(a, b, w, sgn); r != nil {
				return r
			}
		}
		l := e.toLin(a)
		k := int64(1)
		if op == "sub" {
			k = -1
		}
		e.addLin(&l, b, k)
		return e.fromLin(l, w, sgn)
	case "mul":
		if a.k == KInt {
			a, b = b, a
		}
		if b.k == KInt {
			l := linF{m: map[*Term]int64{}}
			e.addLin(&l, a, b.n)
			return e.fromLin(l, w, sgn)
		}
		if a.id > b.id {
			a, b = b, a
		}
	case "shl":
		if b.k == KInt {
			if b.n < 0 {
				break
			}
			if b.n >= int64(w) {
				return e.IntT(0, w, sgn)
			}
			if a.k == KOp && a.s == "lin" {
				l := linF{m: map[*Term]int64{}}
				e.addLin(&l, a, 1<<uint(b.n))
				return e.fromLin(l, w, sgn)
			}
			bs := e.bitsOf(a)
			nb := make([]bitRef, len(bs))
			for i := range nb {
				if i >= int(b.n) {
					nb[i] = bs[i-int(b.n)]
				}
			}
			return e.fromBits(nb, w, sgn)
		}
	case "shr":
		if b.k == KInt && b.n >= 0 {
			bs := e.bitsOf(a)
			nb := make([]bitRef, len(bs))
			fill := bitRef{}
			if sgn {
				fill = bs[len(bs)-1]
			}
			for i := range nb {
				if i+int(b.n) < len(bs) && b.n < 64 {
					nb[i] = bs[i+int(b.n)]
				} else {
					nb[i] = fill
				}
			}
			return e.fromBits(nb, w, sgn)
		}
	case "and", "or", "xor", "andnot":
		if a == b {
			if op == "and" || op == "or" {
				return a
			}
			return e.IntT(0, w, sgn)
		}
		x, y := e.bitsOf(a), e.bitsOf(b)
		nb := make([]bitRef, len(x))
		ok := len(x) == len(y)
		for i := 0; ok && i < len(x); i++ {
			p, q := x[i], y[i]
			pc, qc := p.t == nil, q.t == nil
			switch op {
			case "and":
				switch {
				case pc && p.b == 0 || qc && q.b == 0:
					nb[i] = bitRef{}
				case pc:
					nb[i] = q
				case qc:
					nb[i] = p
				case p == q:
					nb[i] = p
				default:
					ok = false
				}
			case "or":
				switch {
				case pc && p.b == 1 || qc && q.b == 1:
					nb[i] = bitRef{nil, 1}
				case pc:
					nb[i] = q
				case qc:
					nb[i] = p
				case p == q:
					nb[i] = p
				default:
					ok = false
				}
			case "xor":
				switch {
				case pc && qc:
					nb[i] = bitRef{nil, p.b ^ q.b}
				case pc && p.b == 0:
					nb[i] = q
				case qc && q.b == 0:
					nb[i] = p
				case p == q:
					nb[i] = bitRef{}
				default:
					ok = false
				}
			case "andnot":
				switch {
				case pc && p.b == 0 || qc && q.b == 1:
					nb[i] = bitRef{}
				case qc:
					nb[i] = p
				case p == q:
					nb[i] = bitRef{}
				default:
					ok = false
				}
			}
		}
		if ok {
			return e.fromBits(nb, w, sgn)
		}
		if op != "andnot" && a.id > b.id {
			a, b = b, a
		}
	case "quo", "rem":
		if b.k == KInt && b.n == 1 && op == "quo" {
			return a
		}
		// a division of non-negative values is the same in every integer type
		if b.k == KInt && b.n > 0 && !(w == 64 && sgn) {
			lo, _ := e.rng(a)
			ok := lo >= 0
			if w == 64 {
				ok, _ = e.bitTop(a)
			}
			if a.k == KOp && a.s == "lin" && !e.linExact(a) {
				ok = false
			}
			if ok {
				return e.conv(e.bin(op, e.conv(a, 64, true), e.Int(b.n)), w, sgn)
			}
		}
		if lo, _ := e.rng(a); b.k == KInt && b.n > 0 && b.n&(b.n-1) == 0 && (lo >= 0 || !sgn) && !(w == 64 && !sgn && lo < 0 && false) {
			sh := int64(0)
			for b.n>>sh != 1 {
				sh++
			}
			if op == "quo" {
				return e.binLeaf("shr", a, e.Int(sh))
			}
		}
		if op == "quo" && a.k == KOp && a.s == "lin" && b.k == KInt && b.n > 0 && a.n%b.n == 0 && e.linExact(a) {
			l := linF{c: a.n / b.n, m: map[*Term]int64{}}
			ok := true
			for i := 0; i+1 < len(a.args); i += 2 {
				ok = ok && a.args[i].n%b.n == 0
				l.m[a.args[i+1]] = a.args[i].n / b.n
			}
			if ok {
				return e.fromLin(l, w, sgn)
			}
		}
		if r := e.tabulate(op, a, b); r != nil {
			return r
		}
		if op == "quo" {
			break
		}
		if lo, hi := e.rng(a); b.k == KInt && b.n > 0 {
			if lo >= 0 && hi < b.n {
				return a
			}
			if b.n&(b.n-1) == 0 && (lo >= 0 || !sgn) {
				return e.binLeaf("and", a, e.IntT(b.n-1, w, sgn))
			}
		}
	}
	return e.Op(op, SInt, w, sgn, a, b)
}

func (e *Eng) disjointOr(a, b *Term, w uint8, sgn bool) *Term {
	if a.k == KOp && a.s == "lin" || b.k == KOp && b.s == "lin" {
		return nil
	}
	x, y := e.bitsOf(a), e.bitsOf(b)
	if len(x) != len(y) {
		return nil
	}
	nb := make([]bitRef, len(x))
	for i := range x {
		switch {
		case x[i].t == nil && x[i].b == 0:
			nb[i] = y[i]
		case y[i].t == nil && y[i].b == 0:
			nb[i] = x[i]
		default:
			return nil
		}
	}
	return e.fromBits(nb, w, sgn)
}

func (e *Eng) floatBin(op string, a, b *Term) *Term {
	if a.k == KFloat && b.k == KFloat {
		switch op {
		case "add":
			return e.Float(a.f + b.f)
		case "sub":
			return e.Float(a.f - b.f)
		case "mul":
			return e.Float(a.f * b.f)
		case "quo":
			return e.Float(a.f / b.f)
		}
	}
	if op == "add" || op == "mul" {
		if a.id > b.id {
			a, b = b, a
		}
	}
	return e.Op("f"+op, SFloat, 64, true, a, b)
}

// conv converts an integer term to another integer type.
func (e *Eng) conv(t *Term, w uint8, sgn bool) *Term {
	if t.w == w && t.sgn == sgn {
		return t
	}
	return e.app1(fmt.Sprintf("conv:%d%v", w, sgn), t, func(t *Term) *Term {
		if t.k == KInt {
			return e.IntT(t.n, w, sgn)
		}
		if t.k == KOp && t.s == "lin" && (w <= t.w || e.linExact(t)) {
			l := linF{m: map[*Term]int64{}, c: t.n}
			for i := 0; i+1 < len(t.args); i += 2 {
				e.addLin(&l, e.conv(t.args[i+1], w, sgn), t.args[i].n)
			}
			return e.fromLin(l, w, sgn)
		}
		bs := e.bitsOf(t)
		nb := make([]bitRef, w)
		fill := bitRef{}
		if t.sgn {
			fill = bs[len(bs)-1]
		}
		for i := range nb {
			if i < len(bs) {
				nb[i] = bs[i]
			} else {
				nb[i] = fill
			}
		}
		return e.fromBits(nb, w, sgn)
	})
}

// linExact: the linear form does not wrap in its own width.
func (e *Eng) linExact(t *Term) bool {
	l, h := t.n, t.n
	for i := 0; i+1 < len(t.args); i += 2 {
		c := t.args[i].n
		a, b := e.rng(t.args[i+1])
		x, ok1 := mulOv(c, a)
		y, ok2 := mulOv(c, b)
		if !ok1 || !ok2 {
			return false
		}
		if x > y {
			x, y = y, x
		}
		var o1, o2 bool
		l, o1 = addOv(l, x)
		h, o2 = addOv(h, y)
		if !o1 || !o2 {
			return false
		}
	}
	tl, th := typeRange(t.w, t.sgn)
	return l >= tl && h <= th && !(t.w == 64 && !t.sgn)
}

// ---- comparisons

func (e *Eng) cmp(op string, a, b *Term) *Term {
	switch op {
	case "ne":
		return e.Not(e.cmp("eq", a, b))
	case "gt":
		return e.cmp("lt", b, a)
	case "ge":
		return e.Not(e.cmp("lt", a, b))
	case "le":
		return e.Not(e.cmp("lt", b, a))
	}
	if a == b {
		return e.Bool(op == "eq" && a.sort != SFloat || op == "eq" && a.k != KSym && a.k != KOp)
	}
	r := e.app2("cmp:"+op, a, b, func(a, b *Term) *Term { return e.cmpLeaf(op, a, b) })
	if r == nil {
		r = e.atom(e.Op(op, SBool, 0, false, a, b))
	}
	return r
}

func (e *Eng) cmpLeaf(op string, a, b *Term) *Term {
	if a.sort == SBool && b.sort == SBool && op == "eq" {
		if a == b {
			return e.True
		}
		return e.False // both are boolean constants at leaf level
	}
	if a.sort == SStr || b.sort == SStr {
		if op == "eq" {
			return e.strEq(a, b)
		}
		if a.k == KStr && b.k == KStr {
			return e.Bool(a.s < b.s)
		}
		return e.atom(e.Op("lts", SBool, 0, false, a, b))
	}
	if a.sort == SFloat || b.sort == SFloat {
		if a.k == KFloat && b.k == KFloat {
			if op == "eq" {
				return e.Bool(a.f == b.f)
			}
			return e.Bool(a.f < b.f)
		}
		return e.atom(e.Op("f"+op, SBool, 0, false, a, b))
	}
	if a.sort == SInt && b.sort == SInt {
		return e.intCmp(op, a, b)
	}
	if op == "eq" {
		return e.refEq(a, b)
	}
	return e.atom(e.Op(op, SBool, 0, false, a, b))
}

func (e *Eng) intCmp(op string, a, b *Term) *Term {
	uns64 := a.w == 64 && !a.sgn
	if a.k == KInt && b.k == KInt {
		if op == "eq" {
			return e.Bool(a.n == b.n)
		}
		if uns64 {
			return e.Bool(uint64(a.n) < uint64(b.n))
		}
		return e.Bool(a.n < b.n)
	}
	if a == b {
		return e.Bool(op == "eq")
	}
	if op == "eq" {
		if a.k == KInt {
			a, b = b, a
		}
		if b.k == KInt {
			return e.eqConst(a, b.n)
		}
		if !uns64 {
			la, ha := e.rng(a)
			lb, hb := e.rng(b)
			if ha < lb || hb < la {
				return e.False
			}
		}
		// a-b == 0
		l := e.toLin(a)
		e.addLin(&l, b, -1)
		d := e.fromLin(l, a.w, a.sgn)
		if d.k == KInt {
			return e.Bool(d.n == 0)
		}
		if len(l.m) == 1 {
			return e.eqConst(d, 0)
		}
		// canonical sign: first coefficient positive
		if d.k == KOp && d.s == "lin" && d.args[0].n < 0 {
			l2 := linF{m: map[*Term]int64{}}
			e.addLin(&l2, d, -1)
			d = e.fromLin(l2, a.w, a.sgn)
		}
		return e.atom(e.Op("eq", SBool, 0, false, d, e.IntT(0, d.w, d.sgn)))
	}
	// lt
	if uns64 {
		if b.k == KInt && b.n == 1 {
			return e.eqConst(a, 0)
		}
		if a.k == KInt && a.n == 0 {
			return e.Not(e.eqConst(b, 0))
		}
		if b.k == KInt && b.n == 0 {
			return e.False
		}
		// values known to be in the signed range compare as signed
		la, ha := e.bitTop(a)
		lb, hb := e.bitTop(b)
		if !(la && lb) {
			return e.atom(e.Op("ltu", SBool, 0, false, a, b))
		}
		_, _ = ha, hb
	}
	la, ha := e.rng(a)
	lb, hb := e.rng(b)
	if !uns64 {
		if ha < lb {
			return e.True
		}
		if la >= hb {
			return e.False
		}
	}
	if b.k == KInt {
		return e.ltConst(a, b.n)
	}
	if a.k == KInt {
		if a.n == math.MaxInt64 {
			return e.False
		}
		return e.Not(e.ltConst(b, a.n+1))
	}
	// a < b  <=> a-b < 0 when the difference cannot wrap
	if !uns64 {
		l := e.toLin(a)
		e.addLin(&l, b, -1)
		if e.linFits(l, 64) {
			d := e.fromLin(l, 64, true)
			if d.w != a.w || d.sgn != a.sgn {
				// rebuild in 64 bit
				l2 := linF{m: map[*Term]int64{}}
				e.addLin(&l2, e.conv(a, 64, true), 1)
				e.addLin(&l2, e.conv(b, 64, true), -1)
				d = e.fromLin(l2, 64, true)
			}
			if d.k == KInt {
				return e.Bool(d.n < 0)
			}
			return e.ltConst(d, 0)
		}
	}
	return e.atom(e.Op("ltv", SBool, 0, false, a, b))
}

func (e *Eng) bitTop(t *Term) (bool, int64) {
	bs := e.bitsOf(t)
	b := bs[len(bs)-1]
	return b.t == nil && b.b == 0, 0
}

func (e *Eng) linFits(l linF, w uint8) bool {
	lo, hi := l.c, l.c
	for t, c := range l.m {
		a, b := e.rng(t)
		if t.w == 64 && !t.sgn {
			return false
		}
		// treat plain 64-bit ints as non-overflowing only if bounded
		x, ok1 := mulOv(c, a)
		y, ok2 := mulOv(c, b)
		if !ok1 || !ok2 {
			return false
		}
		if x > y {
			x, y = y, x
		}
		var o1, o2 bool
		lo, o1 = addOv(lo, x)
		hi, o2 = addOv(hi, y)
		if !o1 || !o2 {
			return false
		}
	}
	return true
}

func (e *Eng) eqConst(a *Term, c int64) *Term {
	if a.k == KInt {
		return e.Bool(a.n == c)
	}
	if a.k == KIte {
		return e.cmp("eq", a, e.IntT(c, a.w, a.sgn))
	}
	if !(a.w == 64 && !a.sgn) {
		lo, hi := e.rng(a)
		if c < lo || c > hi {
			return e.False
		}
		if lo == hi {
			return e.Bool(lo == c)
		}
	}
	if a.k == KOp {
		switch a.s {
		case "quo":
			if k := a.args[1]; k.k == KInt && k.n > 0 && c >= 0 && c < 1<<30 && k.n < 1<<30 && a.w == 64 && a.sgn {
				if lo, _ := e.rng(a.args[0]); lo >= 0 {
					return e.And(e.ltConst(a.args[0], (c+1)*k.n), e.Not(e.ltConst(a.args[0], c*k.n)))
				}
			}
		case "lin":
			// move the constant; single odd-coefficient unit
			cc := normInt(c-a.n, a.w, a.sgn)
			l := linF{m: map[*Term]int64{}}
			for i := 0; i+1 < len(a.args); i += 2 {
				l.m[a.args[i+1]] = a.args[i].n
			}
			if len(a.args) == 2 && a.args[0].n == 1 {
				return e.eqConst(a.args[1], cc)
			}
			if len(a.args) == 2 && a.args[0].n == -1 {
				return e.eqConst(a.args[1], normInt(-cc, a.w, a.sgn))
			}
			if a.n != 0 {
				d := e.fromLin(l, a.w, a.sgn)
				return e.eqConst(d, cc)
			}
			if a.args[0].n < 0 {
				l2 := linF{m: map[*Term]int64{}}
				e.addLin(&l2, a, -1)
				return e.eqConst(e.fromLin(l2, a.w, a.sgn), normInt(-cc, a.w, a.sgn))
			}
		case "bits":
			bs := a.x.([]bitRef)
			if b, ext := extBase(bs); b != nil && ext {
				return e.eqConst(b, c)
			}
			var rest []bitRef
			var rc int64
			for i, b := range bs {
				cb := uint8(uint64(c) >> i & 1)
				if b.t == nil {
					if b.b != cb {
						return e.False
					}
					continue
				}
				if len(rest) < 64 {
					rc |= int64(cb) << len(rest)
				}
				rest = append(rest, b)
			}
			// reduce duplicates
			var r2 []bitRef
			var c2 int64
			seen := map[bitRef]int{}
			for i, b := range rest {
				cb := rc >> i & 1
				if j, ok := seen[b]; ok {
					if c2>>j&1 != cb {
						return e.False
					}
					continue
				}
				seen[b] = len(r2)
				c2 |= cb << len(r2)
				r2 = append(r2, b)
			}
			if len(r2) == 1 {
				w := e.fromBits(padBits(r2, 64), 64, true)
				at := e.atom(e.Op("eq", SBool, 0, false, w, e.Int(1)))
				if c2 == 1 {
					return at
				}
				return e.Not(at)
			}
			// all bits of one base in order, upper bits known zero
			base := r2[0].t
			okb := true
			for i, b := range r2 {
				if b.t != base || int(b.b) != i {
					okb = false
				}
			}
			if okb {
				full := e.bitsOf(base)
				n := 0
				for n < len(full) && full[n].t != nil {
					n++
				}
				if n == len(r2) {
					return e.eqConst(base, normInt(c2, base.w, base.sgn))
				}
			}
			// independent groups, each covering one base completely
			{
				type grp struct{ v, mask int64 }
				gs := map[*Term]*grp{}
				var order []*Term
				for i, b := range r2 {
					g := gs[b.t]
					if g == nil {
						g = &grp{}
						gs[b.t] = g
						order = append(order, b.t)
					}
					g.mask |= 1 << b.b
					g.v |= (c2 >> i & 1) << b.b
				}
				all := len(order) > 1
				for _, bt := range order {
					full := e.bitsOf(bt)
					var m int64
					for i, b := range full {
						if b.t != nil {
							m |= 1 << i
						}
					}
					if m != gs[bt].mask {
						all = false
					}
				}
				if all {
					r := e.True
					for _, bt := range order {
						v := gs[bt].v
						for i, b := range e.bitsOf(bt) {
							if b.t == nil && b.b == 1 {
								v |= 1 << i
							}
						}
						r = e.And(r, e.eqConst(bt, normInt(v, bt.w, bt.sgn)))
					}
					return r
				}
			}
			nt := e.fromBits(padBits(r2, 64), 64, true)
			if nt.k == KOp && nt.s == "bits" {
				return e.atom(e.Op("eq", SBool, 0, false, nt, e.Int(c2)))
			}
			return e.eqConst(nt, c2)
		case "strlen":
			if c == 0 {
				return e.strEq(a.args[0], e.Empty)
			}
		}
	}
	if lo, hi := e.rng(a); lo == 0 && hi == 1 && !(a.w == 64 && !a.sgn) {
		at := e.atom(e.Op("eq", SBool, 0, false, e.fromBits(padBits([]bitRef{{a, 0}}, 64), 64, true), e.Int(1)))
		if c == 1 {
			return at
		}
		return e.Not(at)
	}
	return e.atom(e.Op("eq", SBool, 0, false, a, e.IntT(c, a.w, a.sgn)))
}

func padBits(b []bitRef, n int) []bitRef {
	out := make([]bitRef, n)
	copy(out, b)
	return out
}

func (e *Eng) ltConst(a *Term, c int64) *Term {
	if a.k == KInt {
		return e.Bool(a.n < c)
	}
	lo, hi := e.rng(a)
	if a.w == 64 && !a.sgn {
		// here only when the value is known non-negative
		lo = max(lo, 0)
	}
	if hi < c {
		return e.True
	}
	if lo >= c {
		return e.False
	}
	if f := strings.SplitN(a.s, ":", 3); c == 2 && a.k == KOp && len(f) == 3 && f[0] == "split" && strings.HasSuffix(f[2], ":len") && f[1] != "" && f[1] != "\n" && f[2] != "1:len" {
		return e.Not(e.Contains(a.args[0], e.Str(f[1])))
	}
	if c == lo+1 {
		return e.eqConst(a, lo)
	}
	if c == hi {
		return e.Not(e.eqConst(a, hi))
	}
	if a.k == KOp {
		switch a.s {
		case "lin":
			if a.n != 0 && e.linExact(a) {
				if d, ok := subOv(c, a.n); ok {
					l := linF{m: map[*Term]int64{}}
					for i := 0; i+1 < len(a.args); i += 2 {
						l.m[a.args[i+1]] = a.args[i].n
					}
					b := e.fromLin(l, a.w, a.sgn)
					return e.ltConst(b, d)
				}
			}
			if len(a.args) == 2 && a.n == 0 && e.linExact(a) {
				k := a.args[0].n
				if k > 0 { // k*x < c <=> x < ceil(c/k)
					return e.ltConst(a.args[1], ceilDiv(c, k))
				}
				if k < 0 && k > math.MinInt64 { // -k*x > -c
					// k*x < c <=> x > c/k <=> not x < floor(c/k)+1
					return e.Not(e.ltConst(a.args[1], floorDiv(c, k)+1))
				}
			}
			if a.n == 0 && len(a.args) > 2 && a.args[0].n < 0 && e.linExact(a) {
				l := linF{m: map[*Term]int64{}}
				e.addLin(&l, a, -1)
				b := e.fromLin(l, a.w, a.sgn)
				// -b < c <=> b > -c <=> !(b < -c+1)
				return e.Not(e.ltConst(b, -c+1))
			}
		case "quo":
			if k := a.args[1]; k.k == KInt && k.n > 0 && c >= 1 && c < 1<<30 && k.n < 1<<30 {
				if lo, _ := e.rng(a.args[0]); lo >= 0 && !(a.w == 64 && !a.sgn) {
					return e.cmp("lt", a.args[0], e.IntT(c*k.n, a.w, a.sgn))
				}
			}
		case "bits":
			bs := a.x.([]bitRef)
			if b, ext := extBase(bs); b != nil && ext {
				return e.ltConst(b, c)
			}
		}
	}
	return e.atom(e.Op("lt", SBool, 0, false, a, e.IntT(c, a.w, a.sgn)))
}

func subOv(a, b int64) (int64, bool) {
	c := a - b
	if (c < a) == (b > 0) {
		return c, true
	}
	return c, b == 0
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) == (b < 0) {
		q++
	}
	return q
}

// refEq compares references (pointers, interfaces, slices with nil, funcs).
func (e *Eng) refEq(a, b *Term) *Term {
	if a == b {
		return e.True
	}
	if a.k == KNil {
		a, b = b, a
	}
	if b.k == KNil {
		switch a.k {
		case KPtr, KMap, KChan, KFunc, KIface, KSlice:
			return e.False
		}
		return e.atom(e.Op("isnil", SBool, 0, false, a))
	}
	if a.k == KPtr && b.k == KPtr {
		if a.n != b.n {
			return e.False
		}
		if len(a.args) == len(b.args) {
			r := e.True
			for i := range a.args {
				r = e.And(r, e.cmp("eq", a.args[i], b.args[i]))
			}
			return r
		}
		return e.False
	}
	if a.k == KIface && b.k == KIface {
		if a.s != b.s {
			return e.False
		}
		return e.cmp("eq", a.args[0], b.args[0])
	}
	if a.k == KTup && b.k == KTup && len(a.args) == len(b.args) {
		r := e.True
		for i := range a.args {
			r = e.And(r, e.cmp("eq", a.args[i], b.args[i]))
		}
		return r
	}
	if (a.k == KMap || a.k == KChan) && a.k == b.k {
		return e.Bool(a.n == b.n)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return e.atom(e.Op("refeq", SBool, 0, false, a, b))
}

// tabulate: an operation on an expression of one variable with at most 16 values, value by value.
func (e *Eng) tabulate(op string, a, b *Term) *Term {
	if b.k != KInt || b.n == 0 || a.k != KOp || a.s != "lin" && a.s != "bits" || e.tabbing {
		return nil
	}
	syms, _ := e.collect([]*Term{a})
	if len(syms) != 1 || syms[0].sort != SInt || !syms[0].rok || syms[0].rhi-syms[0].rlo >= 16 {
		return nil
	}
	x := syms[0]
	r := e.IntT(0, a.w, a.sgn)
	for v := x.rhi; v >= x.rlo; v-- {
		s := newSubst()
		s.m[x] = e.IntT(v, x.w, x.sgn)
		va := e.subst(a, s)
		if va.k != KInt {
			return nil
		}
		n, ok := e.foldInt(op, va.n, b.n, a.w, a.sgn)
		if !ok {
			return nil
		}
		r = e.ite(e.eqConst(x, v), e.IntT(n, a.w, a.sgn), r)
	}
	return r
}
