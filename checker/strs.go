package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---- symbolic strings: a string is a literal, a hole, or a concatenation of parts.

func (e *Eng) parts(t *Term) []*Term {
	if t.k == KOp && t.s == "concat" {
		return t.args
	}
	if t == e.Empty {
		return nil
	}
	return []*Term{t}
}

func (e *Eng) Concat(ts ...*Term) *Term {
	var out []*Term
	var lit []byte // literals that follow each other
	var one *Term
	flush := func() {
		if one != nil {
			out = append(out, one)
		} else if lit != nil {
			out = append(out, e.Str(string(lit)))
		}
		one, lit = nil, nil
	}
	for _, t := range ts {
		for _, p := range e.parts(t) {
			if p.k == KStr {
				if one == nil && lit == nil {
					one = p
					continue
				}
				if one != nil {
					lit = append(lit, one.s...)
					one = nil
				}
				lit = append(lit, p.s...)
				continue
			}
			flush()
			if len(out) > 0 && p.k == KOp {
				if a, b, c, ok := subParts(p); ok {
					if a2, b2, c2, ok := subParts(out[len(out)-1]); ok && a == a2 && c2 == b {
						out[len(out)-1] = e.SubStr(a, e.Int(b2), e.Int(c))
						continue
					}
				}
			}
			out = append(out, p)
		}
	}
	flush()
	switch len(out) {
	case 0:
		return e.Empty
	case 1:
		return out[0]
	}
	// hoist small decisions to the top, so that concatenation is canonical
	n := 1
	for _, p := range out {
		if p.k == KIte {
			n *= len(leafSet(p))
			if n > 24 {
				break
			}
		}
	}
	if n > 1 && n <= 24 {
		return e.hoist(out, 0)
	}
	return e.Op("concat", SStr, 0, false, out...)
}

// subParts: a piece of a string between two known offsets.
func subParts(t *Term) (*Term, int64, int64, bool) {
	if t.k == KOp && t.s == "substr" && len(t.args) == 3 && t.args[1].k == KInt && t.args[2].k == KInt {
		return t.args[0], t.args[1].n, t.args[2].n, true
	}
	return nil, 0, 0, false
}

func (e *Eng) hoist(ps []*Term, i int) *Term {
	for ; i < len(ps); i++ {
		if ps[i].k == KIte {
			p := ps[i]
			rest := ps
			key := "hoist:"
			for j, q := range ps {
				if j != i {
					key += strconv.Itoa(q.id) + ","
				} else {
					key += "@,"
				}
			}
			return e.app1(key, p, func(l *Term) *Term {
				np := append([]*Term(nil), rest...)
				np[i] = l
				return e.Concat(np...)
			})
		}
	}
	return e.Concat(ps...)
}

// charset of a hole
type cset struct {
	in  string // non-empty: only these bytes
	not string // excluded bytes
	min int
	max int // -1 unbounded
}

func (c cset) has(b byte) bool {
	if c.in != "" {
		return strings.IndexByte(c.in, b) >= 0
	}
	return strings.IndexByte(c.not, b) < 0
}

const b64chars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/="

func (e *Eng) csetOf(t *Term) cset {
	switch t.k {
	case KIte:
		c := e.csetAll(t)
		c.min, c.max = 0, -1
		return c
	case KSym:
		if in, ok := t.x.(*StrInfo); ok {
			c := cset{in: in.chars, min: in.min, max: -1}
			if in.max > 0 {
				c.max = in.max
			}
			if in.noNL {
				c.not = "\n\r"
			}
			if strings.HasPrefix(in.chars, "^") {
				c.in = ""
				c.not = in.chars[1:]
			}
			return c
		}
	case KOp:
		switch t.s {
		case "itoa":
			lo, hi := e.rng(t.args[0])
			if lo >= 0 && !(t.args[0].w == 64 && !t.args[0].sgn) {
				return cset{in: "0123456789", min: 1, max: len(strconv.FormatInt(hi, 10))}
			}
			return cset{in: "-0123456789", min: 1, max: 20}
		case "chr":
			return cset{min: 1, max: 1}
		case "b64":
			return cset{in: b64chars, min: 0, max: -1}
		case "substr":
			c := e.csetAll(t.args[0])
			n := e.StrLen(t.args[0])
			c.min, c.max = 0, -1
			if len(t.args) == 3 && t.args[1].k == KInt && t.args[2].k == KInt && n.k == KInt && 0 <= t.args[1].n && t.args[1].n <= t.args[2].n && t.args[2].n <= n.n {
				c.min = int(t.args[2].n - t.args[1].n)
				c.max = c.min
			}
			return c
		case "json", "pbjson":
			return cset{not: "\n\r\t\v\f\x00", min: 1, max: -1}
		case "trim:both", "trim:left", "trim:right":
			c := e.csetAll(t.args[0])
			c.min = 0
			return c
		case "replaceall":
			if t.args[1].k == KStr && t.args[2].k == KStr && len(t.args[1].s) == 1 && !strings.Contains(t.args[2].s, t.args[1].s) {
				c := e.csetAll(t.args[0])
				if c.in == "" {
					for i := 0; i < len(t.args[2].s); i++ {
						c.not = strings.ReplaceAll(c.not, t.args[2].s[i:i+1], "")
					}
					c.not += t.args[1].s
				}
				return cset{in: c.in, not: c.not, min: 0, max: -1}
			}
		case "cat":
			return e.csetAll(t)
		case "ftoa":
			return cset{in: "-+.0123456789eInfNa", min: 1, max: -1}
		}
	}
	if t.k == KOp && (t.s == "cut0" || t.s == "cut1") {
		c := e.csetAll(t.args[0])
		if sep := t.args[1]; c.in == "" && t.s == "cut0" && sep.k == KStr && len(sep.s) == 1 {
			c.not += sep.s
		}
		c.min, c.max = 0, -1
		return c
	}
	if t.k == KOp && strings.HasPrefix(t.s, "field:") && len(t.s) == 7 {
		c := e.csetAll(t.args[0])
		if n := t.args[2]; c.in == "" && n.k == KInt && n.n < 0 {
			c.not += t.s[6:]
		}
		c.min, c.max = 0, -1
		return c
	}
	return cset{min: 0, max: -1}
}

// csetAll: bytes excluded from every part of a string.
func (e *Eng) csetAll(t *Term) cset {
	var ex [256]bool
	for i := range ex {
		ex[i] = true
	}
	none := false
	for _, l := range leafSet(t) {
		for _, p := range e.parts(l) {
			if p.k == KStr {
				for i := 0; i < len(p.s); i++ {
					ex[p.s[i]] = false
				}
				continue
			}
			c := e.csetOf(p)
			for i := range ex {
				if c.has(byte(i)) {
					ex[i] = false
				}
			}
		}
	}
	r := cset{max: -1}
	if none {
		return r
	}
	for i, x := range ex {
		if x {
			r.not += string([]byte{byte(i)})
		}
	}
	return r
}

// firstLast: the known first and last byte of an encoded value.
func firstLast(p *Term) (byte, byte) {
	if p.k == KOp && (p.s == "json" || p.s == "pbjson") && len(p.args) > 0 && p.args[0].k == KOp {
		if strings.HasPrefix(p.args[0].s, "rec:") {
			return '{', '}'
		}
		if p.args[0].s == "list" {
			return '[', ']'
		}
	}
	return 0, 0
}

// litMatch: can the part sequence produce the literal? (over-approximate)
func (e *Eng) litMatch(ps []*Term, lit string) bool {
	if len(ps) == 0 {
		return lit == ""
	}
	p := ps[0]
	if p.k == KStr {
		return strings.HasPrefix(lit, p.s) && e.litMatch(ps[1:], lit[len(p.s):])
	}
	if p.k == KIte {
		for _, l := range leafSet(p) {
			if e.litMatch(append(append([]*Term{}, e.parts(l)...), ps[1:]...), lit) {
				return true
			}
		}
		return false
	}
	if h, t := firstLast(p); h != 0 && (len(lit) < 2 || lit[0] != h || !strings.Contains(lit, string([]byte{t}))) {
		return false
	}
	c := e.csetOf(p)
	for n := 0; n <= len(lit); n++ {
		if n > 0 && !c.has(lit[n-1]) {
			break
		}
		if c.max >= 0 && n > c.max {
			break
		}
		if n < c.min {
			continue
		}
		if e.litMatch(ps[1:], lit[n:]) {
			return true
		}
	}
	return false
}

func (e *Eng) strEq(a, b *Term) *Term {
	if a == b {
		return e.True
	}
	if a.k == KIte || b.k == KIte {
		return e.cmp("eq", a, b)
	}
	if a.k == KStr && b.k == KStr {
		return e.Bool(a.s == b.s)
	}
	if a.k == KStr {
		a, b = b, a
	}
	pa, pb := e.parts(a), e.parts(b)
	if b.k == KStr {
		if !e.litMatch(pa, b.s) {
			return e.False
		}
		// strip literal prefix / suffix
		lit := b.s
		for len(pa) > 0 && pa[0].k == KStr {
			lit = lit[len(pa[0].s):]
			pa = pa[1:]
		}
		for len(pa) > 0 && pa[len(pa)-1].k == KStr {
			lit = strings.TrimSuffix(lit, pa[len(pa)-1].s)
			pa = pa[:len(pa)-1]
		}
		if lit == "" {
			// every remaining part is empty
			r := e.True
			for _, p := range pa {
				if p.k == KIte {
					r = e.And(r, e.cmp("eq", p, e.Empty))
				} else {
					r = e.And(r, e.eqsAtom(p, e.Empty))
				}
			}
			return r
		}
		if len(pa) == 1 {
			p := pa[0]
			if p.k == KIte {
				return e.cmp("eq", p, e.Str(lit))
			}
			if p.k == KOp && p.s == "itoa" {
				v, err := strconv.ParseInt(lit, 10, 64)
				if err != nil || strconv.FormatInt(v, 10) != lit {
					return e.False
				}
				return e.eqConst(p.args[0], v)
			}
			return e.eqsAtom(p, e.Str(lit))
		}
		return e.eqsAtom(e.Concat(pa...), e.Str(lit))
	}
	for _, x := range [][2]*Term{{a, b}, {b, a}} {
		// replacing a byte changes a string exactly when it occurs
		if r := x[0]; r.k == KOp && r.s == "replaceall" && r.args[0] == x[1] && r.args[1].k == KStr && len(r.args[1].s) == 1 && r.args[2].k == KStr && r.args[1] != r.args[2] {
			return e.Not(e.Contains(x[1], r.args[1]))
		}
	}
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	if len(pa) == 0 || len(pb) == 0 {
		return e.strEq(e.Concat(append(append([]*Term{}, pa...), pb...)...), e.Empty)
	}
	// literal prefix conflict
	if pa[0].k == KStr && pb[0].k == KStr {
		x, y := pa[0].s, pb[0].s
		n := min(len(x), len(y))
		if x[:n] != y[:n] {
			return e.False
		}
	}
	if len(pa) == 1 && len(pb) == 1 && pa[0].k == KOp && pb[0].k == KOp && pa[0].s == "itoa" && pb[0].s == "itoa" {
		x, y := e.conv(pa[0].args[0], 64, true), e.conv(pb[0].args[0], 64, true)
		return e.cmp("eq", x, y)
	}
	// two concatenations separated by characters the holes cannot contain
	if r := e.splitEq(pa, pb); r != nil {
		return r
	}
	a, b = e.Concat(pa...), e.Concat(pb...)
	if a.k == KIte || b.k == KIte {
		return e.cmp("eq", a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return e.eqsAtom(a, b)
}

// splitEq decides equality part by part when both sides have the same literal skeleton.
func (e *Eng) splitEq(pa, pb []*Term) *Term {
	if len(pa) != len(pb) || len(pa) == 1 {
		return nil
	}
	for i := range pa {
		if (pa[i].k == KStr) != (pb[i].k == KStr) {
			return nil
		}
		if pa[i].k == KStr {
			if pa[i] != pb[i] {
				return nil
			}
			// neighbours must not contain the first char of the separator
			if i > 0 {
				for _, q := range []*Term{pa[i-1], pb[i-1]} {
					if q.k == KStr || q.k == KIte || e.csetOf(q).has(pa[i].s[0]) {
						return nil
					}
				}
			}
		} else if i > 0 && pa[i-1].k != KStr {
			return nil
		}
	}
	r := e.True
	for i := range pa {
		if pa[i].k != KStr {
			r = e.And(r, e.strEq(pa[i], pb[i]))
		}
	}
	return r
}

func (e *Eng) eqsAtom(a, b *Term) *Term {
	if b.k == KStr && a.k != KStr {
		c := e.csetOf(a)
		if len(b.s) < c.min {
			return e.False
		}
		if a.k == KOp && a.s == "itoa" && b.s == "" {
			return e.False
		}
	}
	return e.atom(e.Op("eqs", SBool, 0, false, a, b))
}

func (e *Eng) StrLen(t *Term) *Term {
	return e.app1("strlen", t, func(t *Term) *Term {
		if t.k == KStr {
			return e.Int(int64(len(t.s)))
		}
		sum := e.Int(0)
		for _, p := range e.parts(t) {
			var l *Term
			switch {
			case p.k == KStr:
				l = e.Int(int64(len(p.s)))
			case p.k == KIte:
				l = e.StrLen(p)
			default:
				c := e.csetOf(p)
				if c.max >= 0 && c.min == c.max {
					l = e.Int(int64(c.min))
				} else {
					l = e.Op("strlen", SInt, 64, true, p)
					if !l.rok {
						hi := int64(1) << 33
						if c.max >= 0 {
							hi = int64(c.max)
						}
						l.rok, l.rlo, l.rhi = true, int64(c.min), hi
					}
				}
			}
			sum = e.bin("add", sum, l)
		}
		return sum
	})
}

// CharAt: byte i of the string
func (e *Eng) CharAt(t, i *Term) *Term {
	r := e.app2("charat", t, i, func(t, i *Term) *Term {
		if i.k == KInt {
			off := i.n
			for _, p := range e.parts(t) {
				if p.k == KStr {
					if off < int64(len(p.s)) {
						return e.IntT(int64(p.s[off]), 8, false)
					}
					off -= int64(len(p.s))
					continue
				}
				if p.k == KIte && p != t {
					if l := e.StrLen(p); l.k == KInt {
						if off < l.n {
							return e.CharAt(p, e.Int(off))
						}
						off -= l.n
						continue
					}
				}
				c := e.csetOf(p)
				if p.k == KOp && p.s == "chr" && off == 0 && p.args[0].w == 8 {
					return p.args[0]
				}
				if h, _ := firstLast(p); h != 0 && off == 0 {
					return e.IntT(int64(h), 8, false)
				}
				if c.max >= 0 && c.min == c.max {
					if off < int64(c.min) {
						return e.Op("charat", SInt, 8, false, p, e.Int(off))
					}
					off -= int64(c.min)
					continue
				}
				if off == 0 && c.min > 0 {
					return e.Op("charat", SInt, 8, false, p, e.Int(0))
				}
				break
			}
		}
		return e.Op("charat", SInt, 8, false, t, i)
	})
	if r == nil {
		r = e.Op("charat", SInt, 8, false, t, i)
	}
	return r
}

// splitAt cuts a string where the lengths of its leading parts add up to pos.
func (e *Eng) splitAt(t, pos *Term) (*Term, *Term, bool) {
	if pos == nil || t.k == KIte || pos.k == KIte {
		return nil, nil, false
	}
	ps := e.parts(t)
	acc := e.Int(0)
	for k := 0; ; k++ {
		if acc == pos {
			return e.Concat(ps[:k]...), e.Concat(ps[k:]...), true
		}
		if k == len(ps) {
			return nil, nil, false
		}
		if l := ps[k]; l.k == KStr {
			if d := e.bin("sub", pos, acc); d.k == KInt && d.n > 0 && d.n < int64(len(l.s)) {
				pre := append(append([]*Term{}, ps[:k]...), e.Str(l.s[:d.n]))
				return e.Concat(pre...), e.Concat(append([]*Term{e.Str(l.s[d.n:])}, ps[k+1:]...)...), true
			}
		}
		acc = e.bin("add", acc, e.StrLen(ps[k]))
	}
}

// cutLen: the cut of t whose length an index expression mentions.
func cutLen(i, t *Term) *Term {
	if i == nil || i.k != KOp {
		return nil
	}
	switch {
	case i.s == "strlen" && i.args[0].k == KOp && i.args[0].s == "cut0" && i.args[0].args[0] == t:
		return i.args[0]
	case i.s == "lin":
		for _, a := range i.args {
			if c := cutLen(a, t); c != nil {
				return c
			}
		}
	}
	return nil
}

// SubStr t[i:j]; j==nil means to the end
func (e *Eng) SubStr(t, i, j *Term) *Term {
	if t.k == KIte || i.k == KIte || j != nil && j.k == KIte {
		if j == nil {
			r := e.app2("substr2", t, i, func(t, i *Term) *Term { return e.SubStr(t, i, nil) })
			if r != nil {
				return r
			}
		} else {
			r := e.app2(fmt.Sprintf("substr:%d", j.id), t, i, func(t, i *Term) *Term {
				return e.app1(fmt.Sprintf("substrj:%d:%d", t.id, i.id), j, func(j *Term) *Term { return e.SubStr(t, i, j) })
			})
			if r != nil {
				return r
			}
		}
		args := []*Term{t, i}
		if j != nil {
			args = append(args, j)
		}
		return e.Op("substr", SStr, 0, false, args...)
	}
	if j != nil && j == e.StrLen(t) {
		j = nil
	}
	if i.k == KInt && i.n == 0 && j == nil {
		return t
	}
	if c := cutLen(i, t); c != nil {
		t = e.Concat(c, c.args[1], e.strOp("cut1", t, c.args[1]))
	} else if c := cutLen(j, t); c != nil {
		t = e.Concat(c, c.args[1], e.strOp("cut1", t, c.args[1]))
	}
	if pre, post, ok := e.splitAt(t, i); ok && i.k != KInt {
		if j == nil {
			return post
		}
		_ = pre
		if r, _, ok := e.splitAt(post, e.bin("sub", j, i)); ok {
			return r
		}
	}
	if j != nil && j.k != KInt && i.k == KInt && i.n == 0 {
		if r, _, ok := e.splitAt(t, j); ok {
			return r
		}
	}
	if i.k == KInt && (j == nil || j.k == KInt) {
		// walk over parts with known lengths
		ps := e.parts(t)
		pos := int64(0)
		var out []*Term
		known := true
		for idx, p := range ps {
			var ln int64
			if h, _ := firstLast(p); h != 0 && j != nil && pos == i.n && j.n == pos+1 {
				return e.Str(string([]byte{h}))
			}
			if p.k == KStr {
				ln = int64(len(p.s))
			} else {
				c := e.csetOf(p)
				if p.k != KIte && c.max >= 0 && c.min == c.max {
					ln = int64(c.min)
				} else {
					// unknown length: only usable when everything from here on is kept
					if j == nil && pos >= i.n {
						out = append(out, ps[idx:]...)
						return e.Concat(out...)
					}
					if j != nil && pos >= j.n {
						return e.Concat(out...)
					}
					known = false
					break
				}
			}
			lo, hi := max(i.n, pos), pos+ln
			if j != nil {
				hi = min(hi, j.n)
			}
			if lo < hi {
				if lo == pos && hi == pos+ln {
					out = append(out, p)
				} else if p.k == KStr {
					out = append(out, e.Str(p.s[lo-pos:hi-pos]))
				} else {
					if a, b, c, ok := subParts(p); ok && hi-pos <= c-b {
						out = append(out, e.Op("substr", SStr, 0, false, a, e.Int(b+lo-pos), e.Int(b+hi-pos)))
					} else {
						out = append(out, e.Op("substr", SStr, 0, false, p, e.Int(lo-pos), e.Int(hi-pos)))
					}
				}
			}
			pos += ln
		}
		if known && i.n <= pos && (j == nil || j.n <= pos) {
			return e.Concat(out...)
		}
	}
	if i.k == KInt {
		if pl := e.parts(t); len(pl) > 0 && pl[0].k == KStr && int64(len(pl[0].s)) >= i.n && i.n > 0 {
			r := e.Concat(append([]*Term{e.Str(pl[0].s[i.n:])}, pl[1:]...)...)
			if j == nil {
				return r
			}
			return e.SubStr(r, e.Int(0), e.bin("sub", j, i))
		}
	}
	// j == len(t)-k with literal suffix
	if j != nil {
		d := e.bin("sub", e.StrLen(t), j)
		ps := e.parts(t)
		if d.k == KInt && len(ps) > 0 && ps[len(ps)-1].k == KStr && d.n > 0 && d.n <= int64(len(ps[len(ps)-1].s)) {
			l := ps[len(ps)-1].s
			np := append(append([]*Term{}, ps[:len(ps)-1]...), e.Str(l[:int64(len(l))-d.n]))
			return e.SubStr(e.Concat(np...), i, nil)
		}
	}
	args := []*Term{t, i}
	if j != nil {
		args = append(args, j)
	}
	r := e.Op("substr", SStr, 0, false, args...)
	return r
}

func (e *Eng) Itoa(t *Term) *Term {
	return e.app1("itoa", t, func(t *Term) *Term {
		if t.k == KInt {
			if t.w == 64 && !t.sgn {
				return e.Str(strconv.FormatUint(uint64(t.n), 10))
			}
			return e.Str(strconv.FormatInt(t.n, 10))
		}
		if t.w == 64 && !t.sgn {
			if top, _ := e.bitTop(t); top {
				return e.Itoa(e.conv(t, 64, true))
			}
		}
		// canonical: strip value-preserving extensions
		if t.k == KOp && t.s == "bits" {
			if b, ext := extBase(t.x.([]bitRef)); b != nil && ext {
				return e.Itoa(b)
			}
		}
		// a non-negative value prints the same in every integer type
		if lo, _ := e.rng(t); lo >= 0 && !(t.w == 64 && !t.sgn) && (t.w != 64 || !t.sgn) {
			t2 := e.conv(t, 64, true)
			if t2.k == KOp && t2.s == "bits" {
				if b, ext := extBase(t2.x.([]bitRef)); b != nil && ext && b == t {
					return e.Op("itoa", SStr, 0, false, t)
				}
			}
			return e.Op("itoa", SStr, 0, false, t2)
		}
		return e.Op("itoa", SStr, 0, false, t)
	})
}

// Atoi models strconv.Atoi: value and success.
func (e *Eng) Atoi(t *Term) (val, ok *Term) {
	val = e.app1("atoi", t, func(t *Term) *Term { v, _ := e.atoiLeaf(t); return v })
	ok = e.app1("atoiok", t, func(t *Term) *Term { _, o := e.atoiLeaf(t); return o })
	return
}
func (e *Eng) atoiLeaf(t *Term) (val, ok *Term) {
	if t.k == KStr {
		v, err := strconv.Atoi(t.s)
		return e.Int(int64(v)), e.Bool(err == nil)
	}
	ps := e.parts(t)
	if len(ps) == 1 && ps[0].k == KOp && ps[0].s == "itoa" {
		x := ps[0].args[0]
		if !(x.w == 64 && !x.sgn) {
			return e.conv(x, 64, true), e.True
		}
	}
	// some part can never be part of a number
	for i, p := range ps {
		if p.k == KStr {
			for j := 0; j < len(p.s); j++ {
				c := p.s[j]
				if !(c >= '0' && c <= '9' || (c == '-' || c == '+') && i == 0 && j == 0) {
					return e.Int(0), e.False
				}
			}
		}
	}
	okA := e.atom(e.Op("atoiok", SBool, 0, false, t))
	v := e.Op("atoi", SInt, 64, true, t)
	return e.ite(okA, v, e.Int(0)), okA
}

// ---- searching in symbolic strings

// occurrences of a literal needle: list of (part index, offset) when decidable.
func (e *Eng) occ(t *Term, needle string) (pos [][2]int, ok bool) {
	ps := e.parts(t)
	for _, p := range ps {
		if p.k == KStr {
			continue
		}
		c := e.csetOf(p)
		// no needle byte may come from the hole, unless the needle has a byte that... keep it simple
		disjoint := true
		any := false
		for i := 0; i < len(needle); i++ {
			if c.has(needle[i]) {
				disjoint = false
			} else {
				any = true
			}
		}
		if !disjoint {
			// overlap possible only partially: needle contains a byte the hole cannot contain,
			// accept when no literal neighbour contains such a byte at a boundary
			if !any {
				return nil, false
			}
			return nil, false
		}
		if c.min == 0 && len(needle) > 1 {
			return nil, false
		}
	}
	for i, p := range ps {
		if p.k != KStr {
			continue
		}
		off := 0
		for {
			j := strings.Index(p.s[off:], needle)
			if j < 0 {
				break
			}
			pos = append(pos, [2]int{i, off + j})
			off += j + len(needle)
		}
	}
	return pos, true
}

// Split models strings.Split / SplitN (n<0: unlimited).
func (e *Eng) Split(t *Term, sep string, n int) ([]*Term, bool) {
	if sep == "" || n == 0 {
		return nil, false
	}
	if t == e.Empty {
		return []*Term{e.Empty}, true
	}
	pos, ok := e.occ(t, sep)
	if !ok {
		// SplitN with a decidable prefix
		ps := e.parts(t)
		if n > 0 {
			var pre []*Term
			var out []*Term
			for i, p := range ps {
				if p.k != KStr {
					c := e.csetOf(p)
					for k := 0; k < len(sep); k++ {
						if c.has(sep[k]) {
							return nil, false
						}
					}
					if len(sep) > 1 {
						return nil, false
					}
					pre = append(pre, p)
					continue
				}
				s := p.s
				for len(out) < n-1 {
					j := strings.Index(s, sep)
					if j < 0 {
						break
					}
					out = append(out, e.Concat(append(append([]*Term{}, pre...), e.Str(s[:j]))...))
					pre = nil
					s = s[j+len(sep):]
				}
				if len(out) == n-1 {
					rest := append(append(append([]*Term{}, pre...), e.Str(s)), ps[i+1:]...)
					return append(out, e.Concat(rest...)), true
				}
				pre = append(pre, e.Str(s))
			}
		}
		return nil, false
	}
	ps := e.parts(t)
	var out []*Term
	var cur []*Term
	pi, off := 0, 0
	for _, o := range pos {
		if n > 0 && len(out) == n-1 {
			break
		}
		for pi < o[0] {
			if ps[pi].k == KStr {
				cur = append(cur, e.Str(ps[pi].s[off:]))
			} else {
				cur = append(cur, ps[pi])
			}
			pi++
			off = 0
		}
		cur = append(cur, e.Str(ps[pi].s[off:o[1]]))
		out = append(out, e.Concat(cur...))
		cur = nil
		off = o[1] + len(sep)
	}
	for pi < len(ps) {
		if ps[pi].k == KStr {
			cur = append(cur, e.Str(ps[pi].s[off:]))
		} else {
			cur = append(cur, ps[pi])
		}
		pi++
		off = 0
	}
	out = append(out, e.Concat(cur...))
	return out, true
}

// Contains: three-valued; undecided gives an atom.
func (e *Eng) Contains(t, needle *Term) *Term {
	r := e.app2("contains", t, needle, func(t, needle *Term) *Term {
		if needle.k == KStr {
			if needle.s == "" {
				return e.True
			}
			for _, p := range e.parts(t) {
				if p.k == KStr && strings.Contains(p.s, needle.s) {
					return e.True
				}
			}
			if pos, ok := e.occ(t, needle.s); ok {
				return e.Bool(len(pos) > 0)
			}
			if ps := e.parts(t); len(needle.s) == 1 {
				if len(ps) == 1 && ps[0].k == KOp && ps[0].s == "trimjoin" && ps[0].args[0].k == KStr && !strings.Contains(ps[0].args[0].s, needle.s) {
					ps = ps[0].args[1:]
				}
				if len(ps) > 1 {
					r := e.False
					for _, p := range ps {
						r = e.Or(r, e.Contains(p, needle))
					}
					return r
				}
				if len(ps) == 1 && ps[0].k == KOp && !e.csetOf(ps[0]).has(needle.s[0]) {
					return e.False
				}
				if len(ps) == 1 && ps[0].k == KSym && !e.csetOf(ps[0]).has(needle.s[0]) {
					return e.False
				}
			}
		}
		return e.atom(e.Op("contains", SBool, 0, false, t, needle))
	})
	if r == nil {
		return e.atom(e.Op("contains", SBool, 0, false, t, needle))
	}
	return r
}

func (e *Eng) HasPrefix(t, pre *Term) *Term {
	r := e.app2("hasprefix", t, pre, func(t, pre *Term) *Term {
		if pre.k == KStr {
			if pre.s == "" {
				return e.True
			}
			if d, ok := e.prefixDec(e.parts(t), pre.s); ok {
				return e.Bool(d)
			}
			// t[:n]==pre canonical
		}
		return e.atom(e.Op("hasprefix", SBool, 0, false, t, pre))
	})
	if r == nil {
		return e.atom(e.Op("hasprefix", SBool, 0, false, t, pre))
	}
	return r
}
func (e *Eng) prefixDec(ps []*Term, pre string) (bool, bool) {
	for len(ps) > 0 && pre != "" {
		p := ps[0]
		if p.k == KStr {
			n := min(len(p.s), len(pre))
			if p.s[:n] != pre[:n] {
				return false, true
			}
			pre = pre[n:]
			ps = ps[1:]
			continue
		}
		if p.k == KIte {
			return false, false
		}
		if h, _ := firstLast(p); h != 0 && (h != pre[0] || len(pre) == 1) {
			return h == pre[0], true
		}
		c := e.csetOf(p)
		if c.min > 0 && !c.has(pre[0]) {
			return false, true
		}
		return false, false
	}
	return pre == "", true
}
func (e *Eng) HasSuffix(t, suf *Term) *Term {
	r := e.app2("hassuffix", t, suf, func(t, suf *Term) *Term {
		if suf.k == KStr {
			if suf.s == "" {
				return e.True
			}
			ps := e.parts(t)
			s := suf.s
			for len(ps) > 0 && s != "" {
				p := ps[len(ps)-1]
				if p.k == KStr {
					n := min(len(p.s), len(s))
					if p.s[len(p.s)-n:] != s[len(s)-n:] {
						return e.False
					}
					s = s[:len(s)-n]
					ps = ps[:len(ps)-1]
					continue
				}
				if p.k != KIte {
					c := e.csetOf(p)
					if c.min > 0 && !c.has(s[len(s)-1]) {
						return e.False
					}
				}
				return e.atom(e.Op("hassuffix", SBool, 0, false, t, suf))
			}
			return e.Bool(s == "")
		}
		return e.atom(e.Op("hassuffix", SBool, 0, false, t, suf))
	})
	if r == nil {
		return e.atom(e.Op("hassuffix", SBool, 0, false, t, suf))
	}
	return r
}

// trimStop: whatever the parts that may be empty are, trimming from that side removes nothing.
func (e *Eng) trimStop(ps []*Term, cut string, left bool) bool {
	for k := range ps {
		p := ps[k]
		if !left {
			p = ps[len(ps)-1-k]
		}
		if p.k == KStr {
			b := p.s[0]
			if !left {
				b = p.s[len(p.s)-1]
			}
			return strings.IndexByte(cut, b) < 0
		}
		c := e.csetOf(p)
		for i := 0; i < len(cut); i++ {
			if p.k == KIte || c.has(cut[i]) {
				return false
			}
		}
		if c.min > 0 {
			return true
		}
	}
	return true
}

// TrimSpace and friends: decidable when the ends are literal or holes without the cut set.
func (e *Eng) TrimSet(t *Term, cut string, left, right bool, name string) *Term {
	return e.app1("trim:"+name+cut, t, func(t *Term) *Term {
		ps := append([]*Term{}, e.parts(t)...)
		und := false
		if left {
			for len(ps) > 0 {
				p := ps[0]
				if p.k == KStr {
					s := strings.TrimLeft(p.s, cut)
					if s == "" {
						ps = ps[1:]
						continue
					}
					ps[0] = e.Str(s)
					break
				}
				if h, _ := firstLast(p); h != 0 && strings.IndexByte(cut, h) < 0 {
					break
				}
				c := e.csetOf(p)
				for i := 0; i < len(cut); i++ {
					if p.k == KIte || c.has(cut[i]) {
						und = true
					}
				}
				if c.min == 0 && len(ps) > 1 && !e.trimStop(ps[1:], cut, true) {
					und = true
				}
				break
			}
		}
		if right {
			for len(ps) > 0 {
				p := ps[len(ps)-1]
				if p.k == KStr {
					s := strings.TrimRight(p.s, cut)
					if s == "" {
						ps = ps[:len(ps)-1]
						continue
					}
					ps[len(ps)-1] = e.Str(s)
					break
				}
				if _, l := firstLast(p); l != 0 && strings.IndexByte(cut, l) < 0 {
					break
				}
				c := e.csetOf(p)
				for i := 0; i < len(cut); i++ {
					if p.k == KIte || c.has(cut[i]) {
						und = true
					}
				}
				if c.min == 0 && len(ps) > 1 && !e.trimStop(ps[:len(ps)-1], cut, false) {
					und = true
				}
				break
			}
		}
		if und {
			return e.Op("trim:"+name, SStr, 0, false, t, e.Str(cut))
		}
		return e.Concat(ps...)
	})
}

// ReplaceAll with literal old/new, part by part when no occurrence can span parts.
func (e *Eng) ReplaceAll(t, old, nw *Term) *Term {
	return e.app1(fmt.Sprintf("replaceall:%d:%d", old.id, nw.id), t, func(t *Term) *Term {
		if old.k != KStr || nw.k != KStr || old.s == "" {
			return e.Op("replaceall", SStr, 0, false, t, old, nw)
		}
		if t.k == KStr {
			return e.Str(strings.ReplaceAll(t.s, old.s, nw.s))
		}
		ps := e.parts(t)
		if len(old.s) == 1 {
			out := make([]*Term, len(ps))
			for i, p := range ps {
				switch {
				case p.k == KStr:
					out[i] = e.Str(strings.ReplaceAll(p.s, old.s, nw.s))
				case p.k == KIte:
					out[i] = e.ReplaceAll(p, old, nw)
				case !e.csetOf(p).has(old.s[0]):
					out[i] = p
				case p.k == KOp && p.s == "trimjoin" && p.args[0].k == KStr && !strings.Contains(p.args[0].s, old.s) && nw.s != "":
					as := []*Term{p.args[0]}
					for _, a := range p.args[1:] {
						as = append(as, e.ReplaceAll(a, old, nw))
					}
					out[i] = e.Op("trimjoin", SStr, 0, false, as...)
				case p.k == KOp && p.s == "replaceall" && p.args[1] == old && !strings.Contains(p.args[2].s, old.s):
					out[i] = p
				default:
					out[i] = e.Op("replaceall", SStr, 0, false, p, old, nw)
				}
			}
			return e.Concat(out...)
		}
		if pos, ok := e.occ(t, old.s); ok {
			_ = pos
			parts, _ := e.Split(t, old.s, -1)
			var out []*Term
			for i, p := range parts {
				if i > 0 {
					out = append(out, nw)
				}
				out = append(out, p)
			}
			return e.Concat(out...)
		}
		return e.Op("replaceall", SStr, 0, false, t, old, nw)
	})
}

// ---- regular expressions on symbolic strings

type rxResult struct {
	decided bool
	match   bool
	subs    []*Term // capture groups (nil entry: not participating -> "")
}

func (e *Eng) samples(p *Term) []string {
	switch p.k {
	case KStr:
		return []string{p.s}
	case KIte:
		var out []string
		for i, l := range leafSet(p) {
			if i > 12 {
				break
			}
			ps := e.parts(l)
			sm := make([][]string, len(ps))
			n := 1
			for j, q := range ps {
				sm[j] = e.samples(q)
				n = max(n, len(sm[j]))
			}
			for k := 0; k < n && k < 12; k++ {
				s := ""
				for j := range ps {
					s += sm[j][k*(j+1)%len(sm[j])]
				}
				out = append(out, s)
			}
		}
		sort.SliceStable(out, func(i, j int) bool { return len(out[i]) != 0 && len(out[j]) == 0 })
		return out
	case KOp:
		if p.s == "itoa" {
			lo, hi := e.rng(p.args[0])
			if lo >= 0 {
				var out []string
				for _, v := range []int64{lo, 7, 42, 305, hi} {
					if v >= lo && v <= hi {
						out = append(out, strconv.FormatInt(v, 10))
					}
				}
				return out
			}
			return []string{"0", "7", "42", "-5", "-300"}
		}
		if p.s == "b64" {
			return []string{"AA==", "a+/9", "Zm9vYmFy", ""}
		}
	}
	c := e.csetOf(p)
	al := c.in
	if al == "" {
		for _, ch := range "aZ0 |=,#:_-.{é" {
			if ch < 128 && strings.IndexByte(c.not, byte(ch)) < 0 || ch >= 128 {
				al += string(ch)
			}
		}
		if strings.IndexByte(c.not, '\n') < 0 && c.not == "" && p.x == nil {
			al += "\n"
		}
	}
	var out []string
	add := func(s string) {
		if len(s) < c.min || c.max >= 0 && len(s) > c.max {
			return
		}
		out = append(out, s)
	}
	add("")
	r := []rune(al)
	for i := 0; i < len(r); i++ {
		add(string(r[i]))
		if i < 6 {
			add(strings.Repeat(string(r[i]), 2))
			add(strings.Repeat(string(r[i]), 5))
		}
		add(string(r[i]) + string(r[(i+1)%len(r)]) + string(r[(i*7+3)%len(r)]))
	}
	for n := 1; len(out) == 0 && n <= 64; n++ {
		add(strings.Repeat(string(r[0]), n))
	}
	sort.SliceStable(out, func(i, j int) bool {
		if (len(out[i]) == 0) != (len(out[j]) == 0) {
			return len(out[j]) == 0
		}
		return len(out[i]) < len(out[j])
	})
	return out
}

// Regex evaluates a regular expression over the abstract string: the answer is used only
// when it is uniform over the character classes of every hole.
func (e *Eng) Regex(re *regexp.Regexp, t *Term) rxResult {
	if t.k == KStr {
		m := re.FindStringSubmatchIndex(t.s)
		if m == nil {
			return rxResult{decided: true}
		}
		r := rxResult{decided: true, match: true}
		for i := 0; i+1 < len(m); i += 2 {
			if m[i] < 0 {
				r.subs = append(r.subs, e.Empty)
			} else {
				r.subs = append(r.subs, e.Str(t.s[m[i]:m[i+1]]))
			}
		}
		return r
	}
	ps := e.parts(t)
	if m, d := e.matchDecided(re.String(), t); !d {
		return rxResult{}
	} else if !m {
		return rxResult{decided: true}
	}
	type pos struct{ part, off int }
	var res *rxResult
	var spans [][2]pos
	sm := make([][]string, len(ps))
	maxn := 1
	for i, p := range ps {
		if p.k == KStr {
			sm[i] = []string{p.s}
		} else {
			sm[i] = e.samples(p)
			maxn = max(maxn, len(sm[i]))
		}
	}
	for n := 0; n < maxn*3; n++ {
		var sb strings.Builder
		starts := make([]int, len(ps)+1)
		for i := range ps {
			starts[i] = sb.Len()
			k := n
			if n >= maxn {
				k = n*(2*i+1) + i*5
			}
			sb.WriteString(sm[i][k%len(sm[i])])
		}
		s := sb.String()
		starts[len(ps)] = len(s)
		m := re.FindStringSubmatchIndex(s)
		if res == nil {
			res = &rxResult{decided: true, match: m != nil}
			if m != nil {
				spans = make([][2]pos, len(m)/2)
				for i := range spans {
					spans[i] = [2]pos{{-2, 0}, {-2, 0}}
				}
			}
		} else if res.match != (m != nil) {
			return rxResult{}
		}
		if m == nil {
			continue
		}
		// candidate boundaries: consistent part coordinates over all samples
		for g := 0; g*2+1 < len(m); g++ {
			for sd := 0; sd < 2; sd++ {
				ix := m[2*g+sd]
				if ix < 0 {
					if spans[g][sd].part >= 0 {
						return rxResult{}
					}
					spans[g][sd] = pos{-1, 0}
					continue
				}
				cur := spans[g][sd]
				if cur.part == -1 {
					return rxResult{}
				}
				// all coordinates this index can denote
				valid := func(c pos) bool {
					if c.part >= len(ps) {
						return c.off == 0 && ix == starts[len(ps)]
					}
					return starts[c.part]+c.off == ix && (ps[c.part].k == KStr || c.off == 0)
				}
				if cur.part >= 0 {
					if !valid(cur) {
						// try to re-anchor: keep only if some alternative fits (handled below)
						alt, ok := e.reanchor(ps, starts, ix, sd == 1)
						if !ok {
							return rxResult{}
						}
						_ = alt
						return rxResult{}
					}
					continue
				}
				c, ok := e.reanchor(ps, starts, ix, sd == 1)
				if !ok {
					return rxResult{}
				}
				spans[g][sd] = pos{c[0], c[1]}
			}
		}
	}
	if !res.match {
		return *res
	}
	for _, sp := range spans {
		if sp[0].part < 0 {
			res.subs = append(res.subs, e.Empty)
			continue
		}
		var out []*Term
		for i := sp[0].part; i <= sp[1].part && i < len(ps); i++ {
			lo, hi := 0, -1
			if i == sp[0].part {
				lo = sp[0].off
			}
			if i == sp[1].part {
				hi = sp[1].off
			}
			if ps[i].k == KStr {
				if hi < 0 {
					hi = len(ps[i].s)
				}
				if lo > hi {
					return rxResult{}
				}
				out = append(out, e.Str(ps[i].s[lo:hi]))
			} else if hi != 0 {
				out = append(out, ps[i])
			}
		}
		res.subs = append(res.subs, e.Concat(out...))
	}
	return *res
}

// reanchor maps a byte index to a part coordinate. The first samples use non-empty holes where
// possible, so boundaries are unambiguous except for empty holes; starts prefer the earliest
// part, ends the latest.
func (e *Eng) reanchor(ps []*Term, starts []int, ix int, isEnd bool) ([2]int, bool) {
	if isEnd {
		// latest coordinate: end of a part == start of next; prefer including empty holes
		if ix == starts[len(ps)] {
			// but trailing parts that are holes of zero length belong to the group only if adjacent
			return [2]int{len(ps), 0}, true
		}
		for i := len(ps) - 1; i >= 0; i-- {
			if ix == starts[i] {
				return [2]int{i, 0}, true
			}
			if ps[i].k == KStr && ix > starts[i] && ix < starts[i+1] {
				return [2]int{i, ix - starts[i]}, true
			}
		}
		return [2]int{}, false
	}
	for i := range ps {
		if ix == starts[i] {
			return [2]int{i, 0}, true
		}
		if ps[i].k == KStr && ix > starts[i] && ix < starts[i+1] {
			return [2]int{i, ix - starts[i]}, true
		}
	}
	if ix == starts[len(ps)] {
		return [2]int{len(ps), 0}, true
	}
	return [2]int{}, false
}
