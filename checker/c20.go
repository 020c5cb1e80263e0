package main

import (
	"fmt"
)

func init() { props["C20"] = c20 }

// inkBits are the pixels a text sets, by row.
type inkBits struct {
	px   map[[2]int]bool
	w, h int // what the library reports
}

func (a *inkBits) shift(dx, dy int) map[[2]int]bool {
	r := map[[2]int]bool{}
	for p := range a.px {
		r[[2]int{p[0] + dx, p[1] + dy}] = true
	}
	return r
}

func differs(got, want map[[2]int]bool) string {
	for p := range got {
		if !want[p] {
			return fmt.Sprintf("pixel %d,%d is lit and should not be", p[0], p[1])
		}
	}
	for p := range want {
		if !got[p] {
			return fmt.Sprintf("pixel %d,%d is not lit and should be", p[0], p[1])
		}
	}
	return ""
}

type textCfg struct {
	text     string
	x, y     int
	font, pr int
	sh, sv   int
	sp       int
	used     bool
}

func (t textCfg) String() string {
	return fmt.Sprintf("%q at %d,%d, font %d, proportional %d, size %dx%d, spacing %d, used before %v", t.text, t.x, t.y, t.font, t.pr, t.sh, t.sv, t.sp, t.used)
}

// inker derives what texts set.
type inker struct {
	m    *mono
	st0  *State
	want map[[2]int]*Term
	sub  *Subst
	memo map[textCfg]*inkBits
}

func newInker(s *Scenario, W, H int) *inker {
	m := s.newMono(0, W, H, [4]int{0, 0, W, H})
	k := &inker{m: m, st0: m.st, want: map[[2]int]*Term{}, sub: newSubst(), memo: map[textCfg]*inkBits{}}
	for _, o := range m.old {
		k.sub.m[o] = s.IntT(0, 8, false)
	}
	for b, v := range map[*Term]*Term{m.col: s.True, m.inv: s.False} {
		if b.k == KIte {
			b = b.args[0]
		}
		k.sub.m[b] = v
	}
	return k
}

// ink of a text: nil if it is not a set of pixels that get the text colour, whatever was there before.
func (k *inker) ink(t textCfg) *inkBits {
	if r, ok := k.memo[t]; ok {
		return r
	}
	m, s := k.m, k.m.s
	m.st = k.st0.copy()
	k.memo[t] = nil
	ret := m.call("MonoInk", m.img, m.I(t.x), m.I(t.y), s.Str(t.text), m.col, m.I(t.font), s.Bool(t.pr == 1), m.I(t.sh), m.I(t.sv), m.I(t.sp), s.Bool(t.used))
	if ret == nil {
		return nil
	}
	s.oblPanics("panic", m.st)
	n := [4]int{}
	for i := range n {
		if ret.args[i].k != KInt {
			s.undecided("what is reported of a text is not constant")
			return nil
		}
		n[i] = int(ret.args[i].n)
	}
	if n[0] != n[2] || n[1] != n[3] {
		s.violate("metrics", "metrics change", t.String()+fmt.Sprintf(": reported as %dx%d before and %dx%d after rendering", n[0], n[1], n[2], n[3]))
		return nil
	}
	s.ok()
	r := &inkBits{px: map[[2]int]bool{}, w: n[0], h: n[1]}
	before := s.r.Obligations - s.r.Proved
	for i, g := range m.content() {
		if g == m.old[i] {
			s.ok()
			continue
		}
		v := s.subst(g, k.sub)
		if v.k != KInt {
			s.undecided("ink is not constant")
			return nil
		}
		mask := int(v.n)
		want := k.want[[2]int{i, mask}]
		if want == nil {
			kt, nk := s.IntT(int64(mask), 8, false), s.IntT(int64(255-mask), 8, false)
			set, clr := s.bin("or", m.old[i], kt), s.bin("and", m.old[i], nk)
			want = s.ite(m.col, s.ite(m.inv, clr, set), s.ite(m.inv, set, clr))
			k.want[[2]int{i, mask}] = want
		}
		m.eq("ink", "text sets pixels to its colour", g, want)
		for b := 0; b < 8; b++ {
			if mask&(128>>b) != 0 {
				r.px[[2]int{i%m.wib*8 + b, i / m.wib}] = true
			}
		}
	}
	if s.r.Obligations-s.r.Proved != before {
		return nil
	}
	k.memo[t] = r
	return r
}

// check decides the relations for one text.
func (k *inker) check(t textCfg) {
	s := k.m.s
	got := k.ink(t)
	if got == nil {
		return
	}
	bad := func(rule, key, why string) {
		s.violate(rule, key, t.String()+": "+why)
	}
	// line feeds: what comes after the first one, and before it
	var lf bool
	for i := 0; i < len(t.text); i++ {
		lf = lf || t.text[i] == '\n' && i+1 < len(t.text)
	}
	// the ink stays inside the box
	out := ""
	for p := range got.px {
		if p[0] < t.x || p[1] < t.y || p[0] >= t.x+got.w+t.sh || p[1] >= t.y+got.h {
			out = fmt.Sprintf("pixel %d,%d is lit, the box is %d,%d %dx%d", p[0], p[1], t.x, t.y, got.w+t.sh, got.h)
		}
	}
	lines := k.compose(t)
	if out != "" {
		if lf && lines != nil && differs(got.px, lines) == "" {
			bad("box", "text after a line feed", out)
		} else {
			bad("box", "ink outside the box", out)
		}
	} else {
		s.ok()
	}
	// translation
	base := t
	base.x, base.y, base.used = 5, 3, false
	if base != t {
		if b := k.ink(base); b != nil {
			d := differs(got.px, b.shift(t.x-base.x, t.y-base.y))
			switch {
			case d == "":
				s.ok()
			case lf && lines != nil && differs(got.px, lines) == "":
				bad("translation", "text after a line feed", "compared with "+base.String()+": "+d)
			default:
				bad("translation", "another cursor position", "compared with "+base.String()+": "+d)
			}
		}
	}
	// scale
	one := base
	one.sh, one.sv = 1, 1
	one.x, one.y = t.x, t.y
	if one.sh != t.sh || one.sv != t.sv {
		if b := k.ink(one); b != nil {
			want := map[[2]int]bool{}
			for p := range b.px {
				for i := 0; i < t.sh; i++ {
					for j := 0; j < t.sv; j++ {
						want[[2]int{t.x + (p[0]-t.x)*t.sh + i, t.y + (p[1]-t.y)*t.sv + j}] = true
					}
				}
			}
			d := differs(got.px, want)
			switch {
			case d == "":
				s.ok()
			case (t.sp > 0 && t.sh > 1 || lf) && lines != nil && differs(got.px, lines) == "":
				if lf {
					bad("scale", "text after a line feed", d)
				} else {
					bad("scale", "character spacing is not enlarged", d)
				}
			default:
				bad("scale", "another size", d)
			}
		}
	}
}

// compose is the text put together from its characters: enlarged, advanced by their enlarged widths and the (not enlarged) spacing, with line feeds that return to the left edge.
func (k *inker) compose(t textCfg) map[[2]int]bool {
	r := map[[2]int]bool{}
	x, y := t.x, t.y
	for _, ch := range t.text {
		one := textCfg{text: string(ch), x: 5, y: 3, font: t.font, pr: t.pr, sh: 1, sv: 1}
		b := k.ink(one)
		if b == nil {
			return nil
		}
		switch ch {
		case '\n':
			x, y = 0, y+b.h*t.sv
			continue
		case '\r':
			continue
		}
		for p := range b.px {
			for i := 0; i < t.sh; i++ {
				for j := 0; j < t.sv; j++ {
					r[[2]int{x + (p[0]-5)*t.sh + i, y + (p[1]-3)*t.sv + j}] = true
				}
			}
		}
		x += (b.w+1)*t.sh + t.sp
	}
	return r
}

func c20(c *Check) {
	c.expl = "for every character of every font, in both width modes, alone and between others, the set of pixels its rendering gives the text colour is derived by value flow through the library (arbitrary previous content, colour and inversion; font tables, cursor and sizes constant), together with the reported width and height; the relations are decided on these sets"
	c.rules = []string{
		"ink: rendering a text gives a fixed set of pixels the text colour and leaves every other pixel as it was",
		"metrics: the reported width and height do not depend on what was rendered or set before",
		"box: the ink lies between the cursor and reported width plus one size step, reported line height",
		"translation: the ink at another cursor position is the ink moved",
		"scale: the ink at another size is the size 1 ink enlarged",
		"panic: no index is out of range",
	}
	for _, f := range []string{"MonoCanvas", "MonoSlice", "MonoInk"} {
		if c.need("rpspec", f) == nil {
			return
		}
	}
	partners := []string{"A", "i", " ", "W", "_"}
	for font := 0; font < 3; font++ {
		for pr := 0; pr < 2; pr++ {
			for blk := 0; blk < 256; blk += 16 {
				font, pr, blk := font, pr, blk
				part := func(what string, W, H int, f func(ch int, one, p string, do func(text string, sh, sv, sp int))) {
					c.scenario(fmt.Sprintf("font %d proportional %d characters %d-%d %s", font, pr, blk, blk+15, what), func(s *Scenario) {
						k := newInker(s, W, H)
						for ch := blk; ch < blk+16; ch++ {
							if c.enough() {
								return
							}
							k.memo = map[textCfg]*inkBits{}
							i := 0
							f(ch, string(rune(ch)), partners[ch%len(partners)], func(text string, sh, sv, sp int) {
								i++
								xy := [][2]int{{0, 0}, {5, 3}, {7, 1}, {1, 10}, {16, 8}}[(ch+i/3)%5]
								k.check(textCfg{text: text, x: xy[0], y: xy[1], font: font, pr: pr, sh: sh, sv: sv, sp: sp, used: (ch/5+i)%2 == 0})
							})
						}
					})
				}
				part("alone", 56, 44, func(ch int, one, p string, do func(string, int, int, int)) {
					do(one, 1, 1, 0)
					for z := 0; z < 16; z++ {
						if (z+z/4+ch)%2 == 0 || c.thorough() {
							do(one, 1+z%4, 1+z/4, (ch/3)%4)
						}
					}
					if c.thorough() {
						for z := 0; z < 64; z++ {
							do(one, 1+z%4, 1+z/4%4, z/16)
						}
					}
				})
				H := 60
				if c.thorough() {
					H = 80
				}
				part("with others", 104, H, func(ch int, one, p string, do func(string, int, int, int)) {
					for z, q := range partners {
						if (z+ch)%3 == 0 || c.thorough() {
							do(one+q, 1, 1+(ch+z)%3, (z+ch/5)%4)
							do(q+one, 1+(ch+z)%4, 1, 0)
						}
					}
					do(one+p, 2, 2, 1+ch%3)
					do(p+one+p, 1+ch%2, 1+(ch+1)%2, 0)
					if c.thorough() {
						for z := 0; z < 64; z++ {
							do(one+one, 1+z%4, 1+z/4%4, z/16)
							do(p+one, 1+z%4, 1+z/4%4, z/16)
							do(one+p, 1+z%4, 1+z/4%4, z/16)
						}
					}
				})
			}
			c.scenario(fmt.Sprintf("font %d proportional %d texts", font, pr), func(s *Scenario) {
				k := newInker(s, 256, 80)
				for i, tx := range []string{"", "Hello, World", "\xff\xfe", "a\xe6b", "\u20ac\u00e6\u00ff", "fjord|ijl!.,", "mmm   ...", "\x00\x01\x7f~", "A\r\rB", "\nA", "A\nB", "tail\n"} {
					for z := 0; z < 6; z++ {
						if c.enough() {
							return
						}
						sh, sv := 1+(z+i)%2, 1+z%3
						k.check(textCfg{text: tx, x: []int{0, 5, 9}[z%3], y: z, font: font, pr: pr, sh: sh, sv: sv, sp: z % 4, used: z%2 == 1})
					}
				}
			})
			c.scenario(fmt.Sprintf("font %d proportional %d long texts", font, pr), func(s *Scenario) {
				k := newInker(s, 904, 24)
				for i, tx := range []string{"The quick brown fox jumps over the lazy dog 0123456789", "\x01\x80WWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWWW                i", "................................................................"} {
					for z := 0; z < 3; z++ {
						if c.enough() {
							return
						}
						k.check(textCfg{text: tx, x: 1 + i, y: z, font: font, pr: pr, sh: 1 + (z+i)%2*pr, sv: 1 + (z+i)%2, sp: z * (1 - (z+i)%2), used: z%2 == 1})
					}
				}
			})
			for _, far := range []bool{true, false} {
				far := far
				c.scenario(fmt.Sprintf("font %d proportional %d far positions, horizontally %v", font, pr, far), func(s *Scenario) {
					W, H, at := 56, 300, [][2]int{{0, 254}, {5, 256}, {9, 127}}
					if far {
						W, H, at = 336, 26, [][2]int{{255, 0}, {256, 1}, {290, 5}, {129, 2}}
					}
					k := newInker(s, W, H)
					for z, xy := range at {
						if c.enough() {
							return
						}
						k.check(textCfg{text: "A\x80|", x: xy[0], y: xy[1], font: font, pr: pr, sh: 1 + z%2*(xy[0]/100%2), sv: 1 + z%2, sp: 0, used: z%2 == 1})
					}
				})
			}
		}
	}
}
