package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C18"] = c18 }

// tstate is a text state and a tile geometry.
type tstate struct {
	absent                int
	fmtg, pair, si, mi    int
	solid, fixed          bool
	iv, iv2               int
	title, line1, line2   string
	cface, cw, ch         int
	tface, tw, th         int
	ufs, pad, sp          int
	scale, rl, rh, ll, lh int
	pk, pc, bk, bc        int
	w, h, shrink, border  int
	how                   int
}

func (t tstate) String() string {
	return fmt.Sprintf("tile %dx%d shrink %d border %d; format %d pair %d icons %d/%d solid %v fixed %v values %d/%d texts %q %q %q fonts %d %dx%d, %d %dx%d size %d padding %d spacing %d scale %d %d..%d limits %d..%d colours %d:%#x %d:%#x absent %d way %d",
		t.w, t.h, t.shrink, t.border, t.fmtg, t.pair, t.si, t.mi, t.solid, t.fixed, t.iv, t.iv2, t.title, t.line1, t.line2, t.cface, t.cw, t.ch, t.tface, t.tw, t.th, t.ufs, t.pad, t.sp, t.scale, t.rl, t.rh, t.ll, t.lh, t.pk, t.pc, t.bk, t.bc, t.absent, t.how)
}

// active is the area left by shrink and border, x0 y0 x1 y1.
func (t tstate) active() (int, int, int, int) {
	if t.border > 0 {
		return t.border, t.border, t.w - t.border, t.h - t.border
	}
	return 0, 0, t.w - t.shrink&1, t.h - t.shrink>>1&1
}

// tile is one rendering.
type tile struct {
	t    tstate
	on   []bool // by pixel
	k    *conv
	img  *Term
	wib  int
	cols [2]int
}

func (p *tile) at(x, y int) bool { return p.on[y*p.t.w+x] }

// tiler renders tiles in one scenario.
type tiler struct {
	*conv
	st0  *State
	keep bool // one state for all renderings, as in one process
}

func newTiler(s *Scenario) *tiler {
	k := s.newConv()
	return &tiler{conv: k, st0: k.st}
}

// render derives the image of a state: arbitrary inversion, everything else given. nil: reported.
func (r *tiler) render(t tstate) *tile {
	s := r.s
	if !r.keep {
		r.st = r.st0.copy()
	}
	inv := s.SymBool("inverted")
	B := s.Bool
	m := r.call("rendering", "TileState", r.I(t.absent), r.I(t.fmtg), r.I(t.pair), r.I(t.si), r.I(t.mi), B(t.solid), inv, B(t.fixed), r.I(t.iv), r.I(t.iv2),
		s.Str(t.title), s.Str(t.line1), s.Str(t.line2), r.I(t.cface), r.I(t.cw), r.I(t.ch), r.I(t.tface), r.I(t.tw), r.I(t.th), r.I(t.ufs), r.I(t.pad), r.I(t.sp),
		r.I(t.scale), r.I(t.rl), r.I(t.rh), r.I(t.ll), r.I(t.lh))
	if m == nil {
		return nil
	}
	if t.pk|t.bk != 0 {
		r.call("rendering", "TileColors", m, r.I(t.pk), r.I(t.pc), r.I(t.bk), r.I(t.bc))
	}
	f := s.c.need("rpspec", "Tile")
	n := len(s.obls)
	img, st := s.runFnIn(f, r.st, r.I(t.how), m, r.I(t.w), r.I(t.h), r.I(t.shrink), r.I(t.border))
	_ = n
	if st == nil {
		s.violate("panic", "rendering", t.String()+": no path returns")
		s.obls = nil
		return nil
	}
	r.st = st
	s.oblPanics("panic", r.st)
	p := &tile{t: t, k: r.conv, img: img, wib: (t.w + 7) / 8}
	sz := r.call("size", "TileSize", img)
	if sz == nil {
		return nil
	}
	if sz.args[0] != r.I(t.w) || sz.args[1] != r.I(t.h) {
		s.violate("size", "size of the image", t.String())
		return nil
	}
	s.ok()
	for i := range p.cols {
		if sz.args[i+2].k != KInt {
			s.undecided("colours are not constant")
			return nil
		}
		p.cols[i] = int(sz.args[i+2].n)
	}
	sl := r.call("content", "TileBits", img)
	if sl == nil {
		return nil
	}
	if gl := s.sliceLen(sl, r.st); gl != r.I(p.wib*t.h) {
		s.violate("size", "size of the pixel buffer", t.String())
		return nil
	}
	s.ok()
	p.on = make([]bool, t.w*t.h)
	sub := [2]*Subst{newSubst(), newSubst()}
	b := inv
	if b.k == KIte {
		b = b.args[0]
	}
	sub[0].m[b], sub[1].m[b] = s.False, s.True
	for i := 0; i < p.wib*t.h; i++ {
		g := s.elemAt(sl, int64(i), r.st, byteT)
		a, z := s.subst(g, sub[0]), s.subst(g, sub[1])
		if a.k != KInt || z.k != KInt {
			for _, src := range []string{"rand#", "now#", "now(", "time.", "math/rand"} {
				if strings.Contains(s.show(a)+s.show(z), src) {
					s.c.violate("inputs", "clock or random numbers", fmt.Sprintf("%v: the picture depends on %s", t, s.show(a)))
					return nil
				}
			}
			s.undecided("content is not constant: " + s.show(a))
			return nil
		}
		for j := 0; j < 8 && i%p.wib*8+j < t.w; j++ {
			x, y := i%p.wib*8+j, i/p.wib
			on, on1 := a.n>>(7-j)&1 != 0, z.n>>(7-j)&1 != 0
			p.on[y*t.w+x] = on
			if on == on1 {
				s.violate("complement", "inverted rendering", fmt.Sprintf("%v: pixel %d,%d is %v in both renderings", t, x, y, on))
				return nil
			}
		}
		s.ok()
	}
	x0, y0, x1, y1 := t.active()
	for y := 0; y < t.h; y++ {
		for x := 0; x < t.w; x++ {
			if p.at(x, y) && (x < x0 || y < y0 || x >= x1 || y >= y1) {
				s.violate("clip", "outside the active area", fmt.Sprintf("%v: pixel %d,%d is lit", t, x, y))
				return nil
			}
		}
	}
	s.ok()
	return p
}

// refColor is the colour a state requests; -1: nothing is requested.
func refColor(kind, v int) int {
	six := []int64{0b111111, 0, 0b111111, 0b111101, 0b110000, 0b110101, 0b110011, 0b010011, 0b110100, 0b111100, 0b000011, 0b000111, 0b011011, 0b001111, 0b011100, 0b001100, 0b001101, 0b101010, 0b010101}
	switch kind {
	case 1:
		if v &= 31; v >= len(six) {
			v = 0
		}
		return int(refSix(six[v]))
	case 2:
		two := func(c int) int64 { return int64(c & 255 * 3 / 255) }
		return int(refSix(two(v>>16)<<4 | two(v>>8)<<2 | two(v)))
	}
	return -1
}

// colours: the export has the colours requested.
func (p *tile) colours() {
	s := p.k.s
	want := [2]int{refColor(p.t.pk, p.t.pc), refColor(p.t.bk, p.t.bc)}
	if p.t.pk == 0 {
		want[0] = 0xffff
	}
	if p.t.bk == 0 {
		want[1] = 0
	}
	inv := s.SymBool("inverted")
	if inv.k == KIte {
		inv = inv.args[0]
	}
	sub := newSubst()
	sub.m[inv] = s.False
	for i, got := range p.k.slice("RGB export", p.k.call("RGB export", "TileRGB", p.img), p.t.w*p.t.h*2) {
		w := want[1]
		if p.on[i/2] {
			w = want[0]
		}
		if w < 0 {
			continue
		}
		b := int64(w>>8) & 255
		if i%2 == 1 {
			b = int64(w) & 255
		}
		v := s.subst(got, sub)
		switch {
		case v == s.IntT(b, 8, false):
			s.ok()
		case v.k != KInt:
			s.undecided("export is not constant")
			return
		default:
			s.violate("colour", "colours of the RGB export", fmt.Sprintf("%v: byte %d of the export is %#x, the colour requested is %#x", p.t, i, v.n, w))
			return
		}
	}
}

func (p *tile) same(q *tile, key string) {
	s := p.k.s
	for i := range p.on {
		if p.on[i] != q.on[i] {
			s.violate("inputs", key, fmt.Sprintf("%v: pixel %d,%d differs from %v", q.t, i%p.t.w, i/p.t.w, p.t))
			return
		}
	}
	if p.cols != q.cols {
		s.violate("inputs", key, fmt.Sprintf("%v: colours differ", q.t))
		return
	}
	s.ok()
}

// colsOf are the columns with lit pixels in some rows, relative to the first one.
func (p *tile) colsOf(y0, y1 int) (first int, rel string, width int) {
	first = -1
	for x := 0; x < p.t.w; x++ {
		c := byte('.')
		for y := y0; y < y1; y++ {
			if y >= 0 && y < p.t.h && p.at(x, y) {
				c = '#'
			}
		}
		if c == '#' {
			if first < 0 {
				first = x
			}
			width = x - first + 1
		}
		if first >= 0 {
			rel += string(c)
		}
	}
	if first >= 0 {
		rel = rel[:width]
	}
	return
}

// textInk are the columns a text lights on its own.
func (r *tiler) textInk(t tstate, text string) (rel string, lead, width, strw, lh int, ok bool) {
	s := r.s
	r.st = r.st0.copy()
	h, v := t.cw&3, t.ch&3
	ufs := t.ufs
	if t.absent&1 != 0 {
		ufs = 0
	}
	if t.absent&3 != 0 {
		h, v = 0, 0
	}
	if ufs < 1 {
		ufs = 1
	}
	if ufs > 4 {
		ufs = 4
	}
	if h == 0 {
		h = ufs
	}
	if v == 0 {
		v = ufs
	}
	sp := t.sp & 3
	if t.absent&1 != 0 {
		sp = 0
	}
	face := t.cface & 7
	if t.absent&3 != 0 {
		face = 0
	}
	W, H := 300, 40
	ret := r.call("text", "TileText", r.I(W), r.I(H), s.Str(text), r.I(face), s.True, r.I(h), r.I(v), r.I(sp))
	if ret == nil || ret.args[1].k != KInt || ret.args[2].k != KInt {
		return
	}
	img := ret.args[0]
	strw, lh = int(ret.args[1].n), int(ret.args[2].n)
	sl := r.call("text", "TileBits", img)
	p := &tile{t: tstate{w: W, h: H}, on: make([]bool, W*H)}
	for i, wib := 0, (W+7)/8; i < wib*H; i++ {
		g := s.elemAt(sl, int64(i), r.st, byteT)
		if g.k != KInt {
			return
		}
		for j := 0; j < 8 && i%wib*8+j < W; j++ {
			p.on[i/wib*W+i%wib*8+j] = g.n>>(7-j)&1 != 0
		}
	}
	lead, rel, width = p.colsOf(0, H)
	return rel, lead, width, strw, lh, true
}

// centred decides the horizontal position of one line of text.
func (r *tiler) centred(p *tile, text string, y0, y1 int) {
	s := r.s
	rel, lead, width, strw, _, ok := r.textInk(p.t, text)
	if !ok {
		s.undecided("ink of " + text)
		return
	}
	x0, _, x1, _ := p.t.active()
	if lead+width > x1-x0 {
		return // does not fit
	}
	first, got, _ := p.colsOf(y0, y1)
	if got != rel {
		s.violate("centre", "text that fits", fmt.Sprintf("%v: %q is not rendered as it is on its own", p.t, text))
		return
	}
	if width == 0 {
		s.ok()
		return
	}
	left, right := first-x0-lead, x1-first-width
	d := left - right
	if d < 0 {
		d = -d
	}
	if d <= 2 {
		s.ok()
		return
	}
	key := "text that fits"
	if free := x1 - x0 - strw; free >= 0 && left == free>>1 { // centred by its reported width
		last := []rune(text)
		switch {
		case p.t.sp&3 >= 2 && strw-lead-width <= p.t.sp&3+2:
			key = "character spacing counted after the last character"
		case last[len(last)-1] < 32 || last[len(last)-1] > 127:
			key = "text that ends in a character outside the font"
		}
	}
	s.violate("centre", key, fmt.Sprintf("%v: %q has %d columns to its left and %d to its right", p.t, text, left, right))
}

func c18(c *Check) {
	c.expl = "the renderer is analysed by value flow on enumerated text states and geometries with the inversion flag arbitrary: the image is derived as a function of the flag, and size, absence of panics, clipping, complement, colours, centring and growth of the scale bar are decided on the derived images; that it depends on nothing else is decided by an effect analysis of everything it calls"
	c.rules = []string{
		"size: the image has the requested size",
		"panic: no index is out of range, no nil dereference, every path returns",
		"clip: no pixel outside the active area left by shrink and border is lit",
		"complement: every visible pixel of the inverted rendering is the opposite",
		"colour: the RGB export has the colours requested",
		"inputs: rendering again, or after another state, gives the same; no package-level state is read that anything writes, no clock, random number or map order is used",
		"centre: a line of text that fits is centred to within a pixel",
		"bar: what a strength bar lights for a value it lights for every larger one",
	}
	for _, f := range []string{"Tile", "TileState", "TileColors", "TileBits", "TileRGB", "TileSize", "TileText"} {
		if c.need("rpspec", f) == nil {
			return
		}
	}
	c18Inputs(c)
	c18States(c)
	c18Centre(c)
	c18Bar(c)
	c18Colours(c)
	c18Remembered(c)
}

// mix picks values for many factors at once so that all pairs of values occur.
type mix struct{ n uint64 }

func (m *mix) pick(n int) int {
	m.n = m.n*6364136223846793005 + 1442695040888963407
	return int(m.n >> 33 % uint64(n))
}

func (m *mix) of(v ...int) int { return v[m.pick(len(v))] }

func c18States(c *Check) {
	sizes := [][2]int{{64, 32}, {64, 48}, {112, 32}, {48, 24}, {32, 16}, {64, 38}, {52, 24}, {36, 52}, {17, 33}, {8, 8}, {3, 2}, {1, 1}, {0, 0}, {0, 5}, {7, 0}, {21, 11}, {40, 64}, {96, 20}}
	texts := []string{"", "Ab", "A", "Camera 1", "A long title that does not fit", "\xff\xfe", "\u00e6\u00f8\u20ac", " x ", "two\nlines", "iiiiiiii", "\x00|", "0"}
	ints := []int{0, 1, -1, 50, 100, 999, 1000, -12345, 2147483647, -2147483648, 7}
	per := 6
	groups := 190
	if c.thorough() {
		groups = 1500
	}
	state := func(m *mix) tstate {
		sz := sizes[m.pick(len(sizes))]
		t := tstate{
			absent: m.of(0, 0, 0, 0, 1, 2, 4, 6, 8, 9, 15), fmtg: m.of(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0, 7, 13, 99, -1), pair: m.of(0, 0, 1, 2, 3, 4, 5, -1),
			si: m.pick(5), mi: m.pick(10) - 1, solid: m.pick(2) == 0, fixed: m.pick(3) == 0,
			iv: ints[m.pick(len(ints))], iv2: ints[m.pick(len(ints))],
			title: texts[m.pick(len(texts))], line1: texts[m.pick(len(texts))], line2: texts[m.pick(len(texts))],
			cface: m.pick(8), cw: m.pick(4), ch: m.pick(4), tface: m.pick(8), tw: m.pick(4), th: m.pick(4),
			ufs: m.pick(6), pad: m.pick(4), sp: m.pick(4),
			scale: m.pick(5), rl: ints[m.pick(len(ints))], rh: ints[m.pick(len(ints))], ll: ints[m.pick(len(ints))], lh: ints[m.pick(len(ints))],
			pk: m.pick(4), bk: m.pick(4), w: sz[0], h: sz[1], shrink: m.pick(4), border: m.of(0, 0, 1, 2, 3), how: m.pick(3),
		}
		col := func(k int) int {
			if k == 1 {
				return m.pick(32)
			}
			return m.pick(1 << 24)
		}
		t.pc, t.bc = col(t.pk), col(t.bk)
		return t
	}
	run := func(name string, g, n int, next func(i int) tstate) {
		c.scenario(name, func(s *Scenario) {
			r := newTiler(s)
			for i := 0; i < n; i++ {
				if c.enough() {
					return
				}
				t := next(i)
				t.how = 0
				a := r.render(t)
				if a == nil {
					continue
				}
				if i%3 == 0 {
					a.colours()
				}
				if i%3 == 1 {
					t.how = 1 + (i/3+g)%3
					if b := r.render(t); b != nil {
						a.same(b, []string{"", "rendered again", "rendered after another state", "rendered after another geometry"}[t.how])
					}
				}
			}
		})
	}
	for g := 0; g < groups; g++ {
		m := &mix{uint64(g)*977 + 5}
		run(fmt.Sprintf("states %d", g), g, per, func(int) tstate { return state(m) })
	}
	// every value of every single field on a plain state
	plain := tstate{title: "Title", line1: "Line", line2: "Two", iv: 50, iv2: 8, rh: 100, lh: 90, ll: 5, w: 48, h: 36, scale: 1}
	var one []tstate
	add := func(f func(t *tstate)) { t := plain; f(&t); one = append(one, t) }
	for v := -1; v < 15; v++ {
		for pr := 0; pr < 5; pr++ {
			v, pr := v, pr
			add(func(t *tstate) { t.fmtg, t.pair = v, pr })
		}
	}
	for v := 0; v < 16; v++ {
		v := v
		add(func(t *tstate) { t.absent = v })
		add(func(t *tstate) { t.absent, t.fmtg, t.pair = v, 10+v&1, v&3 })
		add(func(t *tstate) { t.shrink, t.border = v&3, v>>2 })
		add(func(t *tstate) { t.shrink, t.border, t.fmtg, t.solid = v&3, v>>2, 7, true; t.scale = 2 })
		add(func(t *tstate) { t.shrink, t.border, t.fmtg, t.si, t.mi = v&3, v>>2, 0, 3, 1+v&3; t.scale = 3 })
		add(func(t *tstate) { t.cw, t.ch = v&3, v>>2 })
		add(func(t *tstate) { t.tw, t.th = v&3, v>>2 })
		add(func(t *tstate) { t.si, t.mi = v&3, v>>2 })
		add(func(t *tstate) { t.si, t.mi, t.pair, t.title = v&3, 4+v>>2, v&1, "" })
		add(func(t *tstate) { t.cface, t.tface, t.fixed = v&7, 7-v&7, v > 7 })
		add(func(t *tstate) { t.pad, t.sp, t.solid = v&3, v>>2, v&4 != 0 })
		add(func(t *tstate) { t.ufs, t.fmtg = v/2, 10+v&1 })
		add(func(t *tstate) { t.scale, t.iv = v&3, 200*(v>>2)-150 })
		add(func(t *tstate) { t.w, t.h, t.si = 20+v, 14+v, 2 })
		add(func(t *tstate) { t.w, t.h, t.border = v, 9+v, 3 })
		add(func(t *tstate) { t.w, t.h, t.border, t.fmtg = 2+v, v, v&3, 10 })
		add(func(t *tstate) { t.w, t.h, t.shrink, t.fmtg = v, v&3, v&3, 11 })
		add(func(t *tstate) {
			t.title, t.line1, t.line2 = texts[v%len(texts)], texts[(v+3)%len(texts)], texts[(v+5)%len(texts)]
		})
	}
	for i := range ints {
		i := i
		add(func(t *tstate) { t.rl, t.rh, t.scale = ints[i], ints[(i+4)%len(ints)], 1+i%3 })
		add(func(t *tstate) { t.rl, t.rh, t.scale = ints[i], ints[i], 1+i%3 })
		add(func(t *tstate) { t.ll, t.lh, t.scale = ints[i], ints[(i+3)%len(ints)], 1+i%3 })
		add(func(t *tstate) {
			t.rl, t.rh, t.ll, t.lh, t.scale, t.iv = -2147483648, 2147483647, ints[i], ints[(i+6)%len(ints)], 1+i%3, ints[(i+1)%len(ints)]
		})
		add(func(t *tstate) { t.iv, t.iv2, t.pair, t.fmtg = ints[i], ints[(i+5)%len(ints)], i%5, i })
	}
	for lo := 0; lo < len(one); lo += 8 {
		lo := lo
		hi := lo + 8
		if hi > len(one) {
			hi = len(one)
		}
		run(fmt.Sprintf("single fields %d", lo), lo/8, hi-lo, func(i int) tstate { return one[lo+i] })
	}
	// wide tiles
	wide := []tstate{
		{w: 256, h: 20, title: "Wide title", solid: true, fmtg: 7},
		{w: 256, h: 64, title: "T", line1: "L", iv: 3, scale: 1, rh: 9, border: 1, pair: 4, mi: 3},
		{w: 112, h: 64, fmtg: 11, line1: "Upper", line2: "Lower", ufs: 2, shrink: 3},
		{w: 64, h: 256, title: "High", line1: "L", scale: 3, rh: 9, iv: 2, si: 3},
		{w: 256, h: 8, title: "Low", si: 2},
	}
	for i, t := range wide {
		t := t
		run(fmt.Sprintf("wide tile %d", i), i, 1, func(int) tstate { return t })
	}
}

func c18Centre(c *Check) {
	texts := []string{"A", "Hello", "fjord", "ijl!", "W", "0 1", "\u00e6", "x\u00e6", "\u00e6x", "...", "|", "Test 42", "@"}
	sizes := [][2]int{{64, 32}, {48, 24}, {65, 33}, {112, 32}, {30, 40}, {63, 20}}
	n := 0
	for i, wh := range sizes {
		for ufs := 0; ufs <= 5; ufs++ {
			i, wh, ufs := i, wh, ufs
			c.scenario(fmt.Sprintf("centring on %dx%d, size %d", wh[0], wh[1], ufs), func(s *Scenario) {
				r := newTiler(s)
				m := &mix{uint64(i*100 + ufs + n)}
				for j, tx := range texts {
					if c.enough() {
						return
					}
					if !c.thorough() && (i+ufs+j)%2 == 1 {
						continue
					}
					t := tstate{fmtg: 10, title: tx, line1: "no", line2: "never", ufs: ufs, w: wh[0], h: wh[1], cface: m.pick(8), cw: m.of(0, 0, 0, 1, 2, 3), ch: m.of(0, 0, 0, 1, 2, 3), sp: m.of(0, 0, 0, 1, 2, 3), shrink: m.pick(4), border: m.of(0, 0, 1, 2, 3), absent: m.of(0, 0, 0, 4, 2, 8), iv: m.pick(100), si: m.pick(4), mi: m.pick(8), pair: m.pick(5), solid: m.pick(2) == 0}
					_, y0, _, y1 := t.active()
					_, _, _, _, lh, ok := r.textInk(t, tx)
					if ok && lh <= y1-y0 {
						if p := r.render(t); p != nil {
							r.centred(p, tx, y0, y1)
						}
					}
					t.fmtg, t.title, t.line1, t.line2 = 11, "no", tx, texts[(j+ufs+3)%len(texts)]
					if ok && 2*lh <= y1-y0 {
						if p := r.render(t); p != nil {
							mid := y0 + (y1-y0)/2
							r.centred(p, t.line1, y0, mid)
							r.centred(p, t.line2, mid, y1)
						}
					}
				}
			})
		}
	}
}

func c18Bar(c *Check) {
	type rg struct{ lo, hi int }
	ranges := []rg{{0, 100}, {-50, 50}, {0, 1}, {0, 2147483647}, {-2147483648, 2147483647}, {-2000000000, 2000000000}, {100, 107}, {-2147483648, 0}, {0, 3}}
	for i, g := range ranges {
		for k := 0; k < 3; k++ {
			i, g, k := i, g, k
			c.scenario(fmt.Sprintf("strength bar for %d..%d, tile %d", g.lo, g.hi, k), func(s *Scenario) {
				r := newTiler(s)
				t := tstate{scale: 1, rl: g.lo, rh: g.hi, fmtg: 7, w: []int{24, 33, 64}[k], h: []int{16, 24, 20}[k], shrink: (i + k) % 4, border: []int{0, 1, 3}[(i+k)%3], pair: i % 5}
				if k == 1 {
					t.title, t.solid = "T", true
				}
				t.ll, t.lh = g.lo, g.hi
				if i%2 == 1 {
					t.ll, t.lh = g.lo+(g.hi-g.lo)/4, g.hi-(g.hi-g.lo)/4
				}
				span := g.hi - g.lo
				set := map[int]bool{}
				for _, v := range []int{g.lo - 1, g.lo, g.lo + 1, g.hi - 1, g.hi, g.hi + 1, -2147483648, 2147483647, 0} {
					set[v] = true
				}
				for j := 0; j <= 10; j++ {
					set[g.lo+span/10*j] = true
					set[g.lo+span*j/10] = true
				}
				var vals []int
				for v := range set {
					if v >= -2147483648 && v <= 2147483647 {
						vals = append(vals, v)
					}
				}
				sort.Ints(vals)
				var prev *tile
				for _, v := range vals {
					if c.enough() {
						return
					}
					t.iv = v
					p := r.render(t)
					if p == nil {
						return
					}
					if prev != nil {
						ok := true
						for i := range p.on {
							if prev.on[i] && !p.on[i] {
								s.violate("bar", "strength bar", fmt.Sprintf("%v: pixel %d,%d is lit for the value %d and not for %d", t, i%t.w, i/t.w, prev.t.iv, v))
								ok = false
								break
							}
						}
						if !ok {
							return
						}
						s.ok()
					}
					prev = p
				}
			})
		}
	}
}

func c18Colours(c *Check) {
	c.scenario("colours", func(s *Scenario) {
		r := newTiler(s)
		t := tstate{fmtg: 10, title: "I", w: 9, h: 8}
		try := func(t tstate) {
			if p := r.render(t); p != nil {
				p.colours()
			}
		}
		for v := 0; v < 40; v++ {
			if c.enough() {
				return
			}
			t.pk, t.pc, t.bk, t.bc = 1, v, 1, (v*7+3)%32
			try(t)
			t.pk, t.pc = 0, 0
			try(t)
			t.pk, t.pc, t.bk = 1, v, 0
			try(t)
		}
		for v := 0; v < 256; v += 5 {
			t.pk, t.pc, t.bk, t.bc = 2, v<<16|(255-v)<<8|(v*3)&255, 2, (v*5&255)<<16|(v*7&255)<<8|v
			try(t)
		}
		for _, v := range []int{84, 85, 86, 169, 170, 171, 254, 255} {
			t.pk, t.pc, t.bk, t.bc = 2, v<<16, 2, v<<8
			try(t)
			t.pc, t.bk = v, 3
			try(t)
		}
	})
}

// c18Remembered: when something the renderer reaches writes package-level state, a run of tiles in one process shows each its own colours.
func c18Remembered(c *Check) {
	f := c.need(modRoot, "WriteDisplayTileNew")
	if f == nil {
		return
	}
	ef, kept := c.effectsOf(f), false
	for _, w := range ef.sum[f].list() {
		kept = kept || w.r.kind == rGlobal
	}
	if !kept {
		return
	}
	lv := []int{0, 1, 2, 3, 16, 64, 128, 192, 255}
	c.scenario("colours after other colours", func(s *Scenario) {
		r := newTiler(s)
		r.keep = true
		t := tstate{fmtg: 10, title: "I", w: 9, h: 8}
		for i := 0; i < 80 && !c.enough(); i++ {
			if p := r.paint(t, 1, i%40, 1, (i*7+3)%32); p == nil {
				return
			}
		}
		for _, red := range lv {
			for _, green := range lv {
				for _, blue := range lv {
					if c.enough() {
						return
					}
					v := red<<16 | green<<8 | blue
					if p := r.paint(t, 2, v, 2, 0xffffff&^v); p == nil {
						return
					}
				}
			}
		}
	})
}

func (r *tiler) paint(t tstate, pk, pc, bk, bc int) *tile {
	t.pk, t.pc, t.bk, t.bc = pk, pc, bk, bc
	p := r.render(t)
	if p != nil {
		p.colours()
	}
	return p
}

// c18Inputs: for every state and geometry, nothing the renderer reaches keeps state between calls or reads anything but its inputs.
func c18Inputs(c *Check) {
	f := c.need(modRoot, "WriteDisplayTileNew")
	if f == nil {
		return
	}
	ef := c.effectsOf(f)
	c.scenario("inputs: memory effects", func(s *Scenario) {
		for _, w := range ef.sum[f].list() {
			if w.r.kind == rGlobal {
				s.undecided("package-level state is written: " + w.r.String() + " at " + c.posStr(w.pos))
			}
		}
		s.ok()
		for _, g := range ef.order {
			c.mu.Lock()
			c.funcs[fnName(g)] = true
			c.mu.Unlock()
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Range:
						if _, ok := x.X.Type().Underlying().(*types.Map); ok {
							s.undecided("map iteration at " + c.posStr(x.Pos()))
						}
					case *ssa.Go:
						s.undecided("goroutine started at " + c.posStr(x.Pos()))
					case ssa.CallInstruction:
						h := x.Common().StaticCallee()
						if h == nil || inScope(h) {
							continue
						}
						switch p := pkgPathOf(h); p {
						case "time", "math/rand", "math/rand/v2", "crypto/rand", "os", "runtime":
							s.undecided(p + "." + h.Name() + " called at " + c.posStr(x.Pos()))
						}
					}
				}
			}
			s.ok()
		}
	})
}
