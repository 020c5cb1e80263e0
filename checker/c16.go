package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C16"] = c16 }

var byteT = types.Typ[types.Uint8]

// runFnIn continues in a given state.
func (s *Scenario) runFnIn(fn *ssa.Function, st *State, args ...*Term) (*Term, *State) {
	return s.callFn(fn, args, nil, st.copy(), nil, fn.Pos())
}

// mono is a canvas under analysis.
type mono struct {
	s              *Scenario
	c              *Check
	W, H, wib      int
	slack          int // bytes of the buffer beyond the canvas
	old            []*Term
	bx, by, bw, bh int
	inv, col       *Term
	img            *Term
	st             *State
}

type rect struct{ x, y, w, h int }

// has tells if a pixel is inside: differences are used since sums may leave the integer range.
func (r rect) has(x, y int) bool {
	in := func(p, a, n int) bool { return p >= a && n > 0 && uint64(p)-uint64(a) < uint64(n) }
	return in(x, r.x, r.w) && in(y, r.y, r.h)
}

func (m *mono) fn(name string) *ssa.Function { return m.c.need("rpspec", name) }
func (m *mono) call(name string, args ...*Term) *Term {
	f := m.fn(name)
	ret, st := m.s.runFnIn(f, m.st, args...)
	if st == nil {
		m.s.never("panic", name, "no path of "+name+" returns", m.st.g)
		return nil
	}
	m.st = st
	return ret
}
func (m *mono) I(v int) *Term { return m.s.Int(int64(v)) }

// newMono is a canvas with arbitrary content.
func (s *Scenario) newMono(how, W, H int, b [4]int) *mono {
	m := &mono{s: s, c: s.c, W: W, H: H, wib: (W + 7) / 8, bx: b[0], by: b[1], bw: b[2], bh: b[3], inv: s.SymBool("inverted"), col: s.SymBool("color")}
	s.Eng.InitPkg(m.fn("MonoCanvas").Pkg)
	s.Eng.InitPkg(s.c.pkg(modRoot + "/ibeam_lib_monogfx"))
	m.st = s.NewState()
	n := m.wib * H
	old := s.fixedSlice("old", types.NewSlice(byteT), n)
	for i := 0; i < n; i++ {
		m.old = append(m.old, s.elemAt(old, int64(i), m.st, byteT))
	}
	if how == 2 {
		m.slack = 3
	}
	m.img = m.call("MonoCanvas", m.I(how), m.I(W), m.I(H), old, m.I(m.bx), m.I(m.by), m.I(m.bw), m.I(m.bh), m.inv)
	s.obls = nil
	return m
}

// mask has the bits of the pixels that are inside both the clip rectangle and the footprint.
func (m *mono) mask(f func(x, y int) bool) []byte {
	out := make([]byte, m.wib*m.H)
	clip := rect{m.bx, m.by, m.bw, m.bh}
	for py := 0; py < m.H; py++ {
		for px := 0; px < m.W; px++ {
			if clip.has(px, py) && f(px-m.bx, py-m.by) {
				out[py*m.wib+px/8] |= byte(128 >> (px % 8))
			}
		}
	}
	return out
}

func (m *mono) content() []*Term {
	s := m.s
	sl := m.call("MonoSlice", m.img)
	n := m.wib*m.H + m.slack
	if sl == nil {
		return nil
	}
	if gl := s.sliceLen(sl, m.st); gl != m.I(n) {
		s.never("invariant", "size of the pixel buffer", "size of the pixel buffer", s.And(m.st.g, s.Not(s.cmp("eq", gl, m.I(n)))))
		return nil
	}
	var out []*Term
	for i := m.wib * m.H; i < n; i++ {
		m.eq("exact", "bytes beyond the canvas", s.elemAt(sl, int64(i), m.st, byteT), s.IntT(0, 8, false))
	}
	for i := 0; i < m.wib*m.H; i++ {
		out = append(out, s.elemAt(sl, int64(i), m.st, byteT))
	}
	return out
}

func (m *mono) eq(rule, key string, got, want *Term) {
	m.s.equalTerms(rule, key, got, want, m.st.g, anyDiffer)
}

// exact: the operation sets exactly the clipped pixels of the footprint.
func (m *mono) exact(key string, base []*Term, f func(x, y int) bool) {
	s := m.s
	mask := m.mask(f)
	got := m.content()
	for i := range got {
		want := base[i]
		if k := mask[i]; k != 0 {
			kt, nk := s.IntT(int64(k), 8, false), s.IntT(int64(^k), 8, false)
			set, clr := s.bin("or", base[i], kt), s.bin("and", base[i], nk)
			want = s.ite(m.col, s.ite(m.inv, clr, set), s.ite(m.inv, set, clr))
		}
		m.eq("exact", key, got[i], want)
	}
}

// within: nothing outside the clipped footprint changes.
func (m *mono) within(key string, f func(x, y int) bool) {
	s := m.s
	mask := m.mask(f)
	got := m.content()
	for i := range got {
		a, b := got[i], m.old[i]
		if k := mask[i]; k != 0 {
			nk := s.IntT(int64(^k), 8, false)
			a, b = s.bin("and", a, nk), s.bin("and", b, nk)
		}
		m.eq("footprint", key, a, b)
	}
}

// invariant: the operation leaves size, clip rectangle and inversion as they were: what is drawn next is clipped as before.
func (m *mono) invariant(key string) {
	s := m.s
	T := types.NewSlice(types.Typ[types.Int])
	got, want := m.call("MonoSize", m.img), m.call("MonoSizeRef", m.I(m.W), m.I(m.H), m.I(m.bw), m.I(m.bh))
	if got == nil || want == nil {
		return
	}
	m.eq("invariant", key, s.deep(got, m.st, T), s.deep(want, m.st, T))
	base := m.content()
	if base == nil || len(base) > 40 {
		return
	}
	m.call("MonoDraw", m.img, m.I(3), m.I(-2-m.bx), m.I(-2-m.by), m.I(m.W+14), m.I(m.H+6), m.I(0), m.col)
	m.exact("what is drawn after "+key, base, rect{-2 - m.bx, -2 - m.by, m.W + 14, m.H + 6}.has)
}

func c16(c *Check) {
	c.expl = "every drawing operation is analysed on canvases of enumerated sizes, bounding boxes, coordinates and sizes in a window well beyond the canvas, with symbolic content, inversion and colour; the resulting buffer is compared bit by bit with the reference footprint, and the clip state with what it was before (so that the result holds for every sequence of operations)"
	c.rules = []string{
		"exact: after a pixel, line or filled rectangle every bit of the buffer (padding included) is the reference bit",
		"footprint: other operations leave every bit outside footprint and clip rectangle as it was",
		"invariant: size, clip rectangle and inversion are the same after the operation (the next operation is clipped as before)",
		"panic: no index is out of range",
	}
	for _, f := range []string{"MonoCanvas", "MonoDraw", "MonoSlice", "MonoSize", "MonoSizeRef", "MonoBitmap", "MonoChar", "MonoText"} {
		if c.need("rpspec", f) == nil {
			return
		}
	}
	type canvas struct{ w, h int }
	var all, some []canvas
	some = []canvas{{9, 5}, {8, 3}, {7, 2}, {17, 6}, {1, 1}, {20, 16}}
	widths := []int{0, 1, 5, 7, 8, 9, 15, 16, 17, 31, 64}
	heights := []int{0, 1, 2, 5}
	if c.thorough() {
		widths, heights = nil, []int{0, 1, 2, 3, 5, 8, 16, 64}
		for w := 0; w <= 64; w++ {
			widths = append(widths, w)
		}
		some = append(some, canvas{0, 4}, canvas{4, 0}, canvas{16, 16}, canvas{23, 9}, canvas{64, 3}, canvas{33, 12}, canvas{2, 40})
	}
	for _, w := range widths {
		for _, h := range heights {
			all = append(all, canvas{w, h})
		}
	}
	turn := 0
	each := func(name string, cv canvas, b [4]int, xs, ys []int, f func(s *Scenario, m *mono, x, y int, key string)) {
		how := turn % 4
		turn++
		c.scenario(fmt.Sprintf("%s on %dx%d in box %v (history %d)", name, cv.w, cv.h, b, how), func(s *Scenario) {
			m := s.newMono(how, cv.w, cv.h, b)
			st0 := m.st
			for _, x := range xs {
				for _, y := range ys {
					m.st = st0.copy()
					f(s, m, x, y, fmt.Sprintf("%s at %d,%d", name, x, y))
					s.oblPanics("panic", m.st)
					if c.enough() {
						return
					}
				}
			}
			m.invariant(name)
			s.oblPanics("panic", m.st)
		})
	}
	for _, cv := range all {
		for _, b := range monoBoxes(cv.w, cv.h) {
			each("DrawPixel", cv, b, coords(cv.w), coords(cv.h), func(s *Scenario, m *mono, x, y int, key string) {
				m.call("MonoDraw", m.img, m.I(0), m.I(x), m.I(y), m.I(1), m.I(1), m.I(0), m.col)
				m.exact(key, m.old, rect{x, y, 1, 1}.has)
			})
		}
	}
	for i, cv := range some {
		W, H := cv.w, cv.h
		boxes := monoBoxes(W, H)
		xs, ys := few(W), few(H)
		pick := func(n int) [4]int { return boxes[(n*5+i)%len(boxes)] }
		n := 0
		draw := func(op string, no int, a, b, r int, foot func(x, y int) func(x, y int) bool, exact bool) {
			xs, ys := xs, ys
			if !exact && !c.thorough() {
				xs, ys = fewer(W), fewer(H)
			}
			for k := 0; k < 2; k++ {
				box := pick(n)
				if k == 0 {
					box = boxes[0]
				}
				n++
				if !exact && !c.thorough() && (n/2+k)%2 == 0 {
					continue
				}
				each(fmt.Sprintf("%s %d %d %d", op, a, b, r), cv, box, xs, ys, func(s *Scenario, m *mono, x, y int, key string) {
					m.call("MonoDraw", m.img, m.I(no), m.I(x), m.I(y), m.I(a), m.I(b), m.I(r), m.col)
					if exact {
						m.exact(key, m.old, foot(x, y))
					} else {
						m.within(key, foot(x, y))
					}
				})
			}
		}
		sized := func(w, h int) func(x, y int) func(x, y int) bool {
			return func(x, y int) func(x, y int) bool { return rect{x, y, w, h}.has }
		}
		for _, w := range []int{-1, 0, 1, 2, 3, 7, 8, 9, 10, W - 1, W + 20} {
			draw("DrawFastHLine", 1, w, 0, 0, sized(w, 1), true)
		}
		for _, h := range []int{-1, 0, 1, 2, H, H + 8} {
			draw("DrawFastVLine", 2, 0, h, 0, sized(1, h), true)
		}
		for _, z := range [][2]int{{-1, 2}, {2, -1}, {0, 3}, {1, 1}, {9, 2}, {W, H}, {W + 20, H + 8}} {
			draw("FillRect", 3, z[0], z[1], 0, sized(z[0], z[1]), true)
		}
		for _, z := range [][2]int{{-1, 2}, {2, -1}, {0, 3}, {3, 0}, {1, 1}, {2, 7}, {9, 2}, {5, 5}, {8, 6}, {12, 11}, {W, H}} {
			for _, r := range []int{-3, 0, 1, 2, 3, 4, 8, 50} {
				draw("DrawRoundRect", 4, z[0], z[1], r, sized(z[0], z[1]), false)
				draw("FillRoundRect", 5, z[0], z[1], r, sized(z[0], z[1]), false)
			}
		}
		for _, r := range []int{-2, 0, 1, 2, 3, 5, 9} {
			r := r
			for _, corners := range []int{0, 1, 2, 4, 8, 15, -1} {
				draw("DrawCircleHelper", 6, corners, 0, r, func(x, y int) func(x, y int) bool { return rect{x - r, y - r, 2*r + 1, 2*r + 1}.has }, false)
			}
			for _, corners := range []int{0, 1, 2, 3} {
				for _, d := range []int{-3, 0, 1, 4} {
					draw("FillCircleHelper", 7, corners, d, r, func(x, y int) func(x, y int) bool { return rect{x - r, y - r, 2*r + 1, 2*r + 1 + d}.has }, false)
				}
			}
		}
		for _, z := range [][3]int{{0, 3, 3}, {3, 0, 3}, {1, 1, 1}, {5, 2, 2}, {8, 3, 2}, {9, 2, 4}, {9, 2, 3}, {12, 3, 9}, {-1, 2, 2}, {2, -1, 2}, {8, 2, 0}} {
			z := z
			for k := 0; k < 2; k++ {
				box := pick(n)
				n++
				each(fmt.Sprintf("DrawBitmap %dx%d of %d bytes", z[0], z[1], z[2]), cv, box, xs, ys, func(s *Scenario, m *mono, x, y int, key string) {
					bm := s.fixedSlice("bitmap", types.NewSlice(byteT), z[2])
					m.call("MonoBitmap", m.img, m.I(x), m.I(y), bm, m.I(z[0]), m.I(z[1]), m.col, s.SymBool("bitmap inverted"), s.SymBool("all pixels"))
					m.within(key, rect{x, y, z[0], z[1]}.has)
				})
			}
		}
	}
	chars := []int{0, 10, 13, 31, 32, 33, 'A', 'W', 'i', 'j', '~', 126, 127, 128, 200, 255}
	if c.thorough() {
		chars = nil
		for i := 0; i < 256; i++ {
			chars = append(chars, i)
		}
	}
	sizes := [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 2}, {0, 0}, {-1, 1}, {1, -2}}
	for i, ch := range chars {
		ch := ch
		for font := 0; font < 3; font++ {
			for pr := 0; pr < 2; pr++ {
				for k := 0; k < 2; k++ {
					cv := some[(i+font+k)%5]
					boxes := monoBoxes(cv.w, cv.h)
					box := boxes[(i*7+font*5+pr*3+k*11)%len(boxes)]
					sz := sizes[(i+font*2+pr*3+k*5)%len(sizes)]
					if k == 0 {
						sz = sizes[0]
					}
					font, pr := font, pr
					each(fmt.Sprintf("DrawChar %d font %d proportional %d size %v", ch, font, pr, sz), cv, box, few(cv.w), few(cv.h), func(s *Scenario, m *mono, x, y int, key string) {
						cell := m.call("MonoChar", m.img, m.I(x), m.I(y), m.I(ch), m.col, s.SymBool("background"), m.I(font), s.Bool(pr == 1), m.I(sz[0]), m.I(sz[1]))
						w, h := cell.args[0], cell.args[1]
						if w.k != KInt || h.k != KInt {
							s.undecided("the cell of the character is not constant")
							return
						}
						m.within(key, rect{x, y, int(w.n), int(h.n)}.has)
					})
				}
			}
		}
	}
	texts := []string{"", "A", "Wi", "Hi\nyo\r!", "long text \x00\x7f\xff", "\u00e6\u20ac"}
	text := func(tx string, k, wrap int, cv canvas, box [4]int) {
		sz := sizes[k%len(sizes)]
		each(fmt.Sprintf("RenderText %q font %d size %v wrap %d", tx, k%3, sz, wrap), cv, box, few(cv.w), few(cv.h)[1:6], func(s *Scenario, m *mono, x, y int, key string) {
			m.call("MonoText", m.img, m.I(x), m.I(y), s.Str(tx), m.col, m.I(k%3), s.Bool(k%4 < 2), m.I(sz[0]), m.I(sz[1]), s.Bool(wrap == 1), m.I(k%5))
			m.within(key, func(x, y int) bool { return true })
		})
	}
	for i, tx := range texts {
		for j, cv := range some[:5] {
			for wrap := 0; wrap < 2; wrap++ {
				k := i*10 + j*2 + wrap
				boxes := monoBoxes(cv.w, cv.h)
				text(tx, k, wrap, cv, boxes[(k*3+wrap)%len(boxes)])
			}
		}
	}
	for k, box := range monoBoxes(9, 5) {
		text("Wi", k, 1, canvas{9, 5}, box)
		text("Wi", k, 0, canvas{9, 5}, box)
	}
}

// monoBoxes are the bounding boxes used on a canvas.
func monoBoxes(W, H int) [][4]int {
	return [][4]int{
		{0, 0, W, H}, {0, 0, W - 1, H - 1}, {1, 0, W - 2, H}, {0, 0, W + 9, H + 3}, {-1, -1, W, H}, {-9, -2, W + 20, H + 5},
		{3, 1, 4, 1}, {7, 0, 3, 1000}, {8, 0, 8, H}, {W - 1, H - 1, 5, 5}, {W, H, 4, 4}, {W + 5, 0, 9, 9}, {-20, 0, 10, H}, {0, 0, 0, 0}, {2, 1, -3, -1}, {1, 0, -3, H}, {0, 0, W, 0}, {-3, 0, 5, H},
	}
}

// coords are coordinates in a window beyond the canvas on both sides, and far away from it.
func coords(n int) []int {
	vs := []int{-1 << 40, -1000, -17, -10, -9, -8, -7, -3, -2, -1, 0, 1, 2, 3, 6, 7, 8, 9, 15, 16}
	for _, v := range []int{n - 9, n - 8, n - 2, n - 1, n, n + 1, n + 7, 1000, 1 << 40} {
		if v > 16 {
			vs = append(vs, v)
		}
	}
	return vs
}

// fewer are the most telling ones.
func fewer(n int) []int {
	vs := []int{-9, -1, 0, 1}
	for _, v := range []int{n - 8, n - 1, n + 2} {
		if v > 1 {
			vs = append(vs, v)
		}
	}
	return vs
}

// few are coordinates around the edges of the canvas.
func few(n int) []int {
	vs := []int{-1 << 40, -9, -8, -3, -1, 0, 1, 5}
	for _, v := range []int{n - 8, n - 2, n - 1, n, n + 3, 1 << 40} {
		if v > 5 {
			vs = append(vs, v)
		}
	}
	return vs
}
