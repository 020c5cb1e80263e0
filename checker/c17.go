package main

import (
	"fmt"
	"go/types"
)

func init() { props["C17"] = c17 }

// conv is a conversion under analysis.
type conv struct {
	s    *Scenario
	st   *State
	memo map[string]string // decided pixel terms
	in   []*Term           // stand-ins for the data a pixel depends on
}

func (s *Scenario) newConv() *conv {
	k := &conv{s: s, memo: map[string]string{}}
	s.inlineBufio = true
	for i := 0; i < 4; i++ {
		k.in = append(k.in, s.SymInt(fmt.Sprintf("in%d", i), 8, false))
	}
	for _, p := range []string{"rpspec", modRoot, modRoot + "/ibeam_lib_monogfx"} {
		s.Eng.InitPkg(s.c.pkg(p))
	}
	for _, p := range []string{"image/color", "image/internal/imageutil", "image", "image/draw"} {
		if q := s.c.prog.ImportedPackage(p); q != nil {
			s.Eng.InitPkg(q)
		}
	}
	k.st = s.NewState()
	return k
}

func (k *conv) I(v int) *Term { return k.s.Int(int64(v)) }

// call runs a function of the specification on the library.
func (k *conv) call(key, name string, args ...*Term) *Term {
	f := k.s.c.need("rpspec", name)
	before := len(k.s.obls)
	ret, st := k.s.runFnIn(f, k.st, args...)
	if st == nil {
		k.s.never("panic", key, "no path of "+name+" returns", k.st.g)
		return nil
	}
	k.st = st
	_ = before
	k.s.oblPanics("panic", k.st)
	return ret
}

// bytes are n arbitrary bytes.
func (k *conv) bytes(name string, n int) (*Term, []*Term) {
	sl := k.s.fixedSlice(name, types.NewSlice(byteT), n)
	var out []*Term
	for i := 0; i < n; i++ {
		out = append(out, k.s.elemAt(sl, int64(i), k.st, byteT))
	}
	return sl, out
}

// slice reads a result of exactly n bytes.
func (k *conv) slice(key string, sl *Term, n int) []*Term {
	if sl == nil {
		return nil
	}
	s := k.s
	if gl := s.sliceLen(sl, k.st); gl != k.I(n) {
		s.violate("size", key, fmt.Sprintf("%s has not %d bytes", key, n))
		return nil
	}
	s.ok()
	var out []*Term
	for i := 0; i < n; i++ {
		out = append(out, s.elemAt(sl, int64(i), k.st, byteT))
	}
	return out
}

// decide compares a derived value with its reference for all values of the data it may depend on.
func (k *conv) decide(rule, key, where string, got *Term, deps []*Term, refID string, ref func(v []int64) int64, domain func(f func(v []int64) bool)) {
	s := k.s
	sub := newSubst()
	for i, d := range deps {
		sub.m[d] = k.in[i]
		if d.w != 8 {
			sub.m[d] = s.SymInt(fmt.Sprintf("in%d/%d", i, d.w), d.w, d.sgn)
		}
	}
	t := s.subst(got, sub)
	id := fmt.Sprintf("%d|%s", t.id, refID)
	why, done := k.memo[id]
	if !done {
		var in []*Term
		for _, d := range deps {
			in = append(in, sub.m[d])
		}
		p, ok := s.numCompile(t, in)
		switch {
		case !ok && p.free != nil:
			why = "!it depends on " + p.free.s
		case !ok:
			why = "?the derived value has no table: " + s.show(t)
		default:
			domain(func(v []int64) bool {
				g, ok := p.run(v)
				if !ok {
					why = "?the derived value has no table"
					return false
				}
				if w := ref(v); g != w {
					why = fmt.Sprintf("!for data %x it is %#x, not %#x", v, g, w)
					return false
				}
				return true
			})
		}
		k.memo[id] = why
	}
	switch {
	case why == "":
		s.ok()
	case why[0] == '!':
		s.violate(rule, key, where+": "+why[1:])
	default:
		s.undecided(where + ": " + why[1:])
	}
}

func dom(bits ...int) func(f func(v []int64) bool) {
	return func(f func(v []int64) bool) {
		v := make([]int64, len(bits))
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == len(bits) {
				return f(v)
			}
			for x := int64(0); x < 1<<bits[i]; x++ {
				v[i] = x
				if !rec(i + 1) {
					return false
				}
			}
			return true
		}
		rec(0)
	}
}

// the documented conversions

func refSix(c int64) int64 { // xxrrggbb -> bbbbbggg gggrrrrr
	five := func(v int64) int64 { return v & 3 * 31 / 3 }
	return five(c)<<11 | (c>>2&3)*63/3<<5 | five(c>>4)
}

func refLuma(c int64) int64 {
	r, g, b := (c&31)*2114, (c>>5&63)*1040, (c>>11&31)*2114
	return (19595*r + 38470*g + 7471*b + 1<<15) >> 16 >> 8 & 255
}

// refChannel is the 8 bit value of one channel of a stored RGB565 value; channel 3 is opacity.
func refChannel(ch int, hi, lo int64) int64 {
	c := hi<<8 | lo
	switch ch {
	case 0:
		return c & 31 * 255 / 31
	case 1:
		return c >> 5 & 63 * 255 / 63
	case 2:
		return c >> 11 & 31 * 255 / 31
	}
	return 255
}

func c17(c *Check) {
	c.expl = "the value of every byte of an export and every pixel of an image is derived, by value flow through the library and the image packages of the standard library, as a function of arbitrary data; sizes and data lengths are enumerated; each function is then tabulated over the values of the one or two data bytes it may depend on and compared with the documented conversion"
	c.rules = []string{
		"size: exports and images have exactly the documented size",
		"export: every byte of an export is the configured colour (or its luma) chosen by the pixel's bit",
		"colour: xxrrggbb maps to bbbbbggg gggrrrrr, and setting one colour leaves the other",
		"roundtrip: a mono image converted to an image object and back has the same visible pixels",
		"pixel: every pixel covered by the data is the documented expansion of the stored value, opaque, whichever routine converts",
		"panic: no index is out of range and no path ends in a panic",
	}
	for _, f := range []string{"ConvMono", "ConvShort", "ConvRGB", "ConvGray", "ConvColors", "ConvThere", "ConvBack", "ConvSize", "ConvMonoSlice", "ConvGfx", "ConvBounds", "ConvPixels"} {
		if c.need("rpspec", f) == nil {
			return
		}
	}
	c17Export(c)
	c17Short(c)
	c17Round(c)
	c17Gfx(c)
}

// c17Short: a mono image made from too few bytes.
func c17Short(c *Check) {
	for _, t := range [][3]int{{8, 2, 1}, {9, 3, 5}, {5, 2, 0}, {16, 2, 3}, {0, 4, 0}, {4, 0, 0}, {17, 1, 2}} {
		W, H, n := t[0], t[1], t[2]
		c.scenario(fmt.Sprintf("mono image %dx%d from %d bytes", W, H, n), func(s *Scenario) {
			k := s.newConv()
			sl, _ := k.bytes("content", n)
			img := k.call("mono image from bytes", "ConvShort", k.I(W), k.I(H), sl)
			if img == nil {
				return
			}
			k.slice("RGB565 export", k.call("RGB565 export", "ConvRGB", img), W*H*2)
			if W%2 == 0 {
				k.slice("grey export", k.call("grey export", "ConvGray", img), W*H/2)
			}
			obj := k.call("image object", "ConvThere", img, s.False)
			if obj != nil {
				k.image("image object", obj, W, H, func(x, y, ch int, got *Term) {})
				k.call("mono image from an image object", "ConvBack", obj, s.False)
			}
		})
	}
}

func c17Export(c *Check) {
	sizes := [][2]int{{0, 0}, {0, 3}, {3, 0}, {64, 3}, {33, 2}, {2, 33}, {256, 2}, {129, 1}, {254, 1}}
	for w := 1; w <= 17; w++ {
		for h := 1; h <= 3; h++ {
			sizes = append(sizes, [2]int{w, h})
		}
	}
	if c.thorough() {
		for w := 18; w <= 80; w++ {
			for h := 1; h <= 5; h++ {
				sizes = append(sizes, [2]int{w, h})
			}
		}
		sizes = append(sizes, [2]int{300, 5}, [2]int{5, 300}, [2]int{256, 64})
	}
	for i, wh := range sizes {
		W, H, how := wh[0], wh[1], i%3
		c.scenario(fmt.Sprintf("export %dx%d, made in way %d", W, H, how), func(s *Scenario) {
			k := s.newConv()
			wib := (W + 7) / 8
			sl, data := k.bytes("content", wib*H)
			pc, bc := s.SymInt("pixel colour", 16, false), s.SymInt("background colour", 16, false)
			img := k.call("mono image", "ConvMono", k.I(how), k.I(W), k.I(H), sl, pc, bc)
			if img == nil {
				return
			}
			rgb := k.slice("RGB565 export", k.call("RGB565 export", "ConvRGB", img), W*H*2)
			bit := func(v, b int64) bool { return v>>(7-b)&1 != 0 }
			for i, got := range rgb {
				x, y, b := i/2%W, i/2/W, int64(i%2)
				for v := int64(0); v < 256; v++ { // the byte that has the pixel's bit
					if v&(v-1) != 0 && v != 255 && v&(255^(128>>(x%8))) != v && v%5 != 0 {
						continue
					}
					sub := newSubst()
					sub.m[data[y*wib+x/8]] = s.IntT(v, 8, false)
					col, id := bc, "background"
					if bit(v, int64(x%8)) {
						col, id = pc, "pixel"
					}
					g := s.subst(got, sub)
					want := s.conv(col, 8, false)
					if b == 0 {
						want = s.conv(s.bin("shr", col, s.IntT(8, 16, false)), 8, false)
					}
					if g == want {
						s.ok()
						continue
					}
					k.decide("export", "RGB565 export", fmt.Sprintf("byte %d (pixel %d,%d)", i, x, y), g, []*Term{col}, fmt.Sprint(id, b), func(v []int64) int64 { return v[0] >> (8 * (1 - b)) & 255 }, dom(16))
				}
			}
			if W%2 == 0 {
				gray := k.slice("grey export", k.call("grey export", "ConvGray", img), W*H/2)
				for i, got := range gray {
					x, y := i*2%W, i*2/W
					for v := int64(0); v < 4; v++ {
						sub := newSubst()
						full := v<<(6-int64(x%8)) | 0x155>>uint(i%3)&(255^3<<(6-x%8))
						sub.m[data[y*wib+x/8]] = s.IntT(full&255, 8, false)
						g := s.subst(got, sub)
						k.decide("export", "grey export", fmt.Sprintf("byte %d (pixels %d,%d and %d,%d)", i, x, y, x+1, y), g, []*Term{pc, bc}, fmt.Sprint("grey", v), func(c []int64) int64 {
							a, b := c[1], c[1]
							if v&2 != 0 {
								a = c[0]
							}
							if v&1 != 0 {
								b = c[0]
							}
							return refLuma(a)&0xf0 | refLuma(b)>>4
						}, func(f func(v []int64) bool) {
							for p := int64(0); p < 64; p++ {
								for q := int64(0); q < 64; q++ {
									if !f([]int64{refSix(p), refSix(q)}) {
										return
									}
								}
							}
							for p := int64(0); p < 65536; p++ {
								if !f([]int64{p, p * 40503 & 65535}) {
									return
								}
							}
						})
					}
				}
			}
		})
	}
	for op := 0; op < 4; op++ {
		op := op
		c.scenario(fmt.Sprintf("colours, way %d", op), func(s *Scenario) {
			k := s.newConv()
			st := k.st
			names := []string{"pixel colour", "background colour", "pixel colour, set again", "background colour, set again"}
			top := 64
			if op < 2 {
				top = 256
			}
			for v := 0; v < top; v++ {
				k.st = st.copy()
				r := k.call(names[op], "ConvColors", k.I(op), k.I(v))
				if r == nil {
					return
				}
				want := []int64{0xffff, 0}
				if op >= 2 {
					want = []int64{refSix(int64(63 - v)), refSix(int64(63 - v))}
				}
				want[op%2] = refSix(int64(v))
				for i, w := range want {
					if r.args[i] == s.IntT(w, 16, false) {
						s.ok()
						continue
					}
					if r.args[i].k != KInt {
						s.undecided("colour is not constant")
						continue
					}
					s.violate("colour", names[op], fmt.Sprintf("after setting %#x, colour %d is %#x, not %#x", v, i, r.args[i].n, w))
				}
			}
		})
	}
}

func c17Round(c *Check) {
	sizes := [][2]int{{0, 0}, {0, 3}, {3, 0}, {64, 2}, {33, 2}, {2, 17}, {129, 1}}
	for w := 1; w <= 17; w++ {
		for h := 1; h <= 3; h += 1 + w%2 {
			sizes = append(sizes, [2]int{w, h})
		}
	}
	if c.thorough() {
		for w := 18; w <= 80; w++ {
			sizes = append(sizes, [2]int{w, 1 + w%4})
		}
		sizes = append(sizes, [2]int{256, 3}, [2]int{300, 2}, [2]int{7, 200})
	}
	for i, wh := range sizes {
		for inv := 0; inv < 2; inv++ {
			W, H, how, used, inv := wh[0], wh[1], i%3, i%2 == 0, inv
			c.scenario(fmt.Sprintf("round trip %dx%d, made in way %d, inverted %d", W, H, how, inv), func(s *Scenario) {
				k := s.newConv()
				wib := (W + 7) / 8
				sl, data := k.bytes("content", wib*H)
				img := k.call("mono image", "ConvMono", k.I(how), k.I(W), k.I(H), sl, s.IntT(0x1234, 16, false), s.IntT(0xabcd, 16, false))
				if img == nil {
					return
				}
				obj := k.call("image object", "ConvThere", img, s.Bool(inv == 1))
				if obj == nil {
					return
				}
				k.image("image object", obj, W, H, func(x, y, ch int, got *Term) {
					k.decide("pixel", "image object", fmt.Sprintf("pixel %d,%d channel %d", x, y, ch), got, []*Term{data[y*wib+x/8]}, fmt.Sprint("object", x%8, ch == 3, inv), func(v []int64) int64 {
						if ch == 3 || (v[0]>>(7-x%8)&1 != 0) == (inv == 1) {
							return 255
						}
						return 0
					}, dom(8))
				})
				back := k.call("mono image from an image object", "ConvBack", obj, s.Bool(used))
				if back == nil {
					return
				}
				sz := k.call("size of a mono image from an image object", "ConvSize", back)
				if sz == nil {
					return
				}
				if sz.args[0] != k.I(W) || sz.args[1] != k.I(H) {
					s.violate("size", "mono image from an image object", "another size")
					return
				}
				s.ok()
				for i, got := range k.slice("mono image from an image object", k.call("content", "ConvMonoSlice", back), wib*H) {
					for b := 0; b < 8 && i%wib*8+b < W; b++ {
						t := s.bin("and", s.bin("shr", got, s.IntT(int64(7-b), 8, false)), s.IntT(1, 8, false))
						k.decide("roundtrip", "round trip", fmt.Sprintf("pixel %d,%d", i%wib*8+b, i/wib), t, []*Term{data[i]}, fmt.Sprint("round", b, inv), func(v []int64) int64 {
							return v[0]>>(7-b)&1 ^ int64(inv)
						}, dom(8))
					}
				}
			})
		}
	}
}

// image checks the bounds of an image and hands out its pixels.
func (k *conv) image(key string, img *Term, W, H int, f func(x, y, ch int, got *Term)) {
	s := k.s
	if img == s.Nil || img.k != KIface {
		s.violate("size", key, "there is no image: "+s.show(img))
		return
	}
	b := k.call(key, "ConvBounds", img)
	if b == nil {
		return
	}
	for i, w := range []int{0, 0, W, H} {
		if b.args[i] != k.I(w) {
			s.violate("size", key, fmt.Sprintf("bounds are not 0,0-%d,%d", W, H))
			return
		}
	}
	s.ok()
	for i, got := range k.slice(key, k.call(key, "ConvPixels", img), W*H*4) {
		f(i/4%W, i/4/W, i%4, got)
	}
}

func c17Gfx(c *Check) {
	type tc struct {
		how, typ, w, h, n, tw, th int
	}
	var cases []tc
	need := func(typ, w, h int) int {
		switch typ {
		case 1:
			return w * h * 2
		case 2:
			return (w*h + 1) / 2
		}
		return (w + 7) / 8 * h
	}
	sizes := [][2]int{{0, 0}, {0, 2}, {2, 0}, {1, 1}, {2, 1}, {1, 2}, {3, 1}, {3, 3}, {5, 2}, {7, 2}, {8, 1}, {8, 3}, {9, 2}, {15, 3}, {16, 2}, {17, 2}, {2, 17}, {33, 1}, {130, 1}, {257, 1}, {1, 260}}
	if c.thorough() {
		for w := 1; w <= 40; w++ {
			sizes = append(sizes, [2]int{w, 1 + w%5}, [2]int{1 + w%5, w})
		}
		sizes = append(sizes, [2]int{300, 2}, [2]int{255, 3}, [2]int{3, 255}, [2]int{64, 32})
	}
	for typ := 0; typ < 3; typ++ {
		for i, wh := range sizes {
			w, h := wh[0], wh[1]
			n := need(typ, w, h)
			lens := map[int]bool{n: true, n + 1 + i%4: true, 0: true}
			if n > 0 {
				lens[n-1] = true
				lens[n/2] = true
				lens[n/3] = true
			}
			if n < 120 {
				lens[2*n], lens[need((typ+1)%3, w, h)], lens[need((typ+2)%3, w, h)] = true, true, true
			}
			for l := range lens {
				for how := 0; how < 3; how++ {
					if how == 1 && typ == 0 {
						continue
					}
					cases = append(cases, tc{how, typ, w, h, l, w, h})
				}
			}
			if w < 40 && h < 40 {
				for j, d := range [][2]int{{-w, -h}, {-1, 0}, {0, -1}, {1, 1}, {2, 3}, {-2, 3}, {5, -2}, {1 - w, 1 - h}, {w + 1, h}, {-3, -3}} {
					if tw, th := w+d[0], h+d[1]; tw >= 0 && th >= 0 && (i+j)%2 == 0 {
						cases = append(cases, tc{0, typ, w, h, n - n%3*(j%2), tw, th})
					}
				}
			}
		}
	}
	hows := []string{"graphics state to image", "data to image", "graphics state to PNG"}
	types := []string{"mono", "RGB565", "grey"}
	for _, t := range cases {
		t := t
		key := hows[t.how] + ", " + types[t.typ]
		c.scenario(fmt.Sprintf("%s, %dx%d, %d bytes, target %dx%d", key, t.w, t.h, t.n, t.tw, t.th), func(s *Scenario) {
			k := s.newConv()
			sl, data := k.bytes("data", t.n)
			img := k.call(key, "ConvGfx", k.I(t.how), k.I(t.typ), s.IntT(int64(t.w), 32, false), s.IntT(int64(t.h), 32, false), sl, k.I(t.tw), k.I(t.th))
			if img == nil {
				return
			}
			if t.how == 2 && (t.w == 0 || t.h == 0) {
				s.ok() // there is no such PNG
				return
			}
			ox, oy := (t.tw-t.w)/2, (t.th-t.h)/2
			k.image(key, img, t.tw, t.th, func(x, y, ch int, got *Term) {
				px, py := x-ox, y-oy
				if px < 0 || py < 0 || px >= t.w || py >= t.h {
					return
				}
				i := py*t.w + px
				where := fmt.Sprintf("%dx%d, %d bytes, target %dx%d: pixel %d,%d channel %d", t.w, t.h, t.n, t.tw, t.th, px, py, ch)
				switch t.typ {
				case 0:
					at := py*((t.w+7)/8) + px/8
					if at < t.n {
						k.decide("pixel", key, where, got, data[at:at+1], fmt.Sprint("mono", px%8, ch == 3), func(v []int64) int64 {
							if ch == 3 || v[0]>>(7-px%8)&1 != 0 {
								return 255
							}
							return 0
						}, dom(8))
					}
				case 1:
					if i*2+1 < t.n {
						k.decide("pixel", key, where, got, data[i*2:i*2+2], fmt.Sprint("rgb", ch), func(v []int64) int64 { return refChannel(ch, v[0], v[1]) }, dom(8, 8))
					}
				case 2:
					if i/2 < t.n {
						k.decide("pixel", key, where, got, data[i/2:i/2+1], fmt.Sprint("grey", i%2, ch == 3), func(v []int64) int64 {
							if ch == 3 {
								return 255
							}
							if i%2 == 0 {
								return v[0] >> 4 * 255 / 15
							}
							return v[0] & 15 * 255 / 15
						}, dom(8))
					}
				}
			})
		})
	}
}
