package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// chunkShape: index, last index in the header (-1: no header), target list, format.
type chunkShape struct {
	idx, max, target, kind int
}

func (c chunkShape) String() string {
	s := fmt.Sprint(c.idx)
	if c.max >= 0 {
		s += fmt.Sprint("/", c.max)
	}
	return s + strings.Repeat("'", c.target) + []string{"", "c", "g"}[c.kind]
}

// feedCase: the lines and the expectation a specification function gives for its arguments are
// compared with what the reader makes of the lines.
func (s *Scenario) feedCase(rule, key string, spec, reader *ssa.Function, args []*Term) {
	if s.c.enough() {
		return
	}
	r, o := s.callFn(spec, args, nil, s.NewState(), nil, spec.Pos())
	if o == nil {
		s.undecided("specification did not return")
		return
	}
	want := s.deep(s.proj(r, 1), o, spec.Signature.Results().At(1).Type())
	ret, o2 := s.callFn(reader, []*Term{s.proj(r, 0)}, nil, o, nil, reader.Pos())
	if o2 == nil {
		s.undecided("reader did not return")
		return
	}
	s.equalTerms(rule, key, s.deepResult(reader, ret, o2), want, o2.g, anyDiffer)
}

func (s *Scenario) chunkSetup() {
	c := s.c
	s.listBound = 2
	s.lazyHook = c.inputHook(s.Eng, inDomains, func(string) *StrInfo { return &StrInfo{max: -1, noNL: true} })
	s.Eng.InitPkg(c.pkg(modRoot))
	s.Eng.InitPkg(c.pkg("rpspec"))
}

func (s *Scenario) lazyParam(v *ssa.Parameter) *Term {
	return s.expandDefault(&LazyN{v.Type(), v.Name()}).(*Term)
}

// histories: every sequence of chunk shapes, payload symbolic, fed to a reader.
func (c *Check) histories(rule string, reader *ssa.Function, mark int, hs [][]chunkShape) {
	h := c.need("rpspec", "Hist")
	if h == nil {
		return
	}
	const batch = 100
	for at := 0; at < len(hs); at += batch {
		part := hs[at:min(at+batch, len(hs))]
		c.scenario(fmt.Sprintf("%s: between %d histories %d-%d", rule, mark, at, at+len(part)-1), func(s *Scenario) {
			e := s.Eng
			s.chunkSetup()
			for _, hist := range part {
				args := []*Term{e.Int(int64(mark)), e.Int(int64(len(hist)))}
				var label []string
				for k := 0; k < 5; k++ {
					x := chunkShape{}
					if k < len(hist) {
						x = hist[k]
						label = append(label, x.String())
					}
					args = append(args, e.Int(int64(x.idx)), e.Int(int64(x.max)), e.Int(int64(x.target)), e.Int(int64(x.kind)))
				}
				for _, p := range h.Params[len(args):] {
					args = append(args, s.lazyParam(p))
				}
				s.feedCase(rule, "chunks "+strings.Join(label, " "), h, reader, args)
			}
		})
	}
}

func (c *Check) cleanRun(rule string, reader *ssa.Function, mark, n, target, kind int) {
	f := c.need("rpspec", "Clean")
	if f == nil {
		return
	}
	c.scenario(fmt.Sprintf("%s: clean run of %d chunks, target %d, format %d, between %d", rule, n, target, kind, mark), func(s *Scenario) {
		e := s.Eng
		s.chunkSetup()
		args := []*Term{e.Int(int64(mark)), e.Int(int64(n)), e.Int(int64(target)), e.Int(int64(kind))}
		for _, p := range f.Params[len(args):] {
			args = append(args, s.lazyParam(p))
		}
		s.feedCase(rule, fmt.Sprintf("clean run of %d chunks", n), f, reader, args)
	})
}

// pairs: a transfer, complete or broken off, followed by a complete one, of every pair of lengths and shapes.
func (c *Check) pairs(rule string, reader *ssa.Function) {
	f := c.need("rpspec", "Two")
	if f == nil {
		return
	}
	lens := []int{0, 1, 2, 3, 4, 6}
	for _, n := range lens {
		for _, m := range lens {
			c.scenario(fmt.Sprintf("%s: transfers of %d and %d chunks", rule, n, m), func(s *Scenario) {
				e := s.Eng
				s.chunkSetup()
				full := n
				if n == 0 {
					full = 3
				}
				for v := 0; v < 2*2*2*3; v++ {
					k, off, off2, other := full-v&1, v>>1&1 > 0, v>>2&1 > 0, v>>3
					t, kd := 0, 0
					switch other {
					case 1:
						t = 1
					case 2:
						kd = 2
					}
					if k == 0 {
						continue
					}
					args := []*Term{e.Int(int64(n)), e.Int(int64(k)), e.Int(int64(t)), e.Int(0), e.Bool(!off2), e.Bool(off),
						e.Int(int64(m)), e.Int(0), e.Int(int64(kd)), e.Bool(off2), e.Bool(off2)}
					for _, p := range f.Params[len(args):] {
						args = append(args, s.lazyParam(p))
					}
					s.feedCase(rule, fmt.Sprintf("%d of %d chunks (0: no header), then a transfer of %d", k, n, m), f, reader, args)
				}
			})
		}
	}
}

// sent: images of n bytes written by the encoder come back unchanged.
func (c *Check) sent(rule string, reader *ssa.Function, kind, times, n int, off bool) {
	f := c.need("rpspec", "Sent")
	if f == nil {
		return
	}
	c.scenario(fmt.Sprintf("%s: encoder output for %d image(s) of %d bytes, format %d, offset %v", rule, times, n, kind, off), func(s *Scenario) {
		e := s.Eng
		s.chunkSetup()
		s.feedCase(rule, fmt.Sprintf("round trip of %d bytes", n), f, reader, append([]*Term{e.Int(int64(kind)), e.Int(int64(times)), e.Bool(off)}, s.sentArgs(f, 3, n)...))
	})
}

func (s *Scenario) sentArgs(f *ssa.Function, from, n int) (out []*Term) {
	for _, p := range f.Params[from:] {
		if b, ok := p.Type().Underlying().(*types.Basic); ok {
			w, sg, _ := intType(b)
			out = append(out, s.SymInt(p.Name(), w, sg))
			continue
		}
		out = append(out, s.gfxData(n)("."+p.Name(), p.Type()).(*Term))
	}
	return
}

func (c *Check) payloadBound(kind, n int) {
	f := c.need("rpspec", "Within170")
	if f == nil {
		return
	}
	c.scenario(fmt.Sprintf("payload bytes per line, image of %d bytes, format %d", n, kind), func(s *Scenario) {
		s.chunkSetup()
		r, o := s.callFn(f, append([]*Term{s.Int(int64(kind))}, s.sentArgs(f, 1, n)...), nil, s.NewState(), nil, f.Pos())
		if o == nil {
			s.undecided("specification did not return")
			return
		}
		s.equalTerms("payload-per-line", fmt.Sprintf("image of %d bytes", n), r, s.Bool(true), o.g, anyDiffer)
	})
}

func chunkAlphabet(maxIdx, maxLast int, variants [][2]int) []chunkShape {
	var out []chunkShape
	for i := 0; i <= maxIdx; i++ {
		for m := 0; m <= maxLast; m++ {
			x := m
			if i > 0 {
				if m > 0 {
					continue
				}
				x = -1
			}
			for _, v := range variants {
				out = append(out, chunkShape{i, x, v[0], v[1]})
			}
		}
	}
	return out
}

func sequences(al []chunkShape, n int) (out [][]chunkShape) {
	if n == 0 {
		return [][]chunkShape{nil}
	}
	for _, p := range sequences(al, n-1) {
		for _, x := range al {
			out = append(out, append(p[:len(p):len(p)], x))
		}
	}
	return
}

func init() {
	props["C05"] = func(c *Check) {
		readers := map[string]*ssa.Function{
			"batch":        c.need("rpspec", "Batch"),
			"stream":       c.need("rpspec", "StreamAll"),
			"stream-saved": c.need("rpspec", "StreamSaved"),
		}
		one := [][2]int{{0, 0}}
		plain := chunkAlphabet(3, 2, one)
		headers := append(chunkAlphabet(2, 1, one), chunkShape{0, -1, 0, 0}, chunkShape{1, 1, 0, 0}, chunkShape{1, 2, 0, 0}, chunkShape{2, 1, 0, 0})
		mixed := chunkAlphabet(2, 1, [][2]int{{0, 0}, {1, 0}, {2, 0}, {0, 1}, {0, 2}})[5:]
		hs := append(sequences(plain, 4), sequences(headers, 3)...)
		hs = append(hs, sequences(mixed, 3)...)
		short := sequences(chunkAlphabet(2, 1, one), 3)
		marks := []int{0, 2, 3, 4, 5, 6}
		if c.thorough() {
			hs = append(sequences(plain, 5), sequences(headers, 4)...)
			hs = append(hs, sequences(chunkAlphabet(2, 1, [][2]int{{0, 0}, {1, 0}, {0, 1}}), 4)...)
			hs = append(hs, sequences(chunkAlphabet(2, 1, [][2]int{{0, 0}, {1, 0}, {2, 0}, {0, 1}, {0, 2}, {1, 1}}), 3)...)
			short = sequences(chunkAlphabet(2, 2, one), 4)
		}
		for _, name := range []string{"batch", "stream", "stream-saved"} {
			rd := readers[name]
			if rd == nil {
				continue
			}
			c.histories(name, rd, 1, hs)
			for _, m := range marks {
				c.histories(name, rd, m, short)
			}
			c.pairs(name, rd)
			for _, n := range []int{1, 2, 3, 4, 9, 10, 11, 12, 101, 257, 300} {
				c.cleanRun(name, rd, 0, n, n%3, n%3)
				c.cleanRun(name, rd, 1, n, (n+1)%3, n%3)
			}
			for kind := 0; kind < 3; kind++ {
				for _, n := range []int{1, 2, 3, 169, 170, 171, 340, 341, 1024} {
					c.sent(name, rd, kind, 2, n, n%2 == 0)
				}
				c.sent(name, rd, kind, 1, 16384, false)
			}
		}
		for kind := 0; kind < 3; kind++ {
			for _, n := range []int{1, 169, 170, 171, 340, 341, 511, 1024, 2048, 16384} {
				c.payloadBound(kind, n)
			}
		}
	}
}
