package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// enumRange: smallest and largest declared constant of a named integer type.
func (c *Check) enumRange(t types.Type) (lo, hi int64, ok bool) {
	n, isN := t.(*types.Named)
	if !isN || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != rwpPath {
		return 0, 0, false
	}
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		k, isC := sc.Lookup(nm).(*types.Const)
		if !isC || k.Type() != t {
			continue
		}
		v, exact := constant.Int64Val(k.Val())
		if !exact {
			continue
		}
		if !ok || v < lo {
			lo = v
		}
		if !ok || v > hi {
			hi = v
		}
		ok = true
	}
	return
}

// domain of a message field: documented ranges of the ASCII grammar.
type fieldDom struct {
	re     *regexp.Regexp
	lo, hi int64
}

var inDomains = []fieldDom{
	{regexp.MustCompile(`\.HWCMode\.BlinkPattern$`), 0, 15},
	{regexp.MustCompile(`\.HWCExtended\.Value$`), 0, 4095},
	{regexp.MustCompile(`\.ColorRGB\.(Red|Green|Blue)$`), 0, 255},
	{regexp.MustCompile(`\.ColorIndex\.Index$`), 0, 31},
	{regexp.MustCompile(`Font\.Text(Height|Width)$`), 0, 3},
	{regexp.MustCompile(`Font\.FontFace$`), 0, 7},
	{regexp.MustCompile(`\.TitleBarPadding$`), 0, 3},
	{regexp.MustCompile(`\.ExtraCharacterSpacing$`), 0, 7},
}

// inputHook gives every field of a symbolic message its documented range.
func (c *Check) inputHook(e *Eng, doms []fieldDom, str func(name string) *StrInfo) func(name string, t types.Type) Node {
	return func(name string, t types.Type) Node {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return nil
		}
		if b.Info()&types.IsString != 0 {
			if str != nil {
				if si := str(name); si != nil {
					return e.SymStr(name, si)
				}
			}
			return nil
		}
		w, sg, ok := intType(b)
		if !ok {
			return nil
		}
		for _, d := range doms {
			if d.re.MatchString(name) {
				return e.SymIntR(name, w, sg, d.lo, d.hi)
			}
		}
		if lo, hi, ok := c.enumRange(t); ok {
			return e.SymIntR(name, w, sg, lo, hi)
		}
		return nil
	}
}

// chain several hooks
func hooks(fs ...func(string, types.Type) Node) func(string, types.Type) Node {
	return func(n string, t types.Type) Node {
		for _, f := range fs {
			if x := f(n, t); x != nil {
				return x
			}
		}
		return nil
	}
}

// runFn analyses fn on args from a fresh initial state; result deep value in its final state.
func (s *Scenario) runFn(fn *ssa.Function, args ...*Term) (*Term, *State) {
	s.Eng.InitPkg(fn.Pkg)
	st := s.NewState()
	ret, out := s.callFn(fn, args, nil, st, nil, fn.Pos())
	if out == nil {
		return nil, nil
	}
	return ret, out
}

func (s *Scenario) deepResult(fn *ssa.Function, ret *Term, out *State) *Term {
	return s.deep(ret, out, fn.Signature.Results().At(0).Type())
}

func (s *Scenario) dropPanics() { s.obls = nil }

// equalTerms compares two results; lists are aligned on common items first.
func (s *Scenario) equalTerms(rule, key string, a, b, g *Term, differ func(x, y *Term) bool) {
	e := s.Eng
	isL := func(t *Term) bool { return t.k == KOp && t.s == "list" }
	if !isL(a) || !isL(b) {
		s.equalSeg(rule, key, "result", a, b, a, b, g, differ)
		return
	}
	sa, sb, lab := e.align(a, b)
	for i := range sa {
		if s.equalSeg(rule, key, "result"+lab[i], sa[i], sb[i], a, b, g, differ) {
			return
		}
	}
	s.r.Obligations += len(a.args) / 2
	s.r.Proved += len(a.args) / 2
}

func (s *Scenario) equalSeg(rule, key, path string, a, b, wholeA, wholeB, g *Term, differ func(x, y *Term) bool) bool {
	e := s.Eng
	diffs, obl := e.Compare(path, a, b, g)
	s.r.Obligations += obl
	s.r.Proved += obl
	if os.Getenv("RPDIFF") != "" {
		for _, d := range diffs {
			fmt.Printf("DIFF %s: %.400s\n  VS %.400s\n  WHEN %.6000s\n", d.path, e.show(d.a), e.show(d.b), e.show(d.g))
		}
	}
	for n, d := range diffs {
		s.r.Proved--
		s.r.Obligations--
		if n > 25 {
			s.undecided("further differences skipped")
			break
		}
		w := e.findWitness2(d.g, d.a, d.b, wholeA, wholeB, differ)
		if w == nil {
			why := "normal forms differ, no witness"
			if e.hasUnknown(d.g, d.a, d.b) {
				why = "unmodelled construct"
			}
			s.undecided(fmt.Sprintf("%s: %s: %.300s / %.300s", d.path, why, e.show(d.a), e.show(d.b)))
			continue
		}
		s.violate(rule, key, fmt.Sprintf("at %s the library yields %s where the specification requires %s, for input {%s}", d.path, e.show(w.a), e.show(w.b), e.showWitness(w)))
		return true
	}
	return false
}

// align splits two guarded lists at their common items (longest common subsequence).
func (e *Eng) align(a, b *Term) (sa, sb []*Term, label []string) {
	n, m := len(a.args)/2, len(b.args)/2
	same := func(i, j int) bool { return a.args[2*i] == b.args[2*j] && a.args[2*i+1] == b.args[2*j+1] }
	L := make([][]int, n+1)
	for i := range L {
		L[i] = make([]int, m+1)
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			if same(i, j) {
				L[i][j] = L[i+1][j+1] + 1
			} else if L[i+1][j] >= L[i][j+1] {
				L[i][j] = L[i+1][j]
			} else {
				L[i][j] = L[i][j+1]
			}
		}
	}
	var xa, xb []*Term
	at := 0
	flush := func() {
		if len(xa) > 0 || len(xb) > 0 {
			sa = append(sa, e.Op("list", SAny, 0, false, xa...))
			sb = append(sb, e.Op("list", SAny, 0, false, xb...))
			label = append(label, fmt.Sprintf("[line group %d]", at))
		}
		xa, xb = nil, nil
	}
	i, j := 0, 0
	for i < n || j < m {
		if i < n && j < m && same(i, j) {
			flush()
			i++
			j++
			at = i
		} else if j >= m || i < n && L[i+1][j] >= L[i][j+1] {
			xa = append(xa, a.args[2*i], a.args[2*i+1])
			i++
		} else {
			xb = append(xb, b.args[2*j], b.args[2*j+1])
			j++
		}
	}
	flush()
	return
}

func anyDiffer(x, y *Term) bool { return true }

// keySorted orders guarded lines by their literal keyword (lines of one component or one command set
// are independent of each other); stable, so lines with the same keyword keep their order.
func (e *Eng) keySorted(l *Term) *Term {
	if l.k != KOp || l.s != "list" {
		return l
	}
	type it struct {
		key  string
		g, v *Term
	}
	var its []it
	for i := 0; i < len(l.args); i += 2 {
		k := ""
		for _, v := range leafSet(l.args[i+1])[:1] {
			ps := e.parts(v)
			if len(ps) > 0 && ps[0].k == KStr {
				k = ps[0].s
				if j := strings.IndexAny(k, "=#"); j >= 0 {
					k = k[:j]
				}
			}
		}
		its = append(its, it{k, l.args[i], l.args[i+1]})
	}
	sort.SliceStable(its, func(i, j int) bool { return its[i].key < its[j].key })
	var args []*Term
	for _, x := range its {
		args = append(args, x.g, x.v)
	}
	return e.Op("list", SAny, 0, false, args...)
}

func nilFields(e *Eng, re string) func(string, types.Type) Node {
	x := regexp.MustCompile(re)
	return func(n string, t types.Type) Node {
		if !x.MatchString(n) {
			return nil
		}
		switch t.Underlying().(type) {
		case *types.Pointer:
			return e.Nil
		case *types.Slice:
			return e.Nil
		case *types.Basic:
			return e.zeroT(t)
		}
		return nil
	}
}

// encodeRunner compares an encoder with its reference on symbolic message lists.
func (c *Check) encodeRunner(rule string, enc, ref *ssa.Function, str func(string) *StrInfo) func(name string, bound int, sorted bool, hook func(s *Scenario) func(string, types.Type) Node) {
	return func(name string, bound int, sorted bool, hook func(s *Scenario) func(string, types.Type) Node) {
		c.scenario(name, func(s *Scenario) {
			s.listBound = bound
			base := c.inputHook(s.Eng, inDomains, str)
			s.lazyHook = base
			if hook != nil {
				s.lazyHook = hooks(hook(s), base)
			}
			mt := enc.Signature.Params().At(0).Type()
			var arg *Term
			if bound < 0 { // exactly that many messages
				s.listBound = 1
				arg = s.fixedSlice("msgs", mt.Underlying().(*types.Slice), -bound)
			} else {
				arg = s.lazySlice("msgs", mt.Underlying().(*types.Slice), bound)
			}
			r1, o1 := s.runFn(enc, arg)
			r2, o2 := s.runFn(ref, arg)
			a, b := s.deepResult(enc, r1, o1), s.deepResult(ref, r2, o2)
			if sorted {
				a, b = s.keySorted(a), s.keySorted(b)
			}
			if os.Getenv("RPSHOW") != "" {
				fmt.Println("A:", s.show(a))
				fmt.Println("B:", s.show(b))
			}
			s.equalTerms(rule, name, a, b, s.And(o1.g, o2.g), anyDiffer)
		})
	}
}

func init() {
	props["C01"] = func(c *Check) {
		enc := c.need(modRoot, "InboundMessagesToRawPanelASCIIstrings")
		ref := c.need("rpspec", "EncodeInbound")
		if enc == nil || ref == nil {
			return
		}
		run := c.encodeRunner("encode-inbound", enc, ref, func(n string) *StrInfo { return &StrInfo{max: -1, noNL: !strings.HasSuffix(n, ".Json")} })
		run("commands", 1, true, func(s *Scenario) func(string, types.Type) Node {
			return nilFields(s.Eng, `\.(States|Registers|FlowMessage)$`)
		})
		run("flow and registers", 1, false, func(s *Scenario) func(string, types.Type) Node {
			return nilFields(s.Eng, `\.(States|Command)$`)
		})
		run("states", 1, true, func(s *Scenario) func(string, types.Type) Node {
			return nilFields(s.Eng, `\.(Command|Registers|FlowMessage|HWCGfx)$`)
		})
		run("sections in order", 1, false, func(s *Scenario) func(string, types.Type) Node {
			return nilFields(s.Eng, `\.Command\.[^C][A-Za-z]+$|\.HWC(Gfx|Text|Color|Extended)$|\.(Processors|PublishRawADCValues)$`)
		})
		run("two of everything", 2, false, func(s *Scenario) func(string, types.Type) Node {
			return nilFields(s.Eng, `\.Command$|\.HWC(Gfx|Text|Extended)$|\.(Processors|PublishRawADCValues|ColorRGB|BlinkPattern|Output)$`)
		})
		kinds := []string{"HWCMode", "HWCColor", "HWCExtended", "HWCText", "HWCGfx", "PublishRawADCValues", "Processors"}
		for _, k := range kinds {
			others := `\.(Command|Registers|FlowMessage`
			for _, o := range kinds {
				if o != k {
					others += "|" + o
				}
			}
			others += `)$`
			pair := func(name string, msgs, states, ids int) {
				run(name, -msgs, false, func(s *Scenario) func(string, types.Type) Node {
					return hooks(nilFields(s.Eng, others), present(s.Eng, `\.`+k+`$`), exactly(s.Eng, `\.States$`, states), exactly(s.Eng, `\.HWCIDs$`, ids), s.gfxData(3))
				})
			}
			pair(k+" of two components", 1, 1, 2)
			pair(k+" twice in one message", 1, 2, 1)
			pair(k+" in two messages", 2, 1, 1)
		}
		for _, k := range []string{"HWCMode", "HWCColor", "HWCExtended", "PublishRawADCValues"} {
			others := `\.(Command|Registers|FlowMessage`
			for _, o := range kinds {
				if o != k {
					others += "|" + o
				}
			}
			others += `)$`
			long := func(name string, msgs, states, ids int) {
				run(k+name, -msgs, false, func(s *Scenario) func(string, types.Type) Node {
					return hooks(nilFields(s.Eng, others), present(s.Eng, `\.`+k+`$`), exactly(s.Eng, `\.States$`, states), exactly(s.Eng, `\.HWCIDs$`, ids))
				})
			}
			long(" of 40 components", 1, 1, 40)
			long(" 40 times in one message", 1, 40, 1)
			long(" in 40 messages", 40, 1, 1)
		}
		run("40 registers", -1, false, func(s *Scenario) func(string, types.Type) Node {
			return hooks(nilFields(s.Eng, `\.(States|Command|FlowMessage)$`), exactly(s.Eng, `\.Registers$`, 40))
		})
		run("40 flow messages", -40, false, func(s *Scenario) func(string, types.Type) Node {
			return nilFields(s.Eng, `\.(States|Command|Registers)$`)
		})
		for _, n := range []int{0, 1, 169, 170, 171, 340, 341, 511, 1024} {
			n := n
			run(fmt.Sprintf("graphics of %d bytes", n), 1, false, func(s *Scenario) func(string, types.Type) Node {
				return hooks(nilFields(s.Eng, `\.(Command|Registers|FlowMessage|HWC(Mode|Text|Color|Extended)|PublishRawADCValues|Processors)$`), s.gfxData(n))
			})
		}
	}
}

// exactly: slices whose name matches have exactly n elements; present: matching pointers are set.
func exactly(e *Eng, re string, n int) func(string, types.Type) Node {
	x := regexp.MustCompile(re)
	return func(name string, t types.Type) Node {
		if sl, ok := t.Underlying().(*types.Slice); ok && x.MatchString(name) && !isByte(sl.Elem()) {
			return e.fixedSlice(name, sl, n)
		}
		return nil
	}
}

func present(e *Eng, re string) func(string, types.Type) Node {
	x := regexp.MustCompile(re)
	return func(name string, t types.Type) Node {
		if p, ok := t.Underlying().(*types.Pointer); ok && x.MatchString(name) {
			return e.lazyPtr(name, p.Elem())
		}
		return nil
	}
}

// gfxData: image data of exactly n opaque bytes.
func (s *Scenario) gfxData(n int) func(string, types.Type) Node {
	return func(name string, t types.Type) Node {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok || !isByte(sl.Elem()) || !strings.HasSuffix(name, ".ImageData") {
			return nil
		}
		key := "data:" + name
		id, ok := s.lazyObjs[key]
		if !ok {
			data := s.Empty
			if n > 0 {
				data = s.SymStr(name, &StrInfo{min: n, max: n})
			}
			o := s.newObjN(name, sl, &BytesN{data})
			o.lazy = true
			id = o.id
			s.lazyObjs[key] = id
		}
		return s.Slice(s.Ptr(id), s.Int(0), s.LenAll)
	}
}
