package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// panicFree: every run-time panic condition met while analysing f on arbitrary input is
// unsatisfiable, every loop makes progress, and no element of the result is nil.
func (c *Check) panicFree(rule, name string, f *ssa.Function, setup func(s *Scenario) []*Term) {
	c.scenario(rule+": "+name, func(s *Scenario) {
		s.Eng.InitPkg(c.pkg(modRoot))
		s.Eng.InitPkg(f.Pkg)
		args := setup(s)
		s.obls = nil
		s.oblN = map[string]int{}
		s.checkEndless = true
		s.jsonNil = true
		st := s.NewState()
		ret, o := s.callFn(f, args, nil, st, nil, f.Pos())
		n := len(s.oblN)
		s.r.Obligations += n
		s.r.Proved += n
		for _, ob := range s.obls {
			s.never(rule, fmt.Sprintf("%s in %s", ob.kind, fnName(ob.fn)), c.posStr(ob.pos)+": "+ob.kind, ob.cond)
		}
		if o == nil {
			s.undecided("no path returns")
			return
		}
		res := f.Signature.Results()
		if res.Len() == 0 {
			return
		}
		if sl, ok := res.At(0).Type().Underlying().(*types.Slice); ok {
			if _, ok := sl.Elem().Underlying().(*types.Pointer); ok {
				s.noNilElem(fnName(f), ret, o)
			}
		}
	})
}

// never: cond holds for no input.
func (s *Scenario) never(rule, key, what string, cond *Term) {
	c := s.ite(cond, s.True, s.False)
	s.equalSeg(rule, key, what, c, s.False, c, s.False, s.True, anyDiffer)
}

func (s *Scenario) noNilElem(key string, ret *Term, st *State) {
	for _, gl := range s.leaves(ret, st.g) {
		n, ok := s.sliceNode(gl.v, st)
		l, isL := n.(*ListN)
		if !ok || !isL {
			s.undecided("result list not tracked")
			continue
		}
		bad := s.False
		for _, it := range l.items {
			t, ok := s.force(it.v).(*Term)
			if !ok {
				s.undecided("result element not tracked")
				continue
			}
			bad = s.Or(bad, s.And(it.g, s.leafCond("isnil?", t, func(x *Term) bool { return x == s.Nil })))
		}
		s.never("no-nil-message", key, "nil element in the result", s.And(gl.g, bad))
	}
}

// reentrant: no entry point writes package-level state without holding a lock, and none writes
// memory owned by its input (recv: parameters that are the function's own state).
func (c *Check) reentrant(rule string, own map[*ssa.Function]map[int]bool, entries ...*ssa.Function) {
	ef := c.effectsOf(entries...)
	c.scenario(rule+": memory effects", func(s *Scenario) {
		for _, f := range entries {
			sum := ef.sum[f]
			s.r.Obligations++
			bad := false
			for _, w := range sum.list() {
				if w.lock || w.r.kind == rParam && own[f][w.r.idx] {
					continue
				}
				bad = true
				what := "package-level state"
				if w.r.kind == rParam {
					what = "its input (" + f.Params[w.r.idx].Name() + ")"
				}
				c.violate(rule, fnName(f)+" writes "+w.r.String(), fmt.Sprintf("%s writes %s without synchronisation: %s at %s in %s; concurrent calls interfere", fnName(f), what+" ("+w.r.String()+")", w.what, c.posStr(w.pos), fnName(w.fn)))
			}
			for r := range sum.returns {
				if r.kind != rGlobal || bad {
					continue
				}
				if w, ok := sum.writes[r]; ok && !w.once {
					bad = true
					c.violate(rule, fnName(f)+" returns "+r.String(), fmt.Sprintf("the result of %s shares memory with %s, which calls rewrite (%s at %s in %s)", fnName(f), r, w.what, c.posStr(w.pos), fnName(w.fn)))
				}
			}
			if !bad {
				s.r.Proved++
			}
		}
		held := ef.heldThroughout(entries)
		seen := map[*ssa.Global]bool{}
		for _, f := range entries {
			for _, w := range ef.sum[f].list() {
				if w.r.kind != rGlobal || !w.lock || w.once || seen[w.r.g] {
					continue
				}
				seen[w.r.g] = true
				_, isMap := w.r.g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
				for _, in := range ef.globalReads(w.r.g) {
					s.r.Obligations++
					s.r.Proved++
					if !held[in.Parent()] && !lockHeldR(in) {
						s.r.Proved--
						c.violate(rule, w.r.String()+" read in "+fnName(in.Parent()), fmt.Sprintf("%s is written under a lock (%s) but used at %s in %s without one", w.r, c.posStr(w.pos), c.posStr(in.Pos()), fnName(in.Parent())))
						break
					}
					if v, ok := in.(ssa.Value); ok && !isMap && !feedsOnly(v, w.r.g, map[ssa.Value]bool{}) {
						s.r.Proved--
						c.violate(rule, w.r.String()+" carried between calls", fmt.Sprintf("%s uses %s at %s, which calls rewrite (%s in %s): the result depends on what other calls left there", fnName(in.Parent()), w.r, c.posStr(in.Pos()), c.posStr(w.pos), fnName(w.fn)))
						break
					}
				}
				if isMap {
					s.undecided("table kept between calls: " + w.r.String())
				}
			}
		}
		for _, f := range ef.order {
			c.mu.Lock()
			c.funcs[fnName(f)] = true
			c.mu.Unlock()
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok {
						s.undecided("goroutine started at " + c.posStr(g.Pos()))
					}
				}
			}
			s.lockBalance(rule, f)
		}
	})
}

// lockBalance: a mutex locked in f is released on every path out of f.
func (s *Scenario) lockBalance(rule string, f *ssa.Function) {
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || lockOp(&call.Call) != 1 {
				continue
			}
			s.r.Obligations++
			if leak := lockLeak(b, i+1, map[*ssa.BasicBlock]bool{}); leak.IsValid() {
				s.c.violate(rule, "lock released in "+fnName(f), fmt.Sprintf("the mutex locked at %s is still locked when %s returns at %s; the next call hangs", s.c.posStr(in.Pos()), fnName(f), s.c.posStr(leak)))
			} else {
				s.r.Proved++
			}
		}
	}
}

func lockLeak(b *ssa.BasicBlock, from int, seen map[*ssa.BasicBlock]bool) token.Pos {
	for _, in := range b.Instrs[from:] {
		switch x := in.(type) {
		case *ssa.Call:
			if lockOp(&x.Call) == -1 {
				return token.NoPos
			}
		case *ssa.Defer:
			if lockOp(&x.Call) == -1 {
				return token.NoPos
			}
		case *ssa.Return:
			if x.Pos().IsValid() {
				return x.Pos()
			}
			return b.Parent().Pos()
		}
	}
	for _, n := range b.Succs {
		if seen[n] {
			continue
		}
		seen[n] = true
		if p := lockLeak(n, 0, seen); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

func init() {
	props["C06"] = func(c *Check) {
		lines := func(s *Scenario) []*Term {
			s.listBound = 2
			return []*Term{s.strSlice([]*Term{s.SymStr("line1", &StrInfo{max: -1}), s.SymStr("line2", &StrInfo{max: -1})})}
		}
		for _, n := range []string{"RawPanelASCIIstringsToInboundMessages", "RawPanelASCIIstringsToOutboundMessages"} {
			if f := c.need(modRoot, n); f != nil {
				c.panicFree("total", n, f, lines)
			}
		}
		msgs := func(f *ssa.Function) func(s *Scenario) []*Term {
			return func(s *Scenario) []*Term {
				s.listBound = 1
				return []*Term{s.lazyParam(f.Params[0])}
			}
		}
		for _, n := range []string{"InboundMessagesToRawPanelASCIIstrings", "OutboundMessagesToRawPanelASCIIstrings"} {
			if f := c.need(modRoot, n); f != nil {
				c.panicFree("total", n, f, msgs(f))
			}
		}
		if f := c.need(modRoot, "ASCIIreader.Parse"); f != nil {
			c.panicFree("total", "ASCIIreader.Parse", f, func(s *Scenario) []*Term {
				s.listBound = 2
				return []*Term{s.lazyPtr("ar", f.Params[0].Type().(*types.Pointer).Elem()), s.SymStr("line", &StrInfo{max: -1})}
			})
		}
		var entries []*ssa.Function
		for _, n := range []string{"RawPanelASCIIstringsToInboundMessages", "RawPanelASCIIstringsToOutboundMessages", "InboundMessagesToRawPanelASCIIstrings", "OutboundMessagesToRawPanelASCIIstrings", "ASCIIreader.Parse"} {
			if f := c.fn(modRoot, n); f != nil {
				entries = append(entries, f)
			}
		}
		own := map[*ssa.Function]map[int]bool{}
		if f := c.fn(modRoot, "ASCIIreader.Parse"); f != nil {
			own[f] = map[int]bool{0: true}
		}
		c.reentrant("re-entrant", own, entries...)
	}
}
