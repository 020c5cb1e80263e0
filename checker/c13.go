package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const topoPath = modRoot + "/topology"

// sameResults: the library function and its reference return the same for every input.
func (c *Check) sameResults(rule string, f, ref *ssa.Function, view *ssa.Function, many int) {
	name := rule + ": " + fnName(f)
	if many > 0 {
		name = fmt.Sprintf("%s, %d components", name, many)
	}
	c.scenario(name, func(s *Scenario) {
		s.listBound = 3
		s.Eng.InitPkg(f.Pkg)
		s.Eng.InitPkg(ref.Pkg)
		var args []*Term
		for i, p := range f.Params {
			if i == 0 {
				args = append(args, s.lazyPtr(p.Name(), p.Type().(*types.Pointer).Elem()))
				continue
			}
			if pt, ok := p.Type().(*types.Pointer); ok {
				args = append(args, s.lazyPtr(p.Name(), pt.Elem()))
				continue
			}
			if p.Name() == "HWCMapKey" || strings.HasPrefix(ref.Params[i].Name(), "k") {
				args = append(args, s.SymIntR(p.Name(), 64, true, 0, 1<<31))
				continue
			}
			args = append(args, s.lazyParam(p))
		}
		st := s.NewState()
		if many > 0 {
			s.listBound = 1
			s.undecLimit = many + 2
			s.manyComponents(args[0], f.Params[0].Type().(*types.Pointer).Elem(), many, nil, st)
		}
		want, o := s.callFn(ref, args, nil, st, nil, ref.Pos())
		if o == nil {
			s.undecided("reference did not return")
			return
		}
		s.obls = nil
		before := s.content1(args[0], f, o)
		got, o2 := s.callFn(f, args, nil, o, nil, f.Pos())
		for _, ob := range s.obls {
			s.never("total", fmt.Sprintf("%s in %s", ob.kind, fnName(ob.fn)), c.posStr(ob.pos)+": "+ob.kind, ob.cond)
		}
		if o2 == nil {
			s.undecided("no path returns")
			return
		}
		for i, a := range s.content1(args[0], f, o2) {
			s.equalTerms("not-mutated", fnName(f), a, before[i], o2.g, anyDiffer)
		}
		n := f.Signature.Results().Len()
		for i := 0; i < n; i++ {
			g, w := got, want
			if n > 1 {
				g, w = s.proj(got, i), s.proj(want, i)
			}
			t := f.Signature.Results().At(i).Type()
			if types.Implements(t, errorType) {
				g = s.leafCond("isnil?", g, func(x *Term) bool { return x != s.Nil })
				w = s.leafCond("isnil?", w, func(x *Term) bool { return x == s.True })
			} else {
				o3 := o2
				if view != nil {
					g, o3 = s.callFn(view, []*Term{g}, nil, o3, nil, view.Pos())
					w, o3 = s.callFn(view, []*Term{w}, nil, o3, nil, view.Pos())
				}
				g, w = s.deep(g, o3, t), s.deep(w, o3, t)
			}
			s.equalTerms(rule, fnName(f), g, w, o2.g, anyDiffer)
		}
	})
}

var errorType = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func init() {
	props["C13"] = func(c *Check) {
		var entries []*ssa.Function
		for _, n := range []string{"GetHWCs", "GetHWCxy", "GetHWCtext", "GetHWCtype", "GetHWCsWithDisplay", "GetHWCTypeDefinition", "GetHWCTypeDefinitionFromHWCid", "GetHWCDefinitionFromHWCid"} {
			f, ref := c.need(topoPath, "Topology."+n), c.need("rpspec", "Topo"+n)
			if f == nil || ref == nil {
				continue
			}
			entries = append(entries, f)
			var view *ssa.Function
			if strings.HasPrefix(n, "GetHWCTypeDefinition") {
				view = c.need("rpspec", "Shared")
			}
			c.sameResults("look-up", f, ref, view, 0)
			c.sameResults("look-up", f, ref, view, 70)
		}
		if f, ref := c.need(topoPath, "Topology.GetTypeDefWithOverride"), c.need("rpspec", "Resolve"); f != nil && ref != nil {
			entries = append(entries, f)
			c.sameResults("look-up", f, ref, nil, 0)
		}
		for _, n := range []string{"GetInputType", "IsButton", "IsBinary", "IsPulsed", "IsAbsolute", "IsIntensity", "HasDisplay", "DisplayInfo", "IsMotorized", "HasLED", "LedBarSteps", "HasSteps"} {
			f, ref := c.need(topoPath, "TopologyHWcTypeDef."+n), c.need("rpspec", "Def"+n)
			if f == nil || ref == nil {
				continue
			}
			entries = append(entries, f)
			c.sameResults("predicate", f, ref, nil, 0)
		}
		c.locking("locking", entries...)
	}
}

// content1: what the receiver serialises to.
func (s *Scenario) content1(p *Term, f *ssa.Function, st *State) (out []*Term) {
	t := f.Params[0].Type().(*types.Pointer).Elem()
	str, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	n, ok := s.force(s.loadLeaf(p, st)).(*StructN)
	if !ok {
		s.undecided("receiver not tracked")
		return nil
	}
	for i := 0; i < str.NumFields(); i++ {
		if fl := str.Field(i); fl.Exported() && !strings.HasPrefix(fl.Type().String(), "sync.") {
			out = append(out, s.deep(s.nodeTerm(s.force(n.f[i])), st, fl.Type()))
		}
	}
	return out
}

// locking: a lock taken is released on every path, and nothing called while it is held takes it again.
func (c *Check) locking(rule string, entries ...*ssa.Function) {
	c.scenario(rule, func(s *Scenario) {
		for _, f := range reach(entries...) {
			s.lockBalance(rule, f)
			c.selfLock(s, rule, f)
		}
	})
}

// locksParam: the parameters whose own mutex f takes, directly or through calls on the same object.
func locksParam(f *ssa.Function, seen map[*ssa.Function]bool) map[int]bool {
	out := map[int]bool{}
	if f == nil || seen[f] || len(f.Blocks) == 0 {
		return out
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, isGo := in.(*ssa.Go); isGo {
				continue
			}
			if n := callName(ci.Common()); strings.HasSuffix(n, "Mutex).Lock") || strings.HasSuffix(n, "Mutex).RLock") {
				if len(ci.Common().Args) > 0 {
					if i := paramIndex(f, lockObj(ci.Common().Args[0])); i >= 0 {
						out[i] = true
					}
				}
				continue
			}
			g := ci.Common().StaticCallee()
			if g == nil {
				continue
			}
			for i := range locksParam(g, seen) {
				if i < len(ci.Common().Args) {
					if j := paramIndex(f, lockObj(ci.Common().Args[i])); j >= 0 {
						out[j] = true
					}
				}
			}
		}
	}
	return out
}

func paramIndex(f *ssa.Function, v ssa.Value) int {
	for i, p := range f.Params {
		if v == ssa.Value(p) {
			return i
		}
	}
	return -1
}

func (c *Check) selfLock(s *Scenario, rule string, f *ssa.Function) {
	var own []ssa.Value // objects whose mutex f takes
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok && len(ci.Call.Args) > 0 {
				if n := callName(&ci.Call); strings.HasSuffix(n, "Mutex).Lock") || strings.HasSuffix(n, "Mutex).RLock") {
					own = append(own, lockObj(ci.Call.Args[0]))
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(*ssa.Call)
			if !ok || len(own) == 0 || !lockHeldR(in) {
				continue
			}
			n := callName(&ci.Call)
			var locked []ssa.Value
			if strings.HasSuffix(n, "Mutex).Lock") || strings.HasSuffix(n, "Mutex).RLock") {
				locked = append(locked, lockObj(ci.Call.Args[0]))
			} else if g := ci.Call.StaticCallee(); g != nil {
				for i := range locksParam(g, map[*ssa.Function]bool{}) {
					if i < len(ci.Call.Args) {
						locked = append(locked, lockObj(ci.Call.Args[i]))
					}
				}
			}
			for _, l := range locked {
				s.r.Obligations++
				s.r.Proved++
				for _, o := range own {
					if l == o {
						s.r.Proved--
						c.violate(rule, "lock taken twice in "+fnName(f), fmt.Sprintf("%s calls %s at %s while it holds the lock of the same object, which that call takes again: it never returns", fnName(f), n, c.posStr(in.Pos())))
						return
					}
				}
			}
		}
	}
}

// lockObj: the object whose mutex an address denotes.
func lockObj(v ssa.Value) ssa.Value {
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return v
		}
		st, _ := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if st == nil || !strings.HasPrefix(st.Field(fa.Field).Type().String(), "sync.") {
			return v
		}
		v = fa.X
	}
}

// manyComponents gives the topology n components numbered 1..n in mixed order (37 has no factor in common with n+1), with the types given, none with an override of its own.
func (s *Scenario) manyComponents(p *Term, T types.Type, n int, typeOf func(k int) *Term, st *State) {
	i := fieldIdx(T, "HWc")
	top := s.force(s.loadLeaf(p, st)).(*StructN)
	r := &StructN{f: append([]Node(nil), top.f...)}
	u := T.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice)
	sl := s.fixedSlice("hwc", u, n)
	id, ty, over := fieldIdx(u.Elem(), "Id"), fieldIdx(u.Elem(), "Type"), fieldIdx(u.Elem(), "TypeOverride")
	for k := 0; k < n; k++ {
		at := s.elemPtr(sl, int64(k))
		d := &StructN{f: append([]Node(nil), s.force(s.loadLeaf(at, st)).(*StructN).f...)}
		d.f[id], d.f[over] = s.IntT(int64((k+1)*37%(n+1)), 32, false), s.Nil
		d.f[ty] = s.IntT(int64(k+1), 32, false)
		if typeOf != nil {
			d.f[ty] = typeOf(k)
		}
		s.storeLeaf(at, d, st, s.True)
	}
	r.f[i] = sl
	s.storeLeaf(p, r, st, s.True)
}
