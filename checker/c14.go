package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// symTopology: an arbitrary topology whose index has exactly nTypes entries with different numbers.
func (s *Scenario) symTopology(T types.Type, nTypes int, zeroKey bool) (*Term, *State) {
	p := s.lazyPtr("topology", T)
	st := s.NewState()
	str := T.Underlying().(*types.Struct)
	n, ok := s.force(s.loadLeaf(p, st)).(*StructN)
	if !ok {
		return p, st
	}
	r := &StructN{f: append([]Node(nil), n.f...)}
	for i := 0; i < str.NumFields(); i++ {
		mt, ok := str.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		mn := &MapN{}
		for j := 0; j < nTypes; j++ {
			lo := int64(1)
			if zeroKey {
				lo = 0
			}
			k := s.SymIntR(fmt.Sprintf("type#%d", j), 32, false, lo, 1<<32-1)
			for _, o := range mn.ents {
				st.g = s.And(st.g, s.Not(s.cmp("eq", o.k, k)))
			}
			v := s.force(&LazyN{mt.Elem(), fmt.Sprintf("typeDef#%d", j)})
			mn.ents = append(mn.ents, MapEnt{k, v, s.True, false})
		}
		o := s.newObjN("typeIndex", str.Field(i).Type(), mn)
		r.f[i] = s.mk(&Term{k: KMap, n: int64(o.id)})
	}
	s.storeLeaf(p, r, st, s.True)
	return p, st
}

// fixedIndex: an arbitrary topology whose index has exactly these numbers.
func (s *Scenario) fixedIndex(T types.Type, keys []int64) (*Term, *State) {
	p, st := s.symTopology(T, 0, true)
	n := s.force(s.loadLeaf(p, st)).(*StructN)
	r := &StructN{f: append([]Node(nil), n.f...)}
	i := fieldIdx(T, "TypeIndex")
	mt := T.Underlying().(*types.Struct).Field(i).Type()
	mn := &MapN{}
	for j, k := range keys {
		v := s.force(&LazyN{mt.Underlying().(*types.Map).Elem(), fmt.Sprintf("typeDef#%d", j)})
		mn.ents = append(mn.ents, MapEnt{s.IntT(k, 32, false), v, s.True, false})
	}
	r.f[i] = s.mk(&Term{k: KMap, n: int64(s.newObjN("typeIndex", mt, mn).id)})
	s.storeLeaf(p, r, st, s.True)
	return p, st
}

// results: the deep form of every result.
func (s *Scenario) results(f *ssa.Function, ret *Term, st *State) (out []*Term) {
	n := f.Signature.Results().Len()
	for i := 0; i < n; i++ {
		x := ret
		if n > 1 {
			x = s.proj(ret, i)
		}
		out = append(out, s.deep(x, st, f.Signature.Results().At(i).Type()))
	}
	return out
}

// schema: what JSON keeps of a type, from the declarations.
func (c *Check) schema(rule string, T types.Type, s *Scenario, seen map[string]bool) {
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		c.schema(rule, u.Elem(), s, seen)
	case *types.Slice:
		c.schema(rule, u.Elem(), s, seen)
	case *types.Map:
		c.schema(rule, u.Elem(), s, seen)
	case *types.Interface, *types.Chan, *types.Signature:
		s.violate(rule, "field of type "+T.String(), "a value of type "+T.String()+" does not survive JSON")
	case *types.Struct:
		name := types.TypeString(T, func(p *types.Package) string { return p.Name() })
		if seen[name] {
			return
		}
		seen[name] = true
		names := map[string]string{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if strings.HasPrefix(f.Type().String(), "sync.") {
				continue
			}
			n := jsonName(u, i)
			if n == "" {
				s.violate(rule, name+"."+f.Name(), fmt.Sprintf("%s: field %s.%s is not serialised, so parsing the JSON back loses it", c.posStr(f.Pos()), name, f.Name()))
				continue
			}
			if o, dup := names[n]; dup {
				s.violate(rule, name+"."+f.Name(), fmt.Sprintf("%s: fields %s and %s of %s share the JSON name %q", c.posStr(f.Pos()), o, f.Name(), name, n))
				continue
			}
			names[n] = f.Name()
			s.ok()
			c.schema(rule, f.Type(), s, seen)
		}
	}
}

func init() {
	props["C14"] = func(c *Check) {
		const T = topoPath
		meaning, seqIds := c.need("rpspec", "Meaning"), c.need("rpspec", "SequentialIds")
		without, content := c.need("rpspec", "WithoutSections"), c.need("rpspec", "Content")
		rnd, clean := c.need(T, "Topology.RandomizeTypes"), c.need(T, "Topology.CleanSections")
		if meaning == nil || seqIds == nil || without == nil || content == nil || rnd == nil || clean == nil {
			return
		}
		topo := rnd.Params[0].Type().(*types.Pointer).Elem()

		c.scenario("schema", func(s *Scenario) { c.schema("schema", topo, s, map[string]bool{}) })

		// serialise, parse, serialise again
		for _, n := range []string{"ToJSON", "JSONstring"} {
			f := c.need(T, "Topology."+n)
			if f == nil {
				continue
			}
			for nt := 0; nt <= 2; nt++ {
				c.scenario(fmt.Sprintf("round-trip: %s with %d types", n, nt), func(s *Scenario) {
					s.listBound = 2
					s.InitPkg(f.Pkg)
					p, st := s.symTopology(topo, nt, true)
					r, st := s.callFn(content, []*Term{p}, nil, st, nil, content.Pos())
					want := s.results(content, r, st)
					txt, st := s.callFn(f, []*Term{p}, nil, st, nil, f.Pos())
					s.oblPanics("total", st)
					if st == nil {
						s.undecided("no path returns")
						return
					}
					s.equalTerms("round-trip", fnName(f)+" leaves the topology alone", s.Tup(s.contentOf(content, p, st)...), s.Tup(want...), st.g, anyDiffer)
					// parse
					q := s.newObjN("parsed", topo, s.zero(topo))
					ctx := &CallCtx{args: []*Term{txt}, st: st}
					e := s.unmarshal(ctx, "json", txt, s.Iface(types.NewPointer(topo), s.Ptr(q.id)))
					s.equalTerms("round-trip", fnName(f)+" parses back", s.leafCond("isnil?", e, func(x *Term) bool { return x == s.Nil }), s.True, st.g, anyDiffer)
					got := s.contentOf(content, s.Ptr(q.id), st)
					for i := range want {
						s.equalTerms("round-trip", fnName(f)+": "+content.Signature.Results().At(i).Name(), got[i], want[i], st.g, anyDiffer)
					}
					txt2, st2 := s.callFn(f, []*Term{s.Ptr(q.id)}, nil, st, nil, f.Pos())
					if st2 == nil {
						s.undecided("no path returns")
						return
					}
					s.equalTerms("fixpoint", fnName(f), txt2, txt, st2.g, anyDiffer)
				})
			}
		}

		// renumbering
		for nt := 0; nt <= 3; nt++ {
			for _, seq := range []bool{true, false} {
				for _, zero := range []bool{false, true} {
					if zero && nt == 0 {
						continue
					}
					rule, what := "renumber", map[bool]string{true: "sequential", false: "random"}[seq]
					if zero {
						rule = "renumber-index-with-0"
					}
					c.scenario(fmt.Sprintf("%s: %s, %d types", rule, what, nt), func(s *Scenario) {
						s.listBound = 2
						s.InitPkg(rnd.Pkg)
						s.symDraws = nt + 1
						p, st := s.symTopology(topo, nt, zero)
						if zero {
							st.g = s.And(st.g, s.eqConst(s.SymIntR("type#0", 32, false, 0, 1<<32-1), 0))
						}
						// every component's type is in the index or 0
						s.typesKnown(p, topo, nt, zero, st)
						r, st := s.callFn(meaning, []*Term{p}, nil, st, nil, meaning.Pos())
						want := s.results(meaning, r, st)
						s.obls = nil
						_, st = s.callFn(rnd, []*Term{p, s.Bool(seq)}, nil, st, nil, rnd.Pos())
						s.oblPanics("total", st)
						if st == nil {
							s.undecided("no path returns")
							return
						}
						r, st = s.callFn(meaning, []*Term{p}, nil, st, nil, meaning.Pos())
						got := s.results(meaning, r, st)
						for i := range want {
							s.equalTerms(rule, what+": "+meaning.Signature.Results().At(i).Name(), got[i], want[i], st.g, anyDiffer)
						}
						if seq {
							ids, st := s.callFn(seqIds, []*Term{p}, nil, st, nil, seqIds.Pos())
							s.equalTerms(rule, "numbers 1..n", ids, s.True, st.g, anyDiffer)
						}
					})
				}
			}
		}

		// the same with a large index and many components
		for _, seq := range []bool{true, false} {
			what := map[bool]string{true: "sequential", false: "random"}[seq]
			c.scenario("renumber: "+what+", 90 components of 30 types", func(s *Scenario) {
				s.listBound = 1
				s.undecLimit = 100
				s.InitPkg(rnd.Pkg)
				s.symDraws = 1
				keys := make([]int64, 30)
				for i := range keys {
					keys[i] = int64(1 + i*37%200)
				}
				keys[17], keys[21] = 1<<32-1, 250 // the largest number there is and the one of section markers
				p, st := s.fixedIndex(topo, keys)
				s.manyComponents(p, topo, 90, func(k int) *Term {
					if k%9 == 8 {
						return s.IntT(0, 32, false)
					}
					return s.IntT(keys[(k*7)%30], 32, false)
				}, st)
				r, st := s.callFn(meaning, []*Term{p}, nil, st, nil, meaning.Pos())
				want := s.results(meaning, r, st)
				s.obls = nil
				_, st = s.callFn(rnd, []*Term{p, s.Bool(seq)}, nil, st, nil, rnd.Pos())
				s.oblPanics("total", st)
				if st == nil {
					s.undecided("no path returns")
					return
				}
				r, st = s.callFn(meaning, []*Term{p}, nil, st, nil, meaning.Pos())
				got := s.results(meaning, r, st)
				for i := range want {
					s.equalTerms("renumber", what+": "+meaning.Signature.Results().At(i).Name(), got[i], want[i], st.g, anyDiffer)
				}
				if seq {
					ids, st := s.callFn(seqIds, []*Term{p}, nil, st, nil, seqIds.Pos())
					s.equalTerms("renumber", "numbers 1..n", ids, s.True, st.g, anyDiffer)
				}
			})
		}

		// section markers
		most := 5
		if c.thorough() {
			most = 8
		}
		pats := []string{strings.Repeat("0", 40) + "1" + strings.Repeat("0", 40), "1" + strings.Repeat("001", 30) + "1", strings.Repeat("1", 40) + "0"}
		for m := 1; m < 2<<most; m++ { // a leading 1, then one bit per component
			pats = append(pats, fmt.Sprintf("%b", m)[1:])
		}
		for _, pat := range pats {
			c.scenario("sections: pattern "+pat, func(s *Scenario) {
				s.listBound = 4
				s.InitPkg(clean.Pkg)
				p, st := s.symTopology(topo, 1, true)
				s.fixComponents(p, topo, pat, st)
				r, st := s.callFn(without, []*Term{p}, nil, st, nil, without.Pos())
				want := s.results(without, r, st)
				s.obls = nil
				_, st = s.callFn(clean, []*Term{p}, nil, st, nil, clean.Pos())
				s.oblPanics("total", st)
				if st == nil {
					s.undecided("no path returns")
					return
				}
				got := s.contentOf(content, p, st)
				for i := range want {
					s.equalTerms("sections", content.Signature.Results().At(i).Name(), got[i], want[i], st.g, anyDiffer)
				}
			})
		}
	}
}

func (s *Scenario) contentOf(content *ssa.Function, p *Term, st *State) []*Term {
	r, o := s.callFn(content, []*Term{p}, nil, st.copy(), nil, content.Pos())
	if o == nil {
		return nil
	}
	return s.results(content, r, o)
}

func (s *Scenario) oblPanics(rule string, st *State) {
	for _, ob := range s.obls {
		s.never(rule, fmt.Sprintf("%s in %s", ob.kind, fnName(ob.fn)), s.c.posStr(ob.pos)+": "+ob.kind, ob.cond)
	}
	s.obls = nil
}

// fieldIdx of a named field.
func fieldIdx(T types.Type, name string) int {
	u := T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// fixComponents gives the topology one component per letter: 1 is a section marker, 0 is not.
func (s *Scenario) fixComponents(p *Term, T types.Type, pat string, st *State) {
	i := fieldIdx(T, "HWc")
	n := s.force(s.loadLeaf(p, st)).(*StructN)
	r := &StructN{f: append([]Node(nil), n.f...)}
	u := T.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice)
	sl := s.fixedSlice("hwc", u, len(pat))
	ti := fieldIdx(u.Elem(), "Type")
	for k, b := range pat {
		at := s.elemPtr(sl, int64(k))
		c := s.force(s.loadLeaf(at, st)).(*StructN)
		d := &StructN{f: append([]Node(nil), c.f...)}
		if b == '1' {
			d.f[ti] = s.IntT(250, 32, false)
		} else {
			st.g = s.And(st.g, s.Not(s.eqConst(s.nodeTerm(s.force(c.f[ti])), 250)))
		}
		s.storeLeaf(at, d, st, s.True)
	}
	r.f[i] = sl
	s.storeLeaf(p, r, st, s.True)
}

// elemPtr: the address of one element of a slice.
func (s *Scenario) elemPtr(sl *Term, k int64) *Term {
	b := sl.args[0]
	return s.Ptr(int(b.n), append(append([]*Term(nil), b.args...), s.bin("add", sl.args[1], s.Int(k)))...)
}

// typesKnown makes every component's type one of the index's, or 0.
func (s *Scenario) typesKnown(p *Term, T types.Type, nt int, zero bool, st *State) {
	i := fieldIdx(T, "HWc")
	n := s.force(s.loadLeaf(p, st)).(*StructN)
	sl := s.nodeTerm(s.force(n.f[i]))
	nd, ok := s.sliceNode(sl, st)
	l, ok2 := nd.(*ListN)
	if !ok || !ok2 {
		s.undecided("component list not tracked")
		return
	}
	ct := T.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice).Elem()
	ti := fieldIdx(ct, "Type")
	r := &ListN{}
	for k, it := range l.items {
		c := s.force(it.v).(*StructN)
		which := s.SymIntR(fmt.Sprintf("typeOf#%d", k), 8, false, 0, int64(nt))
		ty := s.IntT(0, 32, false)
		for j := 0; j < nt; j++ {
			lo := int64(1)
			if zero {
				lo = 0
			}
			ty = s.ite(s.eqConst(which, int64(j+1)), s.SymIntR(fmt.Sprintf("type#%d", j), 32, false, lo, 1<<32-1), ty)
		}
		d := &StructN{f: append([]Node(nil), c.f...)}
		d.f[ti] = ty
		r.items = append(r.items, Item{it.g, d})
	}
	// the list object itself keeps its identity
	s.eachSlice(sl, st, func(obj int) { st.mem = st.mem.set(obj, r) })
}

func (s *Scenario) eachSlice(sl *Term, st *State, f func(obj int)) {
	for _, gl := range s.leaves(sl, st.g) {
		if gl.v.k == KSlice && gl.v.args[0].k == KPtr {
			f(int(gl.v.args[0].n))
		}
	}
}
