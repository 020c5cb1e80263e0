package main

import (
	"fmt"
	"go/types"
	"regexp"
)

var xmlName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_.-]*$`)

const xmlPath = "github.com/subchen/go-xmldom"

// svgModels: the base document is given by its parse outcome; printing is an uninterpreted function of the document.
func (s *Scenario) svgModels(outcome string, nb int, doc types.Type) (base *Term) {
	base = s.lazyPtr("base", doc)
	s.local = map[string]ModelFn{}
	parse := func(e *Eng, c *CallCtx) (*Term, bool) {
		switch outcome {
		case "error":
			return e.Tup(e.Nil, e.errVal("xml", e.Str("x"))), true
		case "empty":
			o := e.newObjN("emptydoc", doc, e.zero(doc))
			return e.Tup(e.Ptr(o.id), e.Nil), true
		}
		return e.Tup(base, e.Nil), true
	}
	s.local[xmlPath+".ParseXML"] = parse
	s.local[xmlPath+".Parse"] = parse
	for _, n := range []string{"XML", "XMLPretty", "XMLPrettyEx"} {
		s.local["(*"+xmlPath+".Document)."+n] = func(e *Eng, c *CallCtx) (*Term, bool) {
			return e.strOp("xmlof", c.args[0]), true
		}
	}
	return base
}

// baseDoc: a document whose root already has nb children.
func (s *Scenario) baseDoc(base *Term, doc types.Type, nb int, st *State) (root *Term) {
	du := doc.Underlying().(*types.Struct)
	ri := fieldIdx(doc, "Root")
	node := du.Field(ri).Type().(*types.Pointer).Elem()
	root = s.lazyPtr("base.root", node)
	d := s.force(s.loadLeaf(base, st)).(*StructN)
	d2 := &StructN{f: append([]Node(nil), d.f...)}
	d2.f[ri] = root
	s.storeLeaf(base, d2, st, s.True)
	n := s.force(s.loadLeaf(root, st)).(*StructN)
	n2 := &StructN{f: append([]Node(nil), n.f...)}
	ci, pi := fieldIdx(node, "Children"), fieldIdx(node, "Document")
	ns := make([]Node, nb)
	for i := range ns {
		ns[i] = s.lazyPtr(fmt.Sprintf("base.child%d", i), node)
	}
	if nb == 0 {
		n2.f[ci] = s.Nil
	} else {
		n2.f[ci] = s.listSlice(ns...)
	}
	n2.f[pi] = base
	n2.f[fieldIdx(node, "Parent")] = s.Nil
	s.storeLeaf(root, n2, st, s.True)
	return root
}

func init() {
	inlinePkgs[xmlPath] = true
	props["C15"] = func(c *Check) {
		gen, str := c.need(topoPath, "GenerateCompositeSVGdoc"), c.need(topoPath, "GenerateCompositeSVG")
		ref, view := c.need("rpspec", "SvgShapes"), c.need("rpspec", "SvgView")
		kept := c.need("rpspec", "SvgBase")
		names := c.need("rpspec", "SvgNames")
		if names == nil || gen == nil || str == nil || ref == nil || view == nil || kept == nil {
			return
		}
		topo := ref.Params[0].Type().(*types.Pointer).Elem()
		doc := gen.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		mapT := ref.Params[1].Type()

		for _, outcome := range []string{"error", "empty"} {
			c.scenario("invalid base: "+outcome, func(s *Scenario) {
				s.listBound = 1
				s.InitPkg(gen.Pkg)
				s.svgModels(outcome, 0, doc)
				st := s.NewState()
				r, st := s.callFn(gen, []*Term{s.lazyParam(gen.Params[0]), s.lazyParam(gen.Params[1]), s.lazyParam(gen.Params[2]), s.True, s.True, s.False, s.False}, nil, st, nil, gen.Pos())
				s.oblPanics("invalid-base", st)
				if st == nil {
					s.undecided("no path returns")
					return
				}
				s.equalTerms("invalid-base", fnName(gen), r, s.Nil, st.g, anyDiffer)
				r, st = s.callFn(str, []*Term{s.lazyParam(str.Params[0]), s.lazyParam(str.Params[1]), s.lazyParam(str.Params[2])}, nil, s.NewState(), nil, str.Pos())
				s.oblPanics("invalid-base", st)
				if st == nil {
					s.undecided("no path returns")
					return
				}
				s.equalTerms("invalid-base", fnName(str), r, s.Str(""), st.g, anyDiffer)
			})
		}

		type variant struct {
			comps, subs, types, bases int
			nilMap                    bool
			flags                     string // labels, ids, types, sizes; ? is arbitrary
		}
		vs := []variant{{0, 0, 0, 2, false, "????"}, {1, 0, 0, 1, true, "????"}, {1, 0, 1, 1, false, "????"}, {1, 0, 1, 0, true, "????"},
			{1, 1, 1, 1, false, "????"}, {1, 2, 1, 2, false, "0100"}, {1, 2, 1, 2, true, "1011"}, {1, 3, 1, 1, false, "0000"},
			{2, 0, 1, 1, false, "1111"}, {2, 0, 1, 1, false, "1100"}, {2, 0, 1, 1, true, "1111"}, {2, 1, 1, 1, true, "1100"}, {2, 1, 1, 1, false, "1100"},
			{90, 0, 1, 1, true, "1100"}, {3, 40, 1, 1, true, "1100"}}
		for _, v := range vs {
			for _, whole := range []bool{false, true} {
				f, v := gen, v
				if whole {
					f = str
					v.flags = "1100"
				}
				c.scenario(fmt.Sprintf("%s: %d components, %d sub-elements, %d types, map absent=%v, options %s", fnName(f), v.comps, v.subs, v.types, v.nilMap, v.flags), func(s *Scenario) {
					s.listBound = v.subs
					s.InitPkg(gen.Pkg)
					base := s.svgModels("ok", v.bases, doc)
					p, st := s.symTopology(topo, v.types, true)
					if v.comps > 2 {
						s.undecLimit = v.comps + v.subs + 2
						p, st = s.plainDrawing(topo, v.comps, v.subs)
					} else {
						s.nComponents(p, topo, v.comps, st)
					}
					root := s.baseDoc(base, doc, v.bases, st)
					js := s.strOp("json", s.deep(p, st, types.NewPointer(topo)))
					theMap := s.Nil
					if !v.nilMap {
						theMap = s.mk(&Term{k: KMap, n: int64(s.newObjN("theMap", mapT, &MapN{base: s.Sym("theMap", SAny, 0, false)}).id)})
					}
					flags := []*Term{s.SymBool("showLabels"), s.SymBool("showHWCID"), s.SymBool("showType"), s.SymBool("showDisplaySize")}
					for i := range flags {
						if v.flags[i] != '?' {
							flags[i] = s.Bool(v.flags[i] == '1')
						}
					}
					keptArgs := []*Term{base, s.Int(int64(v.bases))}
					r, st := s.callFn(kept, keptArgs, nil, st, nil, kept.Pos())
					wantBase := s.results(kept, r, st)
					r, st = s.callFn(ref, append([]*Term{p, theMap}, flags...), nil, st, nil, ref.Pos())
					if st == nil {
						s.undecided("reference did not return")
						return
					}
					want := s.results(ref, r, st)[0]
					s.obls = nil
					args := append([]*Term{js, s.SymStr("svg", nil), theMap}, flags...)
					if whole {
						args = args[:3]
					}
					out, st := s.callFn(f, args, nil, st, nil, f.Pos())
					s.oblPanics("total", st)
					if st == nil {
						s.undecided("no path returns")
						return
					}
					if whole {
						s.equalTerms("composite", "printed document", out, s.strOp("xmlof", base), st.g, anyDiffer)
					} else {
						s.equalTerms("composite", "returned document", out, base, st.g, anyDiffer)
					}
					_ = root
					r, st2 := s.callFn(kept, keptArgs, nil, st.copy(), nil, kept.Pos())
					if st2 == nil {
						s.undecided("no path returns")
						return
					}
					gotBase := s.results(kept, r, st2)
					for i := range wantBase {
						s.equalTerms("base-content", "base document", gotBase[i], wantBase[i], st2.g, anyDiffer)
					}
					r, st3 := s.callFn(view, keptArgs, nil, st.copy(), nil, view.Pos())
					if st3 == nil {
						s.undecided("no path returns")
						return
					}
					got := s.results(view, r, st3)[0]
					s.equalTerms("composite", "elements for components", got, want, st3.g, anyDiffer)
					r, st4 := s.callFn(names, keptArgs, nil, st.copy(), nil, names.Pos())
					if st4 == nil {
						s.undecided("no path returns")
						return
					}
					for _, l := range s.leaves(s.results(names, r, st4)[0], st4.g) {
						for i := 1; l.v.k == KOp && i < len(l.v.args); i += 2 {
							for _, x := range s.leaves(l.v.args[i], s.True) {
								switch {
								case x.v.k != KStr:
									s.undecided("element or attribute name not constant: " + s.show(x.v))
								case !xmlName.MatchString(x.v.s):
									s.violate("well-formed", "name "+x.v.s, fmt.Sprintf("the element or attribute name %q is not an XML name", x.v.s))
								default:
									s.ok()
								}
							}
						}
					}
				})
			}
		}
	}
}

// nComponents gives the topology exactly k components of arbitrary type.
func (s *Scenario) nComponents(p *Term, T types.Type, k int, st *State) {
	i := fieldIdx(T, "HWc")
	n := s.force(s.loadLeaf(p, st)).(*StructN)
	r := &StructN{f: append([]Node(nil), n.f...)}
	u := T.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice)
	r.f[i] = s.Nil
	if k > 0 {
		r.f[i] = s.fixedSlice("hwc", u, k)
	}
	s.storeLeaf(p, r, st, s.True)
}

// plainDrawing: a topology with many components and sub-elements, every number and label given.
func (s *Scenario) plainDrawing(T types.Type, comps, subs int) (*Term, *State) {
	p, st := s.fixedIndex(T, []int64{1, 2})
	s.manyComponents(p, T, comps, func(k int) *Term { return s.IntT(int64(1+k%2), 32, false) }, st)
	top := s.force(s.loadLeaf(p, st)).(*StructN)
	hwc := T.Underlying().(*types.Struct).Field(fieldIdx(T, "HWc")).Type().Underlying().(*types.Slice).Elem()
	sl := s.nodeTerm(s.force(top.f[fieldIdx(T, "HWc")]))
	for k := 0; k < comps; k++ {
		s.setFields(s.elemPtr(sl, int64(k)), hwc, st, map[string]Node{
			"X": s.Int(int64(10 * k)), "Y": s.Int(int64(2000 - 3*k)), "Txt": s.Str(fmt.Sprintf("label %d|line %d", k, k/2))})
	}
	mi := fieldIdx(T, "TypeIndex")
	def := T.Underlying().(*types.Struct).Field(mi).Type().Underlying().(*types.Map).Elem()
	mn := &MapN{}
	for j := 0; j < 2; j++ {
		var sub Node = s.Nil
		if subs > 0 {
			ut := def.Underlying().(*types.Struct).Field(fieldIdx(def, "Sub")).Type().Underlying().(*types.Slice)
			ss := s.fixedSlice(fmt.Sprintf("sub%d", j), ut, subs)
			for k := 0; k < subs; k++ {
				s.setFields(s.elemPtr(ss, int64(k)), ut.Elem(), st, map[string]Node{"ObjType": s.Str([]string{"r", "c", "d"}[(k+k/7)%3]),
					"X": s.Int(int64(k)), "Y": s.Int(int64(-k)), "W": s.Int(int64(5 + k)), "H": s.Int(int64(k % 4)), "R": s.Int(int64(k % 3)),
					"Rx": s.Int(0), "Ry": s.Int(int64(k % 2)), "Style": s.Str([]string{"", "fill:red"}[k%2]), "Idx": s.Int(int64(k))})
			}
			sub = ss
		}
		o := s.newObjN(fmt.Sprintf("def%d", j), def, s.force(&LazyN{def, fmt.Sprintf("typeDef#%d", j)}))
		s.setFields(s.Ptr(o.id), def, st, map[string]Node{"W": s.Int(int64(40 + j)), "H": s.Int(int64(30 * j)), "Rotate": s.zero(def.Underlying().(*types.Struct).Field(fieldIdx(def, "Rotate")).Type()),
			"Render": s.Str(""), "Disp": s.Nil, "Sub": sub})
		mn.ents = append(mn.ents, MapEnt{s.IntT(int64(j+1), 32, false), s.loadLeaf(s.Ptr(o.id), st), s.True, false})
	}
	top = s.force(s.loadLeaf(p, st)).(*StructN)
	r := &StructN{f: append([]Node(nil), top.f...)}
	r.f[mi] = s.mk(&Term{k: KMap, n: int64(s.newObjN("plainIndex", T.Underlying().(*types.Struct).Field(mi).Type(), mn).id)})
	s.storeLeaf(p, r, st, s.True)
	return p, st
}

// setFields gives some fields of a structure new values.
func (s *Scenario) setFields(at *Term, T types.Type, st *State, vals map[string]Node) {
	d := &StructN{f: append([]Node(nil), s.force(s.loadLeaf(at, st)).(*StructN).f...)}
	for n, v := range vals {
		if i := fieldIdx(T, n); i >= 0 {
			d.f[i] = v
		}
	}
	s.storeLeaf(at, d, st, s.True)
}
