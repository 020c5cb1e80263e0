package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// A counting loop over a list whose items exist conditionally is analysed item by item: the k-th
// item is visited under its own existence guard, at a position equal to the number of items before it.

type listIter struct {
	phi   *ssa.Phi
	cond  ssa.Value
	over  ssa.Value
	start int64 // value of the phi on entry
}

func listIterOf(L *Loop) *listIter {
	h := L.head
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	c, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || c.Block() != h || !L.body[h.Succs[0]] || L.body[h.Succs[1]] {
		return nil
	}
	idx, bnd := c.X, c.Y
	switch c.Op {
	case token.LSS, token.NEQ:
	case token.GTR:
		idx, bnd = bnd, idx
	default:
		return nil
	}
	cl, ok := bnd.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := cl.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return nil
	}
	v := cl.Call.Args[0]
	if in, ok := v.(ssa.Instruction); ok && L.body[in.Block()] {
		return nil
	}
	it := &listIter{cond: c, over: v}
	plus1 := func(x ssa.Value) ssa.Value {
		if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == 1 {
				return b.X
			}
		}
		return nil
	}
	switch x := idx.(type) {
	case *ssa.Phi:
		it.phi, it.start = x, 0
	case *ssa.BinOp:
		p, _ := plus1(x).(*ssa.Phi)
		if p == nil || x.Block() != h {
			return nil
		}
		it.phi, it.start = p, -1
	}
	if it.phi == nil || it.phi.Block() != h {
		return nil
	}
	for i, pr := range h.Preds {
		ed := it.phi.Edges[i]
		if L.body[pr] {
			if plus1(ed) != ssa.Value(it.phi) {
				return nil
			}
		} else if k, ok := ed.(*ssa.Const); !ok || k.Value == nil || k.Int64() != it.start {
			return nil
		}
	}
	return it
}

func (e *Eng) rank(gs []*Term, under *Term) *Term {
	n := int64(0)
	for _, g := range gs {
		switch g {
		case e.True:
			n++
		case e.False:
		default:
			return e.Op("count", SInt, 64, true, gs...)
		}
	}
	return e.Int(n)
}

// atRank: the item of l a count term designates.
func (e *Eng) atRank(l *ListN, s *Term) int {
	if s.k != KOp || s.s != "count" || len(s.args) >= len(l.items) {
		return -1
	}
	for i, g := range s.args {
		if l.items[i].g != g {
			return -1
		}
	}
	return len(s.args)
}

func (e *Eng) listLoop(fr *Frame, L *Loop, in []*edge) (exits []*edge, ok bool) {
	if e.noListLoop {
		return nil, false
	}
	it := listIterOf(L)
	if it == nil {
		return nil, false
	}
	var st *State
	for _, ed := range in {
		if ed.st.g != e.False {
			if st != nil {
				return nil, false
			}
			st = ed.st
		}
	}
	if st == nil {
		return nil, false
	}
	s := e.constrain(e.val(fr, it.over), st.g)
	if s.k != KSlice || s.args[2] != e.LenAll || s.args[1].k != KInt || s.args[1].n != 0 {
		return nil, false
	}
	l, isL := e.force(e.loadLeaf(s.args[0], st)).(*ListN)
	if !isL {
		return nil, false
	}
	mono := true
	for i := 1; i < len(l.items); i++ {
		if e.And(e.And(l.items[i].g, e.Not(l.items[i-1].g)), st.g) != e.False {
			mono = false
		}
	}
	if mono {
		return nil, false
	}
	pn := -1
	for i, x := range L.head.Instrs {
		if x == ssa.Instruction(it.phi) {
			pn = i
		}
	}
	if fr.forced == nil {
		fr.forced = map[ssa.Value]*Term{}
	}
	defer delete(fr.forced, it.cond)
	gs := make([]*Term, len(l.items))
	for i := range gs {
		gs[i] = l.items[i].g
	}
	with := func(ed *edge, g, idx *Term) *edge {
		n := *ed
		n.st = &State{g: g, mem: ed.st.mem}
		n.phis = append([]*Term(nil), ed.phis...)
		n.phis[pn] = e.bin("add", idx, e.Int(it.start))
		return &n
	}
	for k := range gs {
		var run, skip []*edge
		for _, ed := range in {
			if g := e.And(ed.st.g, gs[k]); g != e.False {
				run = append(run, with(ed, g, e.rank(gs[:k], g)))
			}
			if g := e.And(ed.st.g, e.Not(gs[k])); g != e.False {
				skip = append(skip, with(ed, g, e.Int(0)))
			}
		}
		if len(run) == 0 {
			continue
		}
		fr.forced[it.cond] = e.True
		backs, exs := e.runRegion2(fr, L, run)
		exits = append(exits, exs...)
		in = append(skip, backs...)
	}
	var last []*edge
	for _, ed := range in {
		if ed.st.g != e.False {
			last = append(last, with(ed, ed.st.g, e.listLen(l)))
		}
	}
	if len(last) > 0 {
		fr.forced[it.cond] = e.False
		_, exs := e.runRegion2(fr, L, last)
		exits = append(exits, exs...)
	}
	return exits, true
}
