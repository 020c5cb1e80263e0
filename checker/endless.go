package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopCond: the loop-carried values on which leaving the loop depends.
type loopCond struct {
	phis []int // indices of the head's phis
	pos  token.Pos
	ok   bool
}

// condOf slices the exit conditions of a loop backwards to the phis of its head. Not ok when they
// also depend on memory the loop may change, on inner loops or on calls.
func (e *Eng) condOf(L *Loop) *loopCond {
	if L.cond != nil {
		return L.cond
	}
	lc := &loopCond{ok: true, pos: blockPos(L.head)}
	L.cond = lc
	idx := map[*ssa.Phi]int{}
	k := 0
	for _, in := range L.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		idx[p] = k
		k++
	}
	stores := false
	for b := range L.body {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer:
				stores = true
			case *ssa.Return, *ssa.Panic:
				lc.ok = false
			}
		}
	}
	seen := map[ssa.Value]bool{}
	got := map[int]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] || !lc.ok {
			return
		}
		seen[v] = true
		in, isIn := v.(ssa.Instruction)
		if !isIn || in.Block() == nil || !L.body[in.Block()] {
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if n, ok := idx[x]; ok {
				if !got[n] {
					got[n] = true
					lc.phis = append(lc.phis, n)
				}
				return
			}
			// a merge inside the body depends on the branches that lead to it
			for b := range L.body {
				if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					visit(iff.Cond)
				}
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW || x.Op == token.MUL && stores {
				lc.ok = false
				return
			}
		case *ssa.Next, *ssa.Select, *ssa.MakeClosure:
			lc.ok = false
			return
		case *ssa.Call:
			if !pureCall(&x.Call) {
				lc.ok = false
				return
			}
		case *ssa.Lookup, *ssa.Index, *ssa.TypeAssert:
			if stores {
				lc.ok = false
				return
			}
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				visit(*op)
			}
		}
	}
	for b := range L.body {
		out := false
		for _, s := range b.Succs {
			if !L.body[s] {
				out = true
			}
		}
		if !out {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			lc.ok = false
			return lc
		}
		visit(iff.Cond)
		// the exit is reached through the branches before it
		for c := range L.body {
			if i2, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If); ok && c != b && !(L.body[c.Succs[0]] && L.body[c.Succs[1]]) {
				visit(i2.Cond)
			}
		}
	}
	return lc
}

func pureCall(c *ssa.CallCommon) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max"
	}
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "strings", "strconv", "math", "unicode", "unicode/utf8", "bytes":
		return !strings.Contains(f.String(), "(*")
	}
	return false
}

// endless: going round without changing anything the exit conditions depend on never ends.
func (e *Eng) endless(fr *Frame, L *Loop, backs []*edge) {
	lc := e.condOf(L)
	if e.oblN != nil {
		e.oblN[e.posStr(lc.pos)+": loop makes progress"]++
	}
	if !lc.ok {
		return
	}
	var phis []*ssa.Phi
	for _, in := range L.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	for _, ed := range backs {
		if ed.st.g == e.False {
			continue
		}
		same := e.True
		for _, k := range lc.phis {
			if k >= len(ed.phis) {
				return
			}
			same = e.And(same, e.sameVal(ed.phis[k], fr.env[phis[k]]))
			if same == e.False {
				break
			}
		}
		e.oblige("endless loop", lc.pos, fr, ed.st, same)
	}
}

func (e *Eng) sameVal(a, b *Term) *Term {
	if a == b {
		return e.True
	}
	if a == nil || b == nil {
		return e.False
	}
	if a.k != KIte && b.k != KIte {
		if a.k == KSlice && b.k == KSlice && a.args[0] == b.args[0] {
			if a.args[2] == e.LenAll || b.args[2] == e.LenAll {
				if a.args[2] != b.args[2] {
					return e.False
				}
				return e.cmp("eq", a.args[1], b.args[1])
			}
			return e.And(e.cmp("eq", a.args[1], b.args[1]), e.cmp("eq", a.args[2], b.args[2]))
		}
		if a.sort == b.sort && (a.sort == SInt && a.w == b.w || a.sort == SStr || a.sort == SBool) {
			return e.cmp("eq", a, b)
		}
		return e.False
	}
	r := e.app2("sameval", a, b, func(a, b *Term) *Term { return e.sameVal(a, b) })
	if r == nil {
		return e.False
	}
	return r
}
