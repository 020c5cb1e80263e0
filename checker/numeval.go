package main

// numProg evaluates an integer term for many values of its symbols.
type numProg struct {
	e     *Eng
	nodes []numNode
	out   int
	slots []int // positions of the inputs, -1: not used
	free  *Term // a symbol that is not an input
}

type numNode struct {
	t    *Term
	args []int
	bits []bitRef
	bidx []int
	val  int64
}

func (e *Eng) numCompile(t *Term, in []*Term) (p *numProg, ok bool) {
	p = &numProg{e: e}
	at := map[*Term]int{}
	for range in {
		p.slots = append(p.slots, -1)
	}
	ok = true
	var visit func(t *Term) int
	visit = func(t *Term) int {
		if i, done := at[t]; done {
			return i
		}
		n := numNode{t: t}
		input := false
		for i, x := range in {
			if x == t {
				input = true
				defer func(i int) { p.slots[i] = at[t] }(i)
			}
		}
		if !input {
			switch {
			case t.k == KInt:
				n.val = t.n
			case t.k == KBool:
				n.val = t.n
				if t == e.True {
					n.val = 1
				}
			case t.k == KSym:
				if p.free == nil {
					p.free = t
				}
				ok = false
			case t.k == KIte:
				for _, a := range t.args {
					n.args = append(n.args, visit(a))
				}
			case t.k == KOp && t.s == "bits":
				n.bits = t.x.([]bitRef)
				for _, b := range n.bits {
					i := -1
					if b.t != nil {
						i = visit(b.t)
					}
					n.bidx = append(n.bidx, i)
				}
			case t.k == KOp:
				switch t.s {
				case "lin", "add", "sub", "mul", "quo", "rem", "and", "or", "xor", "andnot", "shl", "shr", "eq", "lt", "ltv", "ltu":
					for _, a := range t.args {
						n.args = append(n.args, visit(a))
					}
				default:
					ok = false
				}
			default:
				ok = false
			}
		}
		p.nodes = append(p.nodes, n)
		at[t] = len(p.nodes) - 1
		return at[t]
	}
	p.out = visit(t)
	return p, ok
}

// run evaluates; ok is false where an operation is not defined.
func (p *numProg) run(in []int64) (v int64, ok bool) {
	for i, s := range p.slots {
		if s >= 0 {
			p.nodes[s].val = in[i]
		}
	}
	isIn := func(i int) bool {
		for _, s := range p.slots {
			if s == i {
				return true
			}
		}
		return false
	}
	for i := range p.nodes {
		n := &p.nodes[i]
		t := n.t
		if isIn(i) {
			continue
		}
		switch {
		case t.k == KIte:
			if p.nodes[n.args[0]].val != 0 {
				n.val = p.nodes[n.args[1]].val
			} else {
				n.val = p.nodes[n.args[2]].val
			}
		case n.bits != nil:
			var r uint64
			for j, b := range n.bits {
				x := uint64(b.b)
				if n.bidx[j] >= 0 {
					x = uint64(p.nodes[n.bidx[j]].val) >> b.b & 1
				}
				r |= x << j
			}
			n.val = normInt(int64(r), t.w, t.sgn)
		case t.k == KOp && t.s == "lin":
			r := t.n
			for j := 0; j+1 < len(n.args); j += 2 {
				r += p.nodes[n.args[j]].val * p.nodes[n.args[j+1]].val
			}
			n.val = normInt(r, t.w, t.sgn)
		case t.k == KOp && len(n.args) == 2:
			a, b := p.nodes[n.args[0]].val, p.nodes[n.args[1]].val
			at := p.nodes[n.args[0]].t
			is := false
			switch t.s {
			case "eq":
				is = a == b
			case "lt", "ltv", "ltu":
				if is = a < b; at.w == 64 && !at.sgn {
					is = uint64(a) < uint64(b)
				}
			default:
				w, sgn := t.w, t.sgn
				if w == 0 {
					w, sgn = 64, true
				}
				r, ok := p.e.foldInt(t.s, a, b, w, sgn)
				if !ok {
					return 0, false
				}
				n.val = r
				continue
			}
			n.val = 0
			if is {
				n.val = 1
			}
		}
	}
	return p.nodes[p.out].val, true
}
