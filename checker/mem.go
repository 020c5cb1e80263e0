package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- persistent map object-id -> Node

type pnode struct{ c [32]any }

type pmap struct {
	root *pnode
}

const pdepth = 4 // 32^5 = 33M objects... levels 4..0

func (m *pmap) get(id int) (Node, bool) {
	n := m.root
	for l := pdepth; n != nil; l-- {
		x := n.c[(id>>(5*l))&31]
		if x == nil {
			return nil, false
		}
		if l == 0 {
			return x, true
		}
		n = x.(*pnode)
	}
	return nil, false
}

func psetRec(n *pnode, l, id int, v Node) *pnode {
	r := &pnode{}
	if n != nil {
		*r = *n
	}
	i := (id >> (5 * l)) & 31
	if l == 0 {
		r.c[i] = v
	} else {
		var ch *pnode
		if r.c[i] != nil {
			ch = r.c[i].(*pnode)
		}
		r.c[i] = psetRec(ch, l-1, id, v)
	}
	return r
}
func (m *pmap) set(id int, v Node) *pmap { return &pmap{psetRec(m.root, pdepth, id, v)} }

func (m *pmap) each(f func(id int, n Node)) {
	var rec func(n *pnode, l, base int)
	rec = func(n *pnode, l, base int) {
		if n == nil {
			return
		}
		for i, x := range n.c {
			if x == nil {
				continue
			}
			if l == 0 {
				f(base<<5|i, x)
			} else {
				rec(x.(*pnode), l-1, base<<5|i)
			}
		}
	}
	rec(m.root, pdepth, 0)
}

// ---- nodes

type Node interface{}

type StructN struct{ f []Node }
type ArrN struct { // fixed length array, chunked
	n  int
	ch [][]Node
}
type Item struct {
	g *Term
	v Node
}
type ListN struct{ items []Item }
type BytesN struct{ t *Term }
type MapEnt struct {
	k   *Term
	v   Node
	g   *Term
	del bool
}
type MapN struct {
	ents []MapEnt
	base *Term // symbolic unknown content (nil: empty)
}
type LazyN struct {
	typ  types.Type
	name string
}
type ExtN struct{ x any } // host object (regex, conn model ...)

const chunk = 64

func newArr(n int, f func(i int) Node) *ArrN {
	a := &ArrN{n: n}
	for i := 0; i < n; i += chunk {
		m := min(chunk, n-i)
		c := make([]Node, m)
		for j := range c {
			c[j] = f(i + j)
		}
		a.ch = append(a.ch, c)
	}
	return a
}
func newArrConst(n int, z Node) *ArrN {
	a := &ArrN{n: n}
	full := make([]Node, chunk)
	for i := range full {
		full[i] = z
	}
	for i := 0; i < n; i += chunk {
		m := min(chunk, n-i)
		if m == chunk {
			a.ch = append(a.ch, full)
		} else {
			a.ch = append(a.ch, full[:m:m])
		}
	}
	return a
}
func (a *ArrN) at(i int) Node { return a.ch[i/chunk][i%chunk] }
func (a *ArrN) with(i int, v Node) *ArrN {
	r := &ArrN{n: a.n, ch: append([][]Node(nil), a.ch...)}
	c := append([]Node(nil), a.ch[i/chunk]...)
	c[i%chunk] = v
	r.ch[i/chunk] = c
	return r
}

type Obj struct {
	id    int
	name  string
	typ   types.Type
	init  func() Node
	cache Node
	lazy  bool
	local bool // created by an allocation instruction: absent in states that did not allocate it
	fresh bool // created by append / merge: nobody else holds it for writing
	x     any
}

func (e *Eng) newObj(name string, typ types.Type, init func() Node) *Obj {
	o := &Obj{id: len(e.objs), name: name, typ: typ, init: init}
	e.objs = append(e.objs, o)
	return o
}

func (e *Eng) newObjN(name string, typ types.Type, n Node) *Obj {
	o := e.newObj(name, typ, nil)
	o.cache = n
	return o
}

func (e *Eng) content(id int, st *State) Node {
	if n, ok := st.mem.get(id); ok {
		return n
	}
	o := e.objs[id]
	if o.cache == nil && o.init != nil {
		o.cache = o.init()
	}
	return o.cache
}

func intType(b *types.Basic) (w uint8, sgn bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (e *Eng) zero(t types.Type) Node {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, s, ok := intType(u); ok {
			return e.IntT(0, w, s)
		}
		switch {
		case u.Info()&types.IsString != 0:
			return e.Empty
		case u.Info()&types.IsBoolean != 0:
			return e.False
		case u.Info()&types.IsFloat != 0:
			return e.Float(0)
		}
		return e.Nil
	case *types.Struct:
		if u.NumFields() == 0 {
			return &StructN{}
		}
		s := &StructN{f: make([]Node, u.NumFields())}
		for i := range s.f {
			s.f[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return newArrConst(int(u.Len()), e.zero(u.Elem()))
	}
	return e.Nil
}

// zeroT is the zero value as a term.
func (e *Eng) zeroT(t types.Type) *Term { return e.nodeTerm(e.zero(t)) }

// nodeTerm converts a node holding a plain value to a term (structs become tuples).
func (e *Eng) nodeTerm(n Node) *Term {
	switch n := n.(type) {
	case *Term:
		return n
	case *StructN:
		args := make([]*Term, len(n.f))
		for i := range n.f {
			args[i] = e.nodeTerm(n.f[i])
		}
		return e.Tup(args...)
	case *ArrN:
		args := make([]*Term, n.n)
		for i := range args {
			args[i] = e.nodeTerm(n.at(i))
		}
		return e.Tup(args...)
	case *LazyN:
		return e.nodeTerm(e.expand(n))
	}
	panic(fmt.Sprintf("nodeTerm: %T", n))
}

// termNode is the inverse for struct/array typed values.
func (e *Eng) termNode(v *Term, t types.Type) Node {
	if v.k != KTup {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructN{f: make([]Node, len(v.args))}
		for i := range s.f {
			s.f[i] = e.termNode(v.args[i], u.Field(i).Type())
		}
		return s
	case *types.Array:
		return newArr(len(v.args), func(i int) Node { return e.termNode(v.args[i], u.Elem()) })
	}
	return v
}

// ---- lazily expanded symbolic input

// lazyHook may override the initial value of an input location.
func (e *Eng) expand(l *LazyN) Node {
	if e.lazyHook != nil {
		if n := e.lazyHook(l.name, l.typ); n != nil {
			return n
		}
	}
	return e.expandDefault(l)
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Eng) expandDefault(l *LazyN) Node {
	name := l.name
	switch u := l.typ.Underlying().(type) {
	case *types.Basic:
		if w, s, ok := intType(u); ok {
			return e.SymInt(name, w, s)
		}
		switch {
		case u.Info()&types.IsString != 0:
			return e.SymStr(name, nil)
		case u.Info()&types.IsBoolean != 0:
			return e.SymBool(name)
		case u.Info()&types.IsFloat != 0:
			return e.Sym(name, SFloat, 64, true)
		}
	case *types.Struct:
		s := &StructN{f: make([]Node, u.NumFields())}
		if strings.HasPrefix(l.typ.String(), "sync.") { // inputs are not locked
			return e.zero(l.typ)
		}
		for i := range s.f {
			s.f[i] = &LazyN{u.Field(i).Type(), name + "." + u.Field(i).Name()}
		}
		return s
	case *types.Array:
		return newArr(int(u.Len()), func(i int) Node { return &LazyN{u.Elem(), fmt.Sprintf("%s[%d]", name, i)} })
	case *types.Pointer:
		return e.ite(e.atom(e.Op("isnil", SBool, 0, false, e.Sym(name, SAny, 0, false))), e.Nil, e.lazyPtr(name, u.Elem()))
	case *types.Slice:
		return e.lazySlice(name, u, e.listBound)
	case *types.Map:
		key := "map:" + name
		id, ok := e.lazyObjs[key]
		if !ok {
			id = e.newObjN(name, l.typ, &MapN{base: e.Sym(name, SAny, 0, false)}).id
			e.objs[id].lazy = true
			e.lazyObjs[key] = id
		}
		return e.mk(&Term{k: KMap, n: int64(id)})
	}
	return e.Sym(name, SAny, 0, false)
}

func (e *Eng) lazyPtr(name string, elem types.Type) *Term {
	id, ok := e.lazyObjs[name]
	if !ok {
		o := e.newObj(name, elem, func() Node {
			n := Node(&LazyN{elem, name})
			return e.expand(n.(*LazyN))
		})
		o.lazy = true
		id = o.id
		e.lazyObjs[name] = id
	}
	return e.Ptr(id)
}

// lazySlice: symbolic slice of at most bound elements (bytes: opaque string content).
func (e *Eng) lazySlice(name string, u *types.Slice, bound int) *Term {
	key := "slice:" + name
	id, ok := e.lazyObjs[key]
	if !ok {
		var n Node
		if isByte(u.Elem()) {
			n = &BytesN{e.SymStr(name, nil)}
		} else {
			ln := e.SymIntR(name+".len", 64, true, 0, int64(bound))
			l := &ListN{}
			for i := 0; i < bound; i++ {
				var v Node = &LazyN{u.Elem(), fmt.Sprintf("%s[%d]", name, i)}
				if p, ok := u.Elem().Underlying().(*types.Pointer); ok && e.elemNonNil && !(e.jsonNil && strings.HasPrefix(name, "json(")) {
					v = e.lazyPtr(fmt.Sprintf("%s[%d]", name, i), p.Elem())
				}
				l.items = append(l.items, Item{e.Not(e.ltConst(ln, int64(i+1))), v})
			}
			n = l
		}
		o := e.newObjN(name, u, n)
		o.lazy = true
		id = o.id
		e.lazyObjs[key] = id
	}
	return e.Slice(e.Ptr(id), e.Int(0), e.LenAll)
}

// fixedSlice: symbolic slice of exactly n elements.
func (e *Eng) fixedSlice(name string, u *types.Slice, n int) *Term {
	key := "slice:" + name
	id, ok := e.lazyObjs[key]
	if !ok {
		l := &ListN{}
		for i := 0; i < n; i++ {
			var v Node = &LazyN{u.Elem(), fmt.Sprintf("%s[%d]", name, i)}
			if p, ok := u.Elem().Underlying().(*types.Pointer); ok && e.elemNonNil && !(e.jsonNil && strings.HasPrefix(name, "json(")) {
				v = e.lazyPtr(fmt.Sprintf("%s[%d]", name, i), p.Elem())
			}
			l.items = append(l.items, Item{e.True, v})
		}
		o := e.newObjN(name, u, l)
		o.lazy = true
		id = o.id
		e.lazyObjs[key] = id
	}
	return e.Slice(e.Ptr(id), e.Int(0), e.LenAll)
}

// ---- list helpers

func (e *Eng) listLen(l *ListN) *Term {
	n := e.Int(0)
	for _, it := range l.items {
		if it.g == e.True {
			n = e.bin("add", n, e.Int(1))
		} else {
			n = e.bin("add", n, e.ite(it.g, e.Int(1), e.Int(0)))
		}
	}
	return n
}

// listAt: the element at position j (constant), with guards: list of (guard, item index)
type posItem struct {
	g *Term
	i int
}

func (e *Eng) listPos(l *ListN, j int) []posItem {
	allT := true
	for _, it := range l.items {
		if it.g != e.True {
			allT = false
			break
		}
	}
	if allT {
		if j < 0 || j >= len(l.items) {
			return nil
		}
		return []posItem{{e.True, j}}
	}
	cnt := []*Term{e.True} // cnt[k]: exactly k items before
	var out []posItem
	for i, it := range l.items {
		if j < len(cnt) {
			g := e.And(cnt[j], it.g)
			if g != e.False {
				out = append(out, posItem{g, i})
			}
		}
		nc := make([]*Term, len(cnt)+1)
		for k := range nc {
			nc[k] = e.False
			if k < len(cnt) {
				nc[k] = e.And(cnt[k], e.Not(it.g))
			}
			if k > 0 {
				nc[k] = e.Or(nc[k], e.And(cnt[k-1], it.g))
			}
		}
		if len(nc) > j+1 {
			nc = nc[:j+1]
		}
		cnt = nc
	}
	return out
}

// ---- reading and writing

func (e *Eng) force(n Node) Node {
	if l, ok := n.(*LazyN); ok {
		return e.expand(l)
	}
	return n
}

func (e *Eng) nodeRead(n Node, sels []*Term) Node {
	n = e.force(n)
	if len(sels) == 0 {
		return n
	}
	s := sels[0]
	switch x := n.(type) {
	case *StructN:
		return e.nodeRead(x.f[s.n], sels[1:])
	case *Term: // tuple stored as a term
		if x.k == KTup && s.k == KInt {
			return e.nodeRead(x.args[s.n], sels[1:])
		}
		return e.unknown("read of " + e.show(x))
	case *ArrN:
		if s.k == KInt {
			if s.n < 0 || int(s.n) >= x.n {
				return e.unknown("oob")
			}
			return e.nodeRead(x.at(int(s.n)), sels[1:])
		}
		// symbolic index
		var acc Node
		if x.n > 600 || x.n == 0 {
			return e.unknown("symbolic index into a large array")
		}
		acc = e.nodeRead(x.at(x.n-1), sels[1:])
		for i := x.n - 2; i >= 0; i-- {
			c := e.cmp("eq", s, e.IntT(int64(i), s.w, s.sgn))
			if c == e.False {
				continue
			}
			acc = e.mergeNode(c, e.nodeRead(x.at(i), sels[1:]), acc, nil, nil)
		}
		return acc
	case *ListN:
		return e.app1Node(s, func(s *Term) Node {
			if k := e.atRank(x, s); k >= 0 {
				return e.nodeRead(x.items[k].v, sels[1:])
			}
			if s.k != KInt {
				// symbolic position: over all constant positions
				var acc Node
				for j := len(x.items) - 1; j >= 0; j-- {
					v := e.nodeRead(x, append([]*Term{e.Int(int64(j))}, sels[1:]...))
					if acc == nil {
						acc = v
					} else {
						acc = e.mergeNode(e.cmp("eq", s, e.IntT(int64(j), s.w, s.sgn)), v, acc, nil, nil)
					}
				}
				if acc == nil {
					return e.unknown("index of empty list")
				}
				return acc
			}
			ps := e.listPos(x, int(s.n))
			var acc Node
			for k := len(ps) - 1; k >= 0; k-- {
				v := e.nodeRead(x.items[ps[k].i].v, sels[1:])
				if acc == nil {
					acc = v
				} else {
					acc = e.mergeNode(ps[k].g, v, acc, nil, nil)
				}
			}
			if acc == nil {
				return e.unknown("index beyond list")
			}
			return acc
		})
	case *BytesN:
		return e.CharAt(x.t, s)
	}
	return e.unknown(fmt.Sprintf("read %T", n))
}

// app1Node distributes a node-valued function over a decision diagram of indices.
func (e *Eng) app1Node(s *Term, f func(*Term) Node) Node {
	if s.k != KIte {
		return f(s)
	}
	return e.mergeNode(e.atom(s.args[0]), e.app1Node(s.args[1], f), e.app1Node(s.args[2], f), nil, nil)
}

func (e *Eng) nodeWrite(n Node, sels []*Term, v Node) Node {
	n = e.force(n)
	if len(sels) == 0 {
		return v
	}
	s := sels[0]
	switch x := n.(type) {
	case *StructN:
		r := &StructN{f: append([]Node(nil), x.f...)}
		r.f[s.n] = e.nodeWrite(x.f[s.n], sels[1:], v)
		return r
	case *Term:
		if x.k == KTup && s.k == KInt {
			args := append([]*Term(nil), x.args...)
			args[s.n] = e.nodeTerm(e.nodeWrite(x.args[s.n], sels[1:], v))
			return e.Tup(args...)
		}
		e.note("write into " + e.show(x))
		return n
	case *ArrN:
		if s.k == KInt {
			if s.n < 0 || int(s.n) >= x.n {
				return n
			}
			return x.with(int(s.n), e.nodeWrite(x.at(int(s.n)), sels[1:], v))
		}
		lo, hi := e.rng(s)
		r := x
		for i := max(0, lo); i <= hi && i < int64(x.n); i++ {
			c := e.cmp("eq", s, e.IntT(int64(i), s.w, s.sgn))
			if c == e.False {
				continue
			}
			old := x.at(int(i))
			r = r.with(int(i), e.mergeNode(c, e.nodeWrite(old, sels[1:], v), old, nil, nil))
		}
		return r
	case *ListN:
		r := &ListN{items: append([]Item(nil), x.items...)}
		if k := e.atRank(x, s); k >= 0 {
			r.items[k].v = e.nodeWrite(r.items[k].v, sels[1:], v)
			return r
		}
		for i := range x.items {
			var c *Term
			if s.k == KInt {
				c = e.False
				for _, p := range e.listPos(x, int(s.n)) {
					if p.i == i {
						c = e.Or(c, p.g)
					}
				}
			} else {
				c = e.False
				for j := 0; j <= i; j++ {
					for _, p := range e.listPos(x, j) {
						if p.i == i {
							c = e.Or(c, e.And(p.g, e.cmp("eq", s, e.IntT(int64(j), s.w, s.sgn))))
						}
					}
				}
			}
			if c == e.False {
				continue
			}
			old := x.items[i].v
			r.items[i].v = e.mergeNode(c, e.nodeWrite(old, sels[1:], v), old, nil, nil)
		}
		return r
	case *BytesN:
		ln := e.StrLen(x.t)
		if ln.k == KInt && ln.n <= 1<<16 {
			a := newArr(int(ln.n), func(i int) Node { return e.CharAt(x.t, e.Int(int64(i))) })
			return e.nodeWrite(a, sels, v)
		}
		return &BytesN{e.Op("bytestore", SStr, 0, false, x.t, s, e.nodeTerm(v))}
	}
	e.note(fmt.Sprintf("write to %T", n))
	return n
}

// load through a pointer leaf
func (e *Eng) loadLeaf(p *Term, st *State) Node {
	return e.nodeRead(e.content(int(p.n), st), p.args)
}

func (e *Eng) storeLeaf(p *Term, v Node, st *State, cond *Term) {
	old := e.content(int(p.n), st)
	nv := v
	if cond != e.True {
		nv = e.mergeNode(cond, v, e.nodeRead(old, p.args), st, st)
	}
	st.mem = st.mem.set(int(p.n), e.nodeWrite(old, p.args, nv))
}

// ---- merging

func (e *Eng) mergeNode(sel *Term, a, b Node, sa, sb *State) Node {
	if sel == e.True {
		return a
	}
	if sel == e.False {
		return b
	}
	if a == b {
		return a
	}
	a, b = e.force(a), e.force(b)
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return e.mergeVal(sel, x, y, sa, sb)
		}
		if x.k == KTup {
			if y, ok := b.(*StructN); ok {
				r := &StructN{f: make([]Node, len(y.f))}
				for i := range r.f {
					r.f[i] = e.mergeNode(sel, x.args[i], y.f[i], sa, sb)
				}
				return r
			}
		}
	case *StructN:
		if y, ok := b.(*StructN); ok && len(x.f) == len(y.f) {
			r := &StructN{f: make([]Node, len(x.f))}
			for i := range r.f {
				r.f[i] = e.mergeNode(sel, x.f[i], y.f[i], sa, sb)
			}
			return r
		}
		if y, ok := b.(*Term); ok && y.k == KTup {
			r := &StructN{f: make([]Node, len(x.f))}
			for i := range r.f {
				r.f[i] = e.mergeNode(sel, x.f[i], y.args[i], sa, sb)
			}
			return r
		}
	case *ArrN:
		if y, ok := b.(*ArrN); ok && x.n == y.n {
			r := &ArrN{n: x.n, ch: make([][]Node, len(x.ch))}
			for i := range x.ch {
				if &x.ch[i][0] == &y.ch[i][0] {
					r.ch[i] = x.ch[i]
					continue
				}
				c := make([]Node, len(x.ch[i]))
				for j := range c {
					c[j] = e.mergeNode(sel, x.ch[i][j], y.ch[i][j], sa, sb)
				}
				r.ch[i] = c
			}
			return r
		}
		if y, ok := b.(*BytesN); ok {
			return &BytesN{e.ite(sel, e.arrStr(x, 0, x.n), y.t)}
		}
	case *ListN:
		if y, ok := b.(*ListN); ok {
			return e.mergeList(sel, x, y)
		}
	case *BytesN:
		if y, ok := b.(*BytesN); ok {
			return &BytesN{e.ite(sel, x.t, y.t)}
		}
		if y, ok := b.(*ArrN); ok {
			return &BytesN{e.ite(sel, x.t, e.arrStr(y, 0, y.n))}
		}
	case *MapN:
		if y, ok := b.(*MapN); ok && x.base == y.base {
			n := 0
			for n < len(x.ents) && n < len(y.ents) && sameEnt(x.ents[n], y.ents[n]) {
				n++
			}
			r := &MapN{base: x.base, ents: append([]MapEnt(nil), x.ents[:n]...)}
			for _, m := range x.ents[n:] {
				m.g = e.And(sel, m.g)
				r.ents = append(r.ents, m)
			}
			ns := e.Not(sel)
			for _, m := range y.ents[n:] {
				m.g = e.And(ns, m.g)
				r.ents = append(r.ents, m)
			}
			return r
		}
	}
	// one-string and atomic cells over their still zero struct
	if x, ok := a.(*Term); ok {
		if _, ok := b.(*StructN); ok {
			if x.sort == SStr {
				return e.ite(sel, x, e.Empty)
			}
			if x.sort == SBool {
				return e.ite(sel, x, e.False)
			}
		}
	}
	if y, ok := b.(*Term); ok {
		if _, ok := a.(*StructN); ok {
			if y.sort == SStr {
				return e.ite(sel, e.Empty, y)
			}
			if y.sort == SBool {
				return e.ite(sel, e.False, y)
			}
		}
	}
	e.note(fmt.Sprintf("imprecise: merge of %T and %T", a, b))
	return e.unknown("merge")
}

func sameEnt(a, b MapEnt) bool { return a.k == b.k && a.v == b.v && a.g == b.g && a.del == b.del }

func (e *Eng) mergeList(sel *Term, x, y *ListN) *ListN {
	n := 0
	r := &ListN{}
	for n < len(x.items) && n < len(y.items) && x.items[n].v == y.items[n].v {
		it := x.items[n]
		if it.g != y.items[n].g {
			it.g = e.ite(sel, it.g, y.items[n].g)
		}
		r.items = append(r.items, it)
		n++
	}
	ns := e.Not(sel)
	xs, ys := x.items[n:], y.items[n:]
	// one side is a pointwise variation (same length): merge the values, keep positions
	if len(xs) == len(ys) {
		ok := true
		for i := range xs {
			if xs[i].g != ys[i].g {
				ok = false
			}
		}
		if ok {
			for i := range xs {
				r.items = append(r.items, Item{xs[i].g, e.mergeNode(sel, xs[i].v, ys[i].v, nil, nil)})
			}
			return r
		}
	}
	// align the rest on common elements
	if len(xs) > 0 && len(ys) > 0 && len(xs)*len(ys) <= 250000 {
		L := make([][]int, len(xs)+1)
		for i := range L {
			L[i] = make([]int, len(ys)+1)
		}
		for i := len(xs) - 1; i >= 0; i-- {
			for j := len(ys) - 1; j >= 0; j-- {
				if xs[i].v == ys[j].v {
					L[i][j] = L[i+1][j+1] + 1
				} else if L[i+1][j] >= L[i][j+1] {
					L[i][j] = L[i+1][j]
				} else {
					L[i][j] = L[i][j+1]
				}
			}
		}
		if L[0][0] > 0 {
			i, j := 0, 0
			for i < len(xs) || j < len(ys) {
				var it Item
				switch {
				case i < len(xs) && j < len(ys) && xs[i].v == ys[j].v:
					it = Item{e.ite(sel, xs[i].g, ys[j].g), xs[i].v}
					i++
					j++
				case j >= len(ys) || i < len(xs) && L[i+1][j] >= L[i][j+1]:
					it = Item{e.And(sel, xs[i].g), xs[i].v}
					i++
				default:
					it = Item{e.And(ns, ys[j].g), ys[j].v}
					j++
				}
				if it.g != e.False {
					r.items = append(r.items, it)
				}
			}
			return r
		}
	}
	for _, it := range xs {
		if g := e.And(sel, it.g); g != e.False {
			r.items = append(r.items, Item{g, it.v})
		}
	}
	for _, it := range ys {
		if g := e.And(ns, it.g); g != e.False {
			r.items = append(r.items, Item{g, it.v})
		}
	}
	return r
}

// mergeVal merges two values; growing slices become one guarded list.
func (e *Eng) mergeVal(sel, a, b *Term, sa, sb *State) *Term {
	if a == b {
		return a
	}
	if a.k == KTup && b.k == KTup && len(a.args) == len(b.args) {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = e.mergeVal(sel, a.args[i], b.args[i], sa, sb)
		}
		return e.Tup(args...)
	}
	if sa != nil && sb != nil && (a.k == KSlice || b.k == KSlice) && (a.k == KSlice || a.k == KNil) && (b.k == KSlice || b.k == KNil) {
		if r := e.mergeSlices(sel, a, b, sa, sb); r != nil {
			return r
		}
	}
	return e.ite(sel, a, b)
}

func (e *Eng) isFresh(s *Term) bool {
	return s.k == KNil || e.objs[s.args[0].n].fresh
}

func (e *Eng) mergeSlices(sel, a, b *Term, sa, sb *State) *Term {
	if !e.isFresh(a) && !e.isFresh(b) {
		// empty literal vs. fresh handled; two foreign slices stay a decision
		return nil
	}
	if a.k == KNil || b.k == KNil {
		// nil-ness must stay observable only through len; treat nil as an empty list
	}
	na, ok1 := e.sliceNode(a, sa)
	nb, ok2 := e.sliceNode(b, sb)
	if !ok1 || !ok2 {
		return nil
	}
	var n Node
	switch x := na.(type) {
	case *ListN:
		switch y := nb.(type) {
		case *ListN:
			n = e.mergeList(sel, x, y)
		case *BytesN:
			s, ok := e.listStr(x)
			if !ok {
				return nil
			}
			n = &BytesN{e.ite(sel, s, y.t)}
		}
	case *BytesN:
		switch y := nb.(type) {
		case *ListN:
			s, ok := e.listStr(y)
			if !ok {
				return nil
			}
			n = &BytesN{e.ite(sel, x.t, s)}
		case *BytesN:
			n = &BytesN{e.ite(sel, x.t, y.t)}
		}
	}
	if n == nil {
		return nil
	}
	o := e.newObjN("merge", nil, n)
	o.fresh = true
	return e.Slice(e.Ptr(o.id), e.Int(0), e.LenAll)
}

// sliceNode: content of a slice value as ListN or BytesN (only the visible window).
func (e *Eng) sliceNode(s *Term, st *State) (Node, bool) {
	if s.k == KNil {
		return &ListN{}, true
	}
	if s.k != KSlice {
		return nil, false
	}
	n := e.force(e.loadLeaf(s.args[0], st))
	off, ln := s.args[1], s.args[2]
	whole := off.k == KInt && off.n == 0 && ln == e.LenAll
	switch x := n.(type) {
	case *ListN:
		if whole {
			return x, true
		}
		tot := e.listLen(x)
		if ln == e.LenAll {
			ln = e.bin("sub", tot, off)
		}
		r := &ListN{}
		if off.k == KInt && ln.k == KInt && tot.k == KInt {
			return &ListN{items: x.items[off.n : off.n+ln.n : off.n+ln.n]}, true
		}
		for i := 0; i < len(x.items); i++ {
			g := e.cmp("lt", e.Int(int64(i)), ln)
			if g == e.False {
				continue
			}
			v := e.nodeRead(x, []*Term{e.bin("add", off, e.Int(int64(i)))})
			r.items = append(r.items, Item{g, v})
		}
		return r, true
	case *ArrN:
		if off.k == KInt {
			if ln.k == KInt || ln == e.LenAll {
				m := x.n - int(off.n)
				if ln != e.LenAll {
					m = int(ln.n)
				}
				r := &ListN{items: make([]Item, m)}
				for i := range r.items {
					r.items[i] = Item{e.True, x.at(int(off.n) + i)}
				}
				return r, true
			}
		}
		r := &ListN{}
		for i := 0; i < x.n && i < 64; i++ {
			g := e.cmp("lt", e.Int(int64(i)), ln)
			if g == e.False {
				continue
			}
			r.items = append(r.items, Item{g, e.nodeRead(x, []*Term{e.bin("add", off, e.Int(int64(i)))})})
		}
		return r, true
	case *BytesN:
		if whole {
			return x, true
		}
		if ln == e.LenAll {
			return &BytesN{e.SubStr(x.t, off, nil)}, true
		}
		return &BytesN{e.SubStr(x.t, off, e.bin("add", off, ln))}, true
	}
	return nil, false
}

func (e *Eng) chr(t *Term) *Term {
	return e.app1("chr", t, func(t *Term) *Term {
		if t.k == KInt {
			return e.Str(string([]byte{byte(t.n)}))
		}
		if t.k == KOp && t.s == "charat" && t.args[1].k == KInt {
			return e.Op("substr", SStr, 0, false, t.args[0], t.args[1], e.Int(t.args[1].n+1))
		}
		return e.Op("chr", SStr, 0, false, t)
	})
}

// joinSub merges adjacent substr parts of the same base.
func (e *Eng) concatBytes(ps []*Term) *Term {
	var out []*Term
	for _, p := range ps {
		if len(out) > 0 {
			q := out[len(out)-1]
			if p.k == KOp && q.k == KOp && p.s == "substr" && q.s == "substr" && len(p.args) == 3 && len(q.args) == 3 && p.args[0] == q.args[0] && q.args[2] == p.args[1] {
				out[len(out)-1] = e.SubStr(p.args[0], q.args[1], p.args[2])
				continue
			}
		}
		out = append(out, p)
	}
	return e.Concat(out...)
}

func (e *Eng) arrStr(a *ArrN, lo, hi int) *Term {
	var ps []*Term
	for i := lo; i < hi; i++ {
		ps = append(ps, e.chr(e.nodeTerm(a.at(i))))
	}
	return e.concatBytes(ps)
}
func (e *Eng) listStr(l *ListN) (*Term, bool) {
	var ps []*Term
	for _, it := range l.items {
		t, ok := e.force(it.v).(*Term)
		if !ok || t.sort != SInt {
			return nil, false
		}
		c := e.chr(t)
		if it.g != e.True {
			c = e.ite(it.g, c, e.Empty)
		}
		ps = append(ps, c)
	}
	return e.concatBytes(ps), true
}

// bytesTerm: the content of a byte slice as a string term.
func (e *Eng) bytesTerm(s *Term, st *State) *Term {
	if s.k == KIte {
		return e.ite(e.atom(s.args[0]), e.bytesTerm(s.args[1], st), e.bytesTerm(s.args[2], st))
	}
	if s.k == KNil {
		return e.Empty
	}
	n, ok := e.sliceNode(s, st)
	if ok {
		switch x := n.(type) {
		case *BytesN:
			return x.t
		case *ListN:
			if t, ok := e.listStr(x); ok {
				return t
			}
		}
	}
	return e.Op("bytes?", SStr, 0, false, s)
}

func (e *Eng) bytesSlice(t *Term) *Term {
	o := e.newObjN("bytes", nil, &BytesN{t})
	o.fresh = true
	return e.Slice(e.Ptr(o.id), e.Int(0), e.LenAll)
}

func (e *Eng) listSlice(vs ...Node) *Term {
	l := &ListN{}
	for _, v := range vs {
		l.items = append(l.items, Item{e.True, v})
	}
	o := e.newObjN("list", nil, l)
	o.fresh = true
	return e.Slice(e.Ptr(o.id), e.Int(0), e.LenAll)
}
func (e *Eng) strSlice(ts []*Term) *Term {
	ns := make([]Node, len(ts))
	for i := range ts {
		ns[i] = ts[i]
	}
	return e.listSlice(ns...)
}

func (e *Eng) mergeState(a, b *State) (*State, *Term) {
	g := e.Or(a.g, b.g)
	sel := e.constrain(a.g, g)
	return &State{g: g, mem: e.mergeMem(sel, a, b)}, sel
}

func (e *Eng) mergeMem(sel *Term, a, b *State) *pmap {
	var rec func(x, y *pnode, l, base int) *pnode
	rec = func(x, y *pnode, l, base int) *pnode {
		if x == y {
			return x
		}
		r := &pnode{}
		for i := 0; i < 32; i++ {
			var p, q any
			if x != nil {
				p = x.c[i]
			}
			if y != nil {
				q = y.c[i]
			}
			if p == q {
				r.c[i] = p
				continue
			}
			id := base<<5 | i
			if l > 0 {
				var pp, qq *pnode
				if p != nil {
					pp = p.(*pnode)
				}
				if q != nil {
					qq = q.(*pnode)
				}
				r.c[i] = rec(pp, qq, l-1, id)
				continue
			}
			if p == nil && e.objs[id].local {
				r.c[i] = q
				continue
			}
			if q == nil && e.objs[id].local {
				r.c[i] = p
				continue
			}
			if p == nil {
				p = e.content(id, &State{mem: &pmap{}})
			}
			if q == nil {
				q = e.content(id, &State{mem: &pmap{}})
			}
			r.c[i] = e.mergeNode(sel, p, q, a, b)
		}
		return r
	}
	return &pmap{rec(a.mem.root, b.mem.root, pdepth, 0)}
}
