package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	g   *Term
	mem *pmap
}

func (s *State) copy() *State { c := *s; return &c }

type Event struct {
	kind string
	pos  token.Pos
	g    *Term
	args []*Term
	fn   *ssa.Function
	st   *State
}

type Obl struct { // a potential run-time panic
	kind string
	pos  token.Pos
	cond *Term
	fn   *ssa.Function
}

type ModelFn func(e *Eng, c *CallCtx) (*Term, bool)

type CallCtx struct {
	fr   *Frame
	fn   *ssa.Function // may be nil
	name string
	args []*Term
	st   *State
	pos  token.Pos
	sig  *types.Signature
	dead bool // set by a model when the call does not return
}

type Interp struct {
	prog         *ssa.Program
	objs         []*Obj
	events       []*Event
	obls         []*Obl
	notes        map[string]int
	tainted      string
	globals      map[*ssa.Global]int
	lazyObjs     map[string]int
	lazyHook     func(name string, t types.Type) Node
	noSpace      bool // text in symbolic lines contains no white space
	listBound    int
	elemNonNil   bool
	jsonNil      bool // elements of decoded JSON lists may be null
	loopLimit    int
	checkEndless bool
	oblN         map[string]int
	undecLimit   int
	splitBound   int
	depth        int
	fnInfo       map[*ssa.Function]*FnInfo
	inited       map[*ssa.Package]bool
	baseMem      *pmap
	models       map[string]ModelFn
	local        map[string]ModelFn // models of this scenario only
	invokeHook   func(e *Eng, c *CallCtx, recv *Term, m *types.Func) (*Term, bool)
	goHook       func(e *Eng, c *CallCtx, fnv *Term)
	selectHook   func(e *Eng, fr *Frame, in *ssa.Select, st *State) (*Term, bool)
	chanHook     func(e *Eng, kind string, ch, v *Term, st *State, pos token.Pos, typ types.Type) *Term
	callHook     func(e *Eng, c *CallCtx) (*Term, bool)
	storeHook    func(e *Eng, fr *Frame, in *ssa.Store, p, v *Term, st *State)
	noInline     map[string]bool
	stack        []*ssa.Function
	steps        int
	maxSteps     int
	unkN         int
	uniq         int
	visited      map[*ssa.Function]bool
	posTrace     []token.Pos
	world        *World
	worldErrs    map[string]*Term
	bytesMake    bool
	noListLoop   bool
	worldReady   bool
}

type FnInfo struct {
	rpo   []*ssa.BasicBlock
	idx   map[*ssa.BasicBlock]int
	loops []*Loop
	inner map[*ssa.BasicBlock]*Loop
}
type Loop struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *Loop
	live   []ssa.Value
	cond   *loopCond
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	info   *FnInfo
	defers []deferred
	rets   []retVal
	caller *Frame
	pos    token.Pos
	forced map[ssa.Value]*Term
}
type deferred struct {
	g    *Term
	call *ssa.CallCommon
	fnv  *Term
	args []*Term
	pos  token.Pos
}
type retVal struct {
	v  *Term
	st *State
}
type edge struct {
	from, to *ssa.BasicBlock
	pred     int
	st       *State
	phis     []*Term
	live     map[ssa.Value]*Term
}

func NewInterp(prog *ssa.Program) *Eng {
	e := NewEng()
	e.Interp = &Interp{prog: prog, notes: map[string]int{}, globals: map[*ssa.Global]int{}, lazyObjs: map[string]int{},
		listBound: 2, elemNonNil: true, loopLimit: 70000, undecLimit: 12, splitBound: 3, fnInfo: map[*ssa.Function]*FnInfo{}, inited: map[*ssa.Package]bool{},
		baseMem: &pmap{}, noInline: map[string]bool{}, maxSteps: 30_000_000, visited: map[*ssa.Function]bool{}}
	e.models = stdModels
	return e
}

func (e *Eng) note(s string) { e.notes[s]++ }

// taint: something without a model was met; what follows may be wrong, so that no violation is
// reported on the strength of it.
func (e *Eng) taint(what string) {
	e.note("imprecise: " + what)
	if e.tainted == "" {
		e.tainted = what
	}
	if e.world != nil {
		panic("world: no model of " + what)
	}
}
func (e *Eng) unknown(why string) *Term {
	e.unkN++
	e.note("imprecise: " + why)
	return e.Sym(fmt.Sprintf("?%d", e.unkN), SAny, 0, false)
}
func (e *Eng) unknownT(why string, t types.Type) *Term {
	e.unkN++
	e.note("imprecise: " + why)
	return e.symOf(fmt.Sprintf("?%d", e.unkN), t)
}

// symOf: an unconstrained value of a Go type named name.
func (e *Eng) symOf(name string, t types.Type) *Term {
	if tt, ok := t.(*types.Tuple); ok {
		args := make([]*Term, tt.Len())
		for i := range args {
			args[i] = e.symOf(fmt.Sprintf("%s#%d", name, i), tt.At(i).Type())
		}
		return e.Tup(args...)
	}
	return e.nodeTerm(e.expandDefault(&LazyN{t, name}))
}

// ---- obligations

func (e *Eng) oblige(kind string, pos token.Pos, fr *Frame, st *State, bad *Term) {
	if e.oblN != nil {
		e.oblN[e.posStr(pos)+": "+kind]++
	}
	if bad == e.False {
		return
	}
	c := e.And(st.g, bad)
	if c == e.False {
		return
	}
	e.obls = append(e.obls, &Obl{kind, pos, c, fr.fn})
	st.g = e.And(st.g, e.Not(bad))
}

func (e *Eng) event(kind string, pos token.Pos, fr *Frame, st *State, args ...*Term) *Event {
	ev := &Event{kind: kind, pos: pos, g: st.g, args: args}
	if fr != nil {
		ev.fn = fr.fn
	}
	e.events = append(e.events, ev)
	return ev
}

// ---- control flow

func (e *Eng) info(fn *ssa.Function) *FnInfo {
	if fi, ok := e.fnInfo[fn]; ok {
		return fi
	}
	fi := &FnInfo{idx: map[*ssa.BasicBlock]int{}, inner: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.idx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	byHead := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				l := byHead[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					byHead[s] = l
					fi.loops = append(fi.loops, l)
				}
				var mark func(x *ssa.BasicBlock)
				mark = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						if _, ok := fi.idx[p]; ok {
							mark(p)
						}
					}
				}
				mark(b)
			}
		}
	}
	for _, l := range fi.loops {
		for _, m := range fi.loops {
			if m != l && m.body[l.head] && len(m.body) > len(l.body) && (l.parent == nil || len(m.body) < len(l.parent.body)) {
				l.parent = m
			}
		}
		for b := range l.body {
			if cur := fi.inner[b]; cur == nil || len(l.body) < len(cur.body) {
				fi.inner[b] = l
			}
		}
		for b := range l.body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if !l.body[r.Block()] {
						l.live = append(l.live, v)
						break
					}
				}
			}
		}
		sort.Slice(l.live, func(i, j int) bool {
			a, b := l.live[i], l.live[j]
			if a.Parent() == b.Parent() {
				return a.Name() < b.Name()
			}
			return false
		})
	}
	e.fnInfo[fn] = fi
	return fi
}

type abortT struct{ why string }

// callFn analyses fn with the given arguments in state st (consumed). ret nil / out nil: never returns.
func (e *Eng) callFn(fn *ssa.Function, args, binds []*Term, st *State, caller *Frame, pos token.Pos) (*Term, *State) {
	if len(fn.Blocks) == 0 {
		panic("callFn: no body " + fn.String())
	}
	rec := 0
	for _, f := range e.stack {
		if f == fn {
			rec++
		}
	}
	if rec > 10 || len(e.stack) > 80 {
		e.note("recursion limit in " + fn.String())
		return e.unknownT("recursion "+fn.String(), fn.Signature.Results()), st
	}
	e.visited[fn] = true
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, info: e.info(fn), caller: caller, pos: pos}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			fr.env[fv] = binds[i]
		}
	}
	entry := &edge{to: fn.Blocks[0], st: st, pred: -1}
	e.runRegion(fr, nil, []*edge{entry})
	if len(fr.rets) == 0 {
		return nil, nil
	}
	out := fr.rets[0].st
	v := fr.rets[0].v
	for _, r := range fr.rets[1:] {
		n, sel := e.mergeState(out, r.st)
		if v != nil && r.v != nil {
			v = e.mergeVal(sel, v, r.v, out, r.st)
		}
		out = n
	}
	return v, out
}

// runRegion processes the blocks whose innermost loop is L (L==nil: function level).
// Returns back edges to L.head and edges leaving L.
func (e *Eng) runRegion(fr *Frame, L *Loop, in []*edge) (backs, exits []*edge) {
	pending := map[*ssa.BasicBlock][]*edge{}
	for _, ed := range in {
		pending[ed.to] = append(pending[ed.to], ed)
	}
	route := func(ed *edge) {
		if L != nil && ed.to == L.head {
			backs = append(backs, ed)
			return
		}
		if L != nil && !L.body[ed.to] {
			// capture live-out registers
			if ed.live == nil {
				ed.live = map[ssa.Value]*Term{}
			}
			for _, v := range L.live {
				if _, ok := ed.live[v]; !ok {
					if t, ok := fr.env[v]; ok {
						ed.live[v] = t
					}
				}
			}
			exits = append(exits, ed)
			return
		}
		pending[ed.to] = append(pending[ed.to], ed)
	}
	for _, b := range fr.info.rpo {
		if L != nil && !L.body[b] {
			continue
		}
		eds := pending[b]
		if len(eds) == 0 {
			continue
		}
		inner := fr.info.inner[b]
		if inner != L {
			// b must be the head of a child loop
			child := inner
			for child != nil && child.parent != L {
				child = child.parent
			}
			if child == nil || child.head != b {
				continue
			}
			delete(pending, b)
			for _, ed := range e.runLoop(fr, child, eds) {
				route(ed)
			}
			continue
		}
		delete(pending, b)
		st := e.enter(fr, b, eds)
		if st == nil || st.g == e.False {
			continue
		}
		for _, ed := range e.runBlock(fr, b, st) {
			route(ed)
		}
	}
	return
}

func (e *Eng) enter(fr *Frame, b *ssa.BasicBlock, eds []*edge) *State {
	var st *State
	var phis []*Term
	for _, ed := range eds {
		if ed.st.g == e.False {
			continue
		}
		if st == nil {
			st = ed.st
			phis = ed.phis
			continue
		}
		n, sel := e.mergeState(st, ed.st)
		np := make([]*Term, len(phis))
		for i := range phis {
			np[i] = e.mergeVal(sel, phis[i], ed.phis[i], st, ed.st)
		}
		phis = np
		st = n
	}
	if st == nil {
		return nil
	}
	k := 0
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if k < len(phis) {
			fr.env[p] = phis[k]
		}
		k++
	}
	return st
}

func (e *Eng) runLoop(fr *Frame, L *Loop, in []*edge) []*edge {
	var exits []*edge
	if xs, ok := e.listLoop(fr, L, in); ok {
		return e.mergeLive(fr, xs)
	}
	undec := 0
	var prev *Term
	for iter := 0; ; iter++ {
		g := e.False
		for _, ed := range in {
			g = e.Or(g, ed.st.g)
		}
		if g == e.False {
			break
		}
		if iter > 0 && len(exits) > 0 && prev != nil && g != prev {
			undec++ // guard got smaller: the exit was undecided
		}
		prev = g
		if iter >= e.loopLimit || undec > e.undecLimit {
			e.note(fmt.Sprintf("loop bound reached in %s at %s", fr.fn.String(), e.posStr(blockPos(L.head))))
			break
		}
		backs, exs := e.runRegion2(fr, L, in)
		exits = append(exits, exs...)
		if e.checkEndless {
			e.endless(fr, L, backs)
		}
		in = backs
	}
	return e.mergeLive(fr, exits)
}

func (e *Eng) mergeLive(fr *Frame, exits []*edge) []*edge {
	vals := map[ssa.Value]bool{}
	for _, ed := range exits {
		for v := range ed.live {
			vals[v] = true
		}
	}
	if len(exits) > 1 {
		for v := range vals {
			var acc *Term
			var accSt *State
			for _, ed := range exits {
				t, ok := ed.live[v]
				if !ok || ed.st.g == e.False {
					continue
				}
				if acc == nil {
					acc, accSt = t, ed.st
					continue
				}
				if acc == t {
					accSt = &State{g: e.Or(accSt.g, ed.st.g), mem: accSt.mem}
					continue
				}
				g := e.Or(accSt.g, ed.st.g)
				sel := e.constrain(accSt.g, g)
				acc = e.mergeVal(sel, acc, t, accSt, ed.st)
				accSt = &State{g: g, mem: ed.st.mem}
			}
			if acc != nil {
				fr.env[v] = acc
			}
		}
	} else if len(exits) == 1 {
		for v, t := range exits[0].live {
			fr.env[v] = t
		}
	}
	for _, ed := range exits {
		ed.live = nil
	}
	return exits
}

// runRegion2 runs one iteration of loop L: the head merges the incoming edges.
func (e *Eng) runRegion2(fr *Frame, L *Loop, in []*edge) (backs, exits []*edge) {
	return e.runRegion(fr, L, in)
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func (e *Eng) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := e.prog.Fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, "/repo/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (e *Eng) mkEdge(fr *Frame, from, to *ssa.BasicBlock, st *State) *edge {
	ed := &edge{from: from, to: to, st: st, pred: -1}
	for i, p := range to.Preds {
		if p == from {
			ed.pred = i
			break
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ed.phis = append(ed.phis, e.val(fr, p.Edges[ed.pred]))
	}
	return ed
}

func (e *Eng) runBlock(fr *Frame, b *ssa.BasicBlock, st *State) []*edge {
	for _, in := range b.Instrs {
		e.steps++
		if e.steps > e.maxSteps {
			panic(abortT{"step limit"})
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := e.constrain(e.val(fr, x.Cond), st.g)
			c = e.boolOf(c)
			gt := e.And(st.g, c)
			gf := e.And(st.g, e.Not(c))
			if e.world != nil && gt != e.False && gf != e.False {
				if e.world.choose(2, "branch "+e.posStr(x.Cond.Pos())) == 0 {
					gf = e.False
				} else {
					gt = e.False
				}
			}
			var out []*edge
			if gt != e.False {
				out = append(out, e.mkEdge(fr, b, b.Succs[0], &State{gt, st.mem}))
			}
			if gf != e.False {
				s2 := &State{gf, st.mem}
				ed := e.mkEdge(fr, b, b.Succs[1], s2)
				if b.Succs[0] == b.Succs[1] {
					ed.pred = 1
				}
				out = append(out, ed)
			}
			return out
		case *ssa.Jump:
			return []*edge{e.mkEdge(fr, b, b.Succs[0], st)}
		case *ssa.Return:
			var v *Term
			if len(x.Results) == 1 {
				v = e.val(fr, x.Results[0])
			} else if len(x.Results) > 1 {
				ts := make([]*Term, len(x.Results))
				for i := range ts {
					ts[i] = e.val(fr, x.Results[i])
				}
				v = e.Tup(ts...)
			}
			fr.rets = append(fr.rets, retVal{v, st})
			return nil
		case *ssa.Panic:
			e.obls = append(e.obls, &Obl{"panic", x.Pos(), st.g, fr.fn})
			return nil
		default:
			if !e.instr(fr, in, st) {
				return nil
			}
			if st.g == e.False {
				return nil
			}
		}
	}
	return nil
}

func (e *Eng) boolOf(c *Term) *Term {
	if c.sort == SBool && (c.k == KBool || c.k == KIte) {
		return c
	}
	if c.k == KIte {
		return e.app1("boolof", c, func(l *Term) *Term {
			if l.k == KBool {
				return l
			}
			return e.atom(l)
		})
	}
	return e.atom(c)
}

// val evaluates an operand.
func (e *Eng) val(fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constT(x.Value, x.Type())
	case *ssa.Global:
		return e.Ptr(e.globalObj(x))
	case *ssa.Function:
		return e.mk(&Term{k: KFunc, s: x.String(), x: x})
	case *ssa.Builtin:
		return e.mk(&Term{k: KFunc, s: "builtin:" + x.Name()})
	}
	t, ok := fr.env[v]
	if !ok {
		return e.unknownT("unset register "+v.Name()+" in "+fr.fn.String(), v.Type())
	}
	return t
}

func (e *Eng) constT(c constant.Value, t types.Type) *Term {
	if c == nil {
		return e.zeroT(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok { // type parameter etc.
		switch c.Kind() {
		case constant.Int:
			v, _ := constant.Int64Val(c)
			return e.Int(v)
		case constant.String:
			return e.Str(constant.StringVal(c))
		case constant.Bool:
			return e.Bool(constant.BoolVal(c))
		}
		return e.unknown("constant")
	}
	if w, s, ok := intType(b); ok {
		c = constant.ToInt(c)
		if v, exact := constant.Int64Val(c); exact {
			return e.IntT(v, w, s)
		}
		u, _ := constant.Uint64Val(c)
		return e.IntT(int64(u), w, s)
	}
	switch {
	case b.Info()&types.IsString != 0:
		return e.Str(constant.StringVal(c))
	case b.Info()&types.IsBoolean != 0:
		return e.Bool(constant.BoolVal(c))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return e.Float(f)
	}
	return e.Nil
}

func (e *Eng) globalObj(g *ssa.Global) int {
	id, ok := e.globals[g]
	if !ok {
		elem := g.Type().Underlying().(*types.Pointer).Elem()
		var o *Obj
		if e.inited[g.Pkg] {
			o = e.newObj("global "+g.String(), elem, func() Node { return e.zero(elem) })
		} else {
			o = e.newObj("global "+g.String(), elem, func() Node { return e.expand(&LazyN{elem, "global:" + g.String()}) })
		}
		o.x = g
		id = o.id
		e.globals[g] = id
	}
	return id
}

// InitPkg runs the package initialiser of pkg (not of its imports) to obtain the values of its globals.
func (e *Eng) InitPkg(pkg *ssa.Package) {
	if pkg == nil || e.inited[pkg] {
		return
	}
	e.inited[pkg] = true
	fn := pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	// zero all globals
	st := &State{g: e.True, mem: e.baseMem}
	saveE, saveO := e.events, e.obls
	old := e.noInline
	e.noInline = map[string]bool{}
	_, out := e.callFn(fn, nil, nil, st, nil, 0)
	e.noInline = old
	e.events, e.obls = saveE, saveO
	if out != nil {
		e.baseMem = out.mem
	}
}

func (e *Eng) NewState() *State { return &State{g: e.True, mem: e.baseMem} }

// ---- instructions

var binNames = map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "quo", token.REM: "rem",
	token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot", token.SHL: "shl", token.SHR: "shr"}
var cmpNames = map[token.Token]string{token.EQL: "eq", token.NEQ: "ne", token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge"}

func (e *Eng) binop(fr *Frame, x *ssa.BinOp, st *State) *Term {
	a, b := e.constrain(e.val(fr, x.X), st.g), e.constrain(e.val(fr, x.Y), st.g)
	if n, ok := cmpNames[x.Op]; ok {
		if n == "eq" || n == "ne" {
			// slice / map / func against nil
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				if a == e.Nil {
					a = b
				}
				r := e.sliceNil(a, st)
				if n == "ne" {
					r = e.Not(r)
				}
				return r
			}
		}
		return e.cmp(n, a, b)
	}
	n := binNames[x.Op]
	if a.sort == SBool && b.sort == SBool {
		switch n {
		case "and":
			return e.And(a, b)
		case "or":
			return e.Or(a, b)
		case "xor":
			return e.ite(a, e.Not(b), b)
		}
	}
	if (n == "quo" || n == "rem") && b.sort == SInt {
		z := e.cmp("eq", b, e.IntT(0, b.w, b.sgn))
		e.oblige("divide by zero", x.Pos(), fr, st, z)
		b = e.constrain(b, st.g)
	}
	if n == "shl" || n == "shr" {
		if b.w != 64 || !b.sgn {
			b = e.conv(b, 64, true)
		}
	}
	return e.bin(n, a, b)
}

func (e *Eng) sliceNil(a *Term, st *State) *Term {
	return e.app1S(a, func(l *Term) *Term {
		if l == e.Nil {
			return e.True
		}
		if l.k == KSlice {
			o := e.objs[l.args[0].n]
			if o.lazy || o.name == "merge" {
				return e.cmp("eq", e.sliceLen(l, st), e.Int(0))
			}
			return e.False
		}
		return e.refEq(l, e.Nil)
	})
}

// app1S: like app1 without memoisation (depends on the state).
func (e *Eng) app1S(t *Term, f func(*Term) *Term) *Term {
	if t.k != KIte {
		return f(t)
	}
	return e.ite(e.atom(t.args[0]), e.app1S(t.args[1], f), e.app1S(t.args[2], f))
}

func (e *Eng) sliceLen(s *Term, st *State) *Term {
	return e.app1S(s, func(l *Term) *Term {
		switch l.k {
		case KNil:
			return e.Int(0)
		case KSlice:
			if l.args[2] != e.LenAll {
				return l.args[2]
			}
			n := e.force(e.loadLeaf(l.args[0], st))
			var t *Term
			switch x := n.(type) {
			case *ListN:
				t = e.listLen(x)
			case *BytesN:
				t = e.StrLen(x.t)
			case *ArrN:
				t = e.Int(int64(x.n))
			default:
				return e.unknownT("length", types.Typ[types.Int])
			}
			return e.bin("sub", t, l.args[1])
		case KStr:
			return e.StrLen(l)
		}
		if l.sort == SStr {
			return e.StrLen(l)
		}
		return e.Op("len", SInt, 64, true, l)
	})
}

// load through a possibly gated pointer.
func (e *Eng) load(fr *Frame, p *Term, st *State, pos token.Pos, typ types.Type) *Term {
	p = e.constrain(p, st.g)
	bad := e.leafCond("isnil?", p, func(l *Term) bool { return l == e.Nil })
	if bad != e.False {
		e.oblige("nil dereference", pos, fr, st, bad)
		if st.g == e.False {
			return e.zeroT(typ)
		}
		p = e.constrain(p, st.g)
	}
	var acc Node
	var accG *Term
	for _, gl := range e.leaves(p, st.g) {
		var n Node
		if gl.v.k == KPtr {
			if e.world != nil {
				e.world.accPtr(gl.v, false, pos)
			}
			n = e.force(e.loadLeaf(gl.v, st))
		} else if gl.v == e.Nil {
			continue
		} else {
			// opaque pointer
			op := gl.v
			name := "*" + e.name(op)
			e.note("load through opaque pointer " + e.show(op))
			n = e.symOf(name, typ)
		}
		if acc == nil {
			acc, accG = n, gl.g
			continue
		}
		g := e.Or(accG, gl.g)
		acc = e.mergeNode(e.constrain(accG, g), acc, n, st, st)
		accG = g
	}
	if acc == nil {
		return e.zeroT(typ)
	}
	var t *Term
	switch x := acc.(type) {
	case *Term:
		t = x
	case *StructN, *ArrN, *LazyN:
		t = e.nodeTerm(acc)
	default:
		t = e.unknownT(fmt.Sprintf("load of %T", acc), typ)
	}
	return e.constrain(t, st.g)
}

func (e *Eng) name(t *Term) string {
	if t.k == KSym {
		return t.s
	}
	return fmt.Sprintf("t%d", t.id)
}

func (e *Eng) store(fr *Frame, p, v *Term, st *State, pos token.Pos, typ types.Type) {
	p = e.constrain(p, st.g)
	bad := e.leafCond("isnil?", p, func(l *Term) bool { return l == e.Nil })
	if bad != e.False {
		e.oblige("nil dereference", pos, fr, st, bad)
		if st.g == e.False {
			return
		}
		p = e.constrain(p, st.g)
	}
	ls := e.leaves(p, st.g)
	for _, gl := range ls {
		if gl.v.k != KPtr {
			e.note("store through opaque pointer " + e.show(gl.v))
			continue
		}
		if e.world != nil {
			e.world.accPtr(gl.v, true, pos)
		}
		c := e.True
		if len(ls) > 1 {
			c = e.constrain(gl.g, st.g)
		}
		e.storeLeaf(gl.v, e.termNode(v, typ), st, c)
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Eng) instr(fr *Frame, in ssa.Instruction, st *State) bool {
	switch x := in.(type) {
	case *ssa.Alloc:
		typ := deref(x.Type())
		o := e.newObj(fmt.Sprintf("%s@%s", types.TypeString(typ, nil), e.posStr(x.Pos())), typ, nil)
		o.local = true
		z := e.zero(typ)
		o.cache = z
		st.mem = st.mem.set(o.id, z)
		fr.env[x] = e.Ptr(o.id)
	case *ssa.BinOp:
		if t, ok := fr.forced[x]; ok {
			fr.env[x] = t
			break
		}
		fr.env[x] = e.binop(fr, x, st)
	case *ssa.UnOp:
		v := e.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			fr.env[x] = e.load(fr, v, st, x.Pos(), x.Type())
		case token.NOT:
			fr.env[x] = e.Not(e.boolOf(v))
		case token.SUB:
			if v.sort == SFloat {
				fr.env[x] = e.app1("fneg", v, func(v *Term) *Term {
					if v.k == KFloat {
						return e.Float(-v.f)
					}
					return e.floatBin("mul", e.Float(-1), v)
				})
			} else {
				fr.env[x] = e.bin("sub", e.IntT(0, v.w, v.sgn), v)
			}
		case token.XOR:
			fr.env[x] = e.bin("xor", v, e.IntT(-1, v.w, v.sgn))
		case token.ARROW:
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			if e.chanHook != nil {
				var rt types.Type = et
				if x.CommaOk {
					rt = x.Type()
				}
				r := e.chanHook(e, "recv", v, nil, st, x.Pos(), rt)
				fr.env[x] = r
				return st.g != e.False
			}
			e.note("channel receive at " + e.posStr(x.Pos()))
			fr.env[x] = e.unknownT("channel receive", x.Type())
		}
	case *ssa.Call:
		r, ok := e.doCall(fr, &x.Call, st, x.Pos(), x.Type())
		if !ok {
			return false
		}
		if r != nil {
			fr.env[x] = r
		}
	case *ssa.Go:
		fnv, args, c := e.prepCall(fr, &x.Call, st, x.Pos())
		if c != nil {
			c.args = args
			if e.goHook != nil {
				e.goHook(e, c, fnv)
			} else {
				e.event("go", x.Pos(), fr, st, fnv)
			}
		}
	case *ssa.Defer:
		fnv, args, _ := e.prepCall(fr, &x.Call, st, x.Pos())
		fr.defers = append(fr.defers, deferred{st.g, &x.Call, fnv, args, x.Pos()})
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			c := e.And(st.g, d.g)
			if c == e.False {
				continue
			}
			c = e.constrain(d.g, st.g)
			if c == e.True {
				e.invoke(fr, d.call, d.fnv, d.args, st, d.pos, nil)
				continue
			}
			a := &State{e.And(st.g, d.g), st.mem}
			b := &State{e.And(st.g, e.Not(d.g)), st.mem}
			if e.world != nil {
				panic("world: conditional defer")
			}
			e.invoke(fr, d.call, d.fnv, d.args, a, d.pos, nil)
			if a.g == e.False {
				*st = *b
			} else if b.g == e.False {
				*st = *a
			} else {
				n, _ := e.mergeState(a, b)
				*st = *n
			}
		}
	case *ssa.ChangeType:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.Convert:
		fr.env[x] = e.convert(fr, e.val(fr, x.X), x.X.Type(), x.Type(), st)
	case *ssa.MultiConvert:
		fr.env[x] = e.convert(fr, e.val(fr, x.X), x.X.Type(), x.Type(), st)
	case *ssa.MakeInterface:
		v := e.val(fr, x.X)
		fr.env[x] = e.app1S(v, func(l *Term) *Term { return e.Iface(x.X.Type(), l) })
		if v.sort == SBool || v.sort == SInt || v.sort == SStr {
			fr.env[x] = e.Iface(x.X.Type(), v)
		}
	case *ssa.TypeAssert:
		v := e.constrain(e.val(fr, x.X), st.g)
		val := e.app1S(v, func(l *Term) *Term { t, _ := e.assertLeaf(l, x.AssertedType); return t })
		ok := e.app1S(v, func(l *Term) *Term { _, o := e.assertLeaf(l, x.AssertedType); return o })
		if x.CommaOk {
			fr.env[x] = e.Tup(val, ok)
		} else {
			e.oblige("type assertion", x.Pos(), fr, st, e.Not(ok))
			fr.env[x] = e.constrain(val, st.g)
		}
	case *ssa.Extract:
		t := e.val(fr, x.Tuple)
		if t.k == KTup && x.Index < len(t.args) {
			fr.env[x] = t.args[x.Index]
		} else {
			fr.env[x] = e.app1S(t, func(l *Term) *Term {
				if l.k == KTup && x.Index < len(l.args) {
					return l.args[x.Index]
				}
				return e.unknownT("extract", x.Type())
			})
		}
	case *ssa.Field:
		t := e.val(fr, x.X)
		fr.env[x] = e.app1S(t, func(l *Term) *Term {
			if l.k == KTup && x.Field < len(l.args) {
				return l.args[x.Field]
			}
			return e.unknownT("field of "+e.show(l), x.Type())
		})
	case *ssa.FieldAddr:
		p := e.constrain(e.val(fr, x.X), st.g)
		bad := e.leafCond("isnil?", p, func(l *Term) bool { return l == e.Nil })
		if bad != e.False {
			e.oblige("nil dereference", x.Pos(), fr, st, bad)
			if st.g == e.False {
				return false
			}
			p = e.constrain(p, st.g)
		}
		fr.env[x] = e.app1S(p, func(l *Term) *Term {
			if l.k == KPtr {
				return e.Ptr(int(l.n), append(append([]*Term{}, l.args...), e.Int(int64(x.Field)))...)
			}
			if l == e.Nil {
				return e.Nil
			}
			// opaque pointer: its pointee becomes a lazily created object
			q := e.lazyPtr("*"+e.name(l), deref(x.X.Type()))
			return e.Ptr(int(q.n), e.Int(int64(x.Field)))
		})
	case *ssa.Index:
		v := e.constrain(e.val(fr, x.X), st.g)
		i := e.constrain(e.val(fr, x.Index), st.g)
		if v.sort == SStr || isStringType(x.X.Type()) {
			e.boundsCheck(fr, st, x.Pos(), i, e.StrLen(v))
			fr.env[x] = e.CharAt(e.constrain(v, st.g), e.constrain(i, st.g))
			break
		}
		if v.k == KTup {
			e.boundsCheck(fr, st, x.Pos(), i, e.Int(int64(len(v.args))))
			i = e.constrain(i, st.g)
			n := newArr(len(v.args), func(k int) Node { return v.args[k] })
			r := e.nodeRead(n, []*Term{e.conv(i, 64, true)})
			if t, ok := r.(*Term); ok {
				fr.env[x] = t
			} else {
				fr.env[x] = e.nodeTerm(r)
			}
			break
		}
		fr.env[x] = e.unknownT("index", x.Type())
	case *ssa.IndexAddr:
		s := e.constrain(e.val(fr, x.X), st.g)
		i := e.constrain(e.conv(e.val(fr, x.Index), 64, true), st.g)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			arr := deref(x.X.Type()).Underlying().(*types.Array)
			e.boundsCheck(fr, st, x.Pos(), i, e.Int(arr.Len()))
			i = e.constrain(i, st.g)
			fr.env[x] = e.app1S(s, func(l *Term) *Term {
				if l.k == KPtr {
					return e.Ptr(int(l.n), append(append([]*Term{}, l.args...), i)...)
				}
				return l
			})
			break
		}
		inList := false
		if s.k == KSlice && s.args[2] == e.LenAll && s.args[1] == e.Int(0) {
			if l, ok := e.force(e.loadLeaf(s.args[0], st)).(*ListN); ok {
				if k := e.atRank(l, i); k >= 0 && e.And(st.g, e.Not(l.items[k].g)) == e.False {
					inList = true
				}
			}
		}
		if !inList {
			e.boundsCheck(fr, st, x.Pos(), i, e.sliceLen(s, st))
		}
		if st.g == e.False {
			return false
		}
		s, i = e.constrain(s, st.g), e.constrain(i, st.g)
		fr.env[x] = e.app1S(s, func(l *Term) *Term {
			if l.k == KSlice {
				p := l.args[0]
				return e.Ptr(int(p.n), append(append([]*Term{}, p.args...), e.bin("add", l.args[1], i))...)
			}
			if l == e.Nil {
				return e.Nil
			}
			e.note("element of opaque slice " + e.show(l))
			q := e.lazyPtr(fmt.Sprintf("%s[%d]", e.name(l), i.id), deref(x.Type()))
			return q
		})
	case *ssa.Lookup:
		m := e.constrain(e.val(fr, x.X), st.g)
		k := e.constrain(e.val(fr, x.Index), st.g)
		if isStringType(x.X.Type()) {
			e.boundsCheck(fr, st, x.Pos(), k, e.StrLen(m))
			fr.env[x] = e.CharAt(e.constrain(m, st.g), e.constrain(e.conv(k, 64, true), st.g))
			break
		}
		mt := x.X.Type().Underlying().(*types.Map)
		e.worldMap(m, false, x.Pos())
		v, ok := e.mapGet(m, k, st, mt)
		if x.CommaOk {
			fr.env[x] = e.Tup(v, ok)
		} else {
			fr.env[x] = v
		}
	case *ssa.MakeSlice:
		ln := e.constrain(e.val(fr, x.Len), st.g)
		ln = e.conv(ln, 64, true)
		et := x.Type().Underlying().(*types.Slice).Elem()
		e.oblige("makeslice: len out of range", x.Pos(), fr, st, e.cmp("lt", ln, e.Int(0)))
		ln = e.constrain(ln, st.g)
		e.event("makeslice", x.Pos(), fr, st, ln)
		if e.world != nil && isByte(et) && ln.k == KInt && ln.n > 0 {
			if ln.n > e.world.maxAll {
				e.world.maxAll = ln.n
			}
			if ln.n <= 1<<21 {
				o := e.newObjN("make", nil, &BytesN{e.Str(strings.Repeat("\x00", int(ln.n)))})
				st.mem = st.mem.set(o.id, o.cache)
				fr.env[x] = e.Slice(e.Ptr(o.id), e.Int(0), ln)
				break
			}
		}
		if cp := e.constrain(e.val(fr, x.Cap), st.g); isByte(et) && ln.k == KInt && cp.k == KInt && ln.n == 0 && cp.n > 0 && cp.n <= 1<<16 {
			o := e.newObjN("make", nil, &BytesN{e.Str(strings.Repeat("\x00", int(cp.n)))})
			o.local = true
			st.mem = st.mem.set(o.id, o.cache)
			fr.env[x] = e.Slice(e.Ptr(o.id), e.Int(0), e.Int(ln.n))
			break
		}
		fr.env[x] = e.app1S(ln, func(l *Term) *Term { return e.makeSlice(l, et, st) })
	case *ssa.MakeMap:
		o := e.newObjN("map@"+e.posStr(x.Pos()), x.Type(), &MapN{})
		o.local = true
		st.mem = st.mem.set(o.id, o.cache)
		fr.env[x] = e.mk(&Term{k: KMap, n: int64(o.id)})
	case *ssa.MakeChan:
		o := e.newObjN("chan@"+e.posStr(x.Pos()), x.Type(), &ExtN{x})
		fr.env[x] = e.mk(&Term{k: KChan, n: int64(o.id)})
		if e.world != nil {
			e.world.chans[fr.env[x]] = &WChan{name: o.name, term: fr.env[x], cap: int(e.val(fr, x.Size).n), typ: x.Type()}
		}
		e.event("makechan", x.Pos(), fr, st, fr.env[x], e.val(fr, x.Size))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		args := make([]*Term, len(x.Bindings))
		for i := range args {
			args[i] = e.val(fr, x.Bindings[i])
		}
		fr.env[x] = e.mk(&Term{k: KFunc, s: fn.String(), x: fn, args: args})
	case *ssa.MapUpdate:
		m := e.constrain(e.val(fr, x.Map), st.g)
		bad := e.leafCond("isnil?", m, func(l *Term) bool { return l == e.Nil })
		e.oblige("assignment to entry in nil map", x.Pos(), fr, st, bad)
		m = e.constrain(m, st.g)
		mt := x.Map.Type().Underlying().(*types.Map)
		e.worldMap(m, true, x.Pos())
		e.event("mapupdate", x.Pos(), fr, st, m, e.val(fr, x.Key), e.val(fr, x.Value))
		e.mapPut(m, e.val(fr, x.Key), e.termNode(e.val(fr, x.Value), mt.Elem()), st, false)
	case *ssa.Range:
		v := e.constrain(e.val(fr, x.X), st.g)
		o := e.newObjN("iter", nil, e.Int(0))
		o.local = true
		st.mem = st.mem.set(o.id, e.Int(0))
		o.x = x
		it := e.mk(&Term{k: KOp, s: "iter", n: int64(o.id), args: []*Term{v}})
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			e.worldMap(v, false, x.Pos())
			l := e.mapItems(v, st, mt)
			e.event("maprange", x.Pos(), fr, st, v)
			lo := e.newObjN("mapiter", nil, l)
			it = e.mk(&Term{k: KOp, s: "iter", n: int64(o.id), args: []*Term{v, e.Ptr(lo.id)}})
		}
		fr.env[x] = it
	case *ssa.Next:
		e.next(fr, x, st)
	case *ssa.Select:
		if e.selectHook != nil {
			if r, ok := e.selectHook(e, fr, x, st); ok {
				if r == nil || st.g == e.False {
					return false
				}
				fr.env[x] = r
				return true
			}
		}
		fr.env[x] = e.unknownT("select", x.Type())
	case *ssa.Send:
		ch := e.val(fr, x.Chan)
		v := e.val(fr, x.X)
		if e.chanHook != nil {
			e.chanHook(e, "send", ch, v, st, x.Pos(), x.X.Type())
			return st.g != e.False
		}
		e.event("send", x.Pos(), fr, st, ch, v)
	case *ssa.Slice:
		e.sliceInstr(fr, x, st)
	case *ssa.SliceToArrayPointer:
		s := e.val(fr, x.X)
		if s.k == KSlice && s.args[1].k == KInt && s.args[1].n == 0 {
			fr.env[x] = s.args[0]
		} else {
			fr.env[x] = e.unknownT("slice to array pointer", x.Type())
		}
	case *ssa.Store:
		p, v := e.val(fr, x.Addr), e.val(fr, x.Val)
		if e.storeHook != nil {
			e.storeHook(e, fr, x, e.constrain(p, st.g), v, st)
		}
		e.store(fr, p, v, st, x.Pos(), x.Val.Type())
	default:
		e.taint(fmt.Sprintf("unsupported instruction %T", in))
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = e.unknownT("instruction", v.Type())
		}
	}
	return st.g != e.False
}

// intDiv: truncating float64(x)/c (or its ceiling or floor) for an integer 0 <= x < 2^40 and a
// constant 0 < c < 2^12 is exact integer division.
func (e *Eng) intDiv(v *Term) *Term {
	up := false
	if v.k == KOp && (v.s == "math.Ceil" || v.s == "math.Floor") {
		up = v.s == "math.Ceil"
		v = v.args[0]
	}
	if v.k != KOp || v.s != "fquo" || v.args[1].k != KFloat || v.args[0].k != KOp || v.args[0].s != "i2f" {
		return nil
	}
	x, c := v.args[0].args[0], v.args[1].f
	lo, hi := e.rng(x)
	if lo < 0 || hi >= 1<<40 || c != math.Trunc(c) || c <= 0 || c >= 1<<12 {
		return nil
	}
	x = e.conv(x, 64, true)
	if up {
		x = e.bin("add", x, e.Int(int64(c)-1))
	}
	return e.bin("quo", x, e.Int(int64(c)))
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Eng) boundsCheck(fr *Frame, st *State, pos token.Pos, i, ln *Term) {
	i = e.conv(i, 64, true)
	bad := e.Or(e.cmp("lt", i, e.Int(0)), e.Not(e.cmp("lt", i, ln)))
	e.oblige("index out of range", pos, fr, st, bad)
}

func (e *Eng) makeSlice(ln *Term, et types.Type, st *State) *Term {
	z := e.zero(et)
	if ln.k == KInt && ln.n >= 0 && ln.n < 1<<21 {
		o := e.newObjN("make", nil, newArrConst(int(ln.n), z))
		o.local = true
		st.mem = st.mem.set(o.id, o.cache)
		if ln.n == 0 {
			o.cache = &ListN{}
			o.fresh = true
			o.local = false
			st.mem = st.mem.set(o.id, o.cache)
			return e.Slice(e.Ptr(o.id), e.Int(0), e.LenAll)
		}
		return e.Slice(e.Ptr(o.id), e.Int(0), ln)
	}
	if isByte(et) {
		t := e.Op("zeros", SStr, 0, false, ln)
		o := e.newObjN("make", nil, &BytesN{t})
		return e.Slice(e.Ptr(o.id), e.Int(0), ln)
	}
	// bounded list with symbolic length
	l := &ListN{}
	_, hi := e.rng(ln)
	for i := int64(0); i < hi && i < int64(e.undecLimit); i++ {
		l.items = append(l.items, Item{e.cmp("lt", e.Int(i), ln), z})
	}
	if hi > int64(e.undecLimit) {
		e.note("make with unbounded symbolic length")
	}
	o := e.newObjN("make", nil, l)
	o.local = true
	st.mem = st.mem.set(o.id, l)
	return e.Slice(e.Ptr(o.id), e.Int(0), e.LenAll)
}

func (e *Eng) sliceInstr(fr *Frame, x *ssa.Slice, st *State) {
	v := e.constrain(e.val(fr, x.X), st.g)
	var lo, hi *Term
	if x.Low != nil {
		lo = e.constrain(e.conv(e.val(fr, x.Low), 64, true), st.g)
	}
	if x.High != nil {
		hi = e.constrain(e.conv(e.val(fr, x.High), 64, true), st.g)
	}
	if isStringType(x.X.Type()) {
		ln := e.StrLen(v)
		l0 := lo
		if l0 == nil {
			l0 = e.Int(0)
		}
		h0 := hi
		if h0 == nil {
			h0 = ln
		}
		bad := e.Or(e.cmp("lt", l0, e.Int(0)), e.Or(e.cmp("lt", h0, l0), e.cmp("lt", ln, h0)))
		e.oblige("slice bounds out of range", x.Pos(), fr, st, bad)
		if st.g == e.False {
			return
		}
		c := func(t *Term) *Term {
			if t == nil {
				return nil
			}
			return e.constrain(t, st.g)
		}
		fr.env[x] = e.SubStr(c(v), c(l0), c(hi))
		return
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok { // pointer to array
		n := pt.Elem().Underlying().(*types.Array).Len()
		l0, h0 := lo, hi
		if l0 == nil {
			l0 = e.Int(0)
		}
		if h0 == nil {
			h0 = e.Int(n)
		}
		bad := e.Or(e.cmp("lt", l0, e.Int(0)), e.Or(e.cmp("lt", h0, l0), e.cmp("lt", e.Int(n), h0)))
		e.oblige("slice bounds out of range", x.Pos(), fr, st, bad)
		fr.env[x] = e.app1S(v, func(l *Term) *Term {
			if l.k == KPtr {
				return e.Slice(l, l0, e.bin("sub", h0, l0))
			}
			return e.unknownT("slice", x.Type())
		})
		return
	}
	ln := e.sliceLen(v, st)
	l0, h0 := lo, hi
	if l0 == nil {
		l0 = e.Int(0)
	}
	if h0 == nil {
		h0 = ln
	}
	// the capacity is at least the length; slicing beyond the length is reported
	bad := e.Or(e.cmp("lt", l0, e.Int(0)), e.Or(e.cmp("lt", h0, l0), e.cmp("lt", ln, h0)))
	e.oblige("slice bounds out of range", x.Pos(), fr, st, bad)
	if st.g == e.False {
		return
	}
	v, l0, h0 = e.constrain(v, st.g), e.constrain(l0, st.g), e.constrain(h0, st.g)
	fr.env[x] = e.app1S(v, func(l *Term) *Term {
		if l == e.Nil {
			return e.Nil
		}
		if l.k == KSlice {
			off := e.bin("add", l.args[1], l0)
			if hi == nil {
				if l.args[2] == e.LenAll {
					return e.Slice(l.args[0], off, e.LenAll)
				}
				return e.Slice(l.args[0], off, e.bin("sub", l.args[2], l0))
			}
			return e.Slice(l.args[0], off, e.bin("sub", h0, l0))
		}
		return e.unknownT("slice of "+e.show(l), x.Type())
	})
}

func (e *Eng) assertLeaf(l *Term, t types.Type) (*Term, *Term) {
	_, toIface := t.Underlying().(*types.Interface)
	if l == e.Nil {
		return e.zeroT(t), e.False
	}
	if l.k == KIface {
		dt := l.x.(types.Type)
		if toIface {
			if types.AssignableTo(dt, t) {
				return l, e.True
			}
			return e.Nil, e.False
		}
		if types.Identical(dt, t) {
			return l.args[0], e.True
		}
		return e.zeroT(t), e.False
	}
	ok := e.atom(e.Op("typeis:"+types.TypeString(t, nil), SBool, 0, false, l))
	if toIface {
		return l, ok
	}
	return e.symOf(e.name(l)+".("+types.TypeString(t, nil)+")", t), ok
}

// ---- maps

func (e *Eng) mapGet(m, k *Term, st *State, mt *types.Map) (*Term, *Term) {
	var v, ok *Term
	zero := e.zeroT(mt.Elem())
	for _, gl := range e.leaves(m, st.g) {
		var lv, lok *Term
		switch gl.v.k {
		case KNil:
			lv, lok = zero, e.False
		case KMap:
			mn, is := e.content(int(gl.v.n), st).(*MapN)
			if !is {
				lv, lok = e.unknownT("map content", mt.Elem()), e.unknownBool("map")
				break
			}
			lv, lok = zero, e.False
			if mn.base != nil {
				lv, lok = e.mapBase(mn.base, k, mt)
			}
			for _, en := range mn.ents {
				c := e.And(en.g, e.cmp("eq", en.k, k))
				if c == e.False {
					continue
				}
				if en.del {
					lv = e.ite(c, zero, lv)
					lok = e.ite(c, e.False, lok)
				} else {
					n := e.mergeNode(c, e.force(en.v), e.termNode(lv, mt.Elem()), st, st)
					lv = e.nodeTerm(n)
					lok = e.ite(c, e.True, lok)
				}
			}
		default:
			lv, lok = e.mapBase(gl.v, k, mt)
		}
		if v == nil {
			v, ok = lv, lok
		} else {
			v = e.ite(gl.g, lv, v)
			ok = e.ite(gl.g, lok, ok)
		}
	}
	if v == nil {
		return zero, e.False
	}
	return e.constrain(v, st.g), e.constrain(ok, st.g)
}

func (e *Eng) unknownBool(why string) *Term {
	return e.unknownT(why, types.Typ[types.Bool])
}

func (e *Eng) mapBase(base, k *Term, mt *types.Map) (*Term, *Term) {
	name := fmt.Sprintf("%s[%s]", e.name(base), e.show(k))
	zero := e.zeroT(mt.Elem())
	var v, ok *Term
	f := func(k *Term) (*Term, *Term) {
		ok := e.atom(e.Op("haskey", SBool, 0, false, base, k))
		nm := fmt.Sprintf("%s[%s]", e.name(base), e.show(k))
		n := e.force(Node(&LazyN{mt.Elem(), nm}))
		return e.ite(ok, e.nodeTerm(n), zero), ok
	}
	_ = name
	v = e.app1S(k, func(k *Term) *Term { a, _ := f(k); return a })
	ok = e.app1S(k, func(k *Term) *Term { _, b := f(k); return b })
	return v, ok
}

func (e *Eng) mapPut(m, k *Term, v Node, st *State, del bool) {
	ls := e.leaves(m, st.g)
	for _, gl := range ls {
		if gl.v.k != KMap {
			continue
		}
		mn, ok := e.content(int(gl.v.n), st).(*MapN)
		if !ok {
			continue
		}
		c := e.True
		if len(ls) > 1 {
			c = e.constrain(gl.g, st.g)
		}
		r := &MapN{base: mn.base}
		// drop entries certainly overwritten; appended entry wins
		for _, en := range mn.ents {
			if c == e.True && en.k == k {
				if !del && !en.del && en.g == e.True {
					// keep the position of an existing key
					continue
				}
				continue
			}
			r.ents = append(r.ents, en)
		}
		if !(del && mn.base == nil && len(r.ents) == 0) {
			r.ents = append(r.ents, MapEnt{k, v, c, del})
		}
		st.mem = st.mem.set(int(gl.v.n), r)
	}
}

// mapItems: the (key,value) pairs of a map as a guarded list, later writes to equal keys win.
func (e *Eng) mapItems(m *Term, st *State, mt *types.Map) *ListN {
	out := &ListN{}
	for _, gl := range e.leaves(m, st.g) {
		if gl.v.k != KMap {
			if gl.v != e.Nil {
				e.note("range over opaque map " + e.show(gl.v))
			}
			continue
		}
		lg := e.constrain(gl.g, st.g)
		mn, ok := e.content(int(gl.v.n), st).(*MapN)
		if !ok {
			continue
		}
		if mn.base != nil {
			// bounded symbolic content
			ln := e.SymIntR(e.name(mn.base)+".len", 64, true, 0, int64(e.listBound))
			for i := 0; i < e.listBound; i++ {
				k := e.nodeTerm(e.force(Node(&LazyN{mt.Key(), fmt.Sprintf("%s.key%d", e.name(mn.base), i)})))
				g := e.And(lg, e.Not(e.ltConst(ln, int64(i+1))))
				v, _ := e.mapBase(mn.base, k, mt)
				v = e.constrain(v, e.atom(e.Op("haskey", SBool, 0, false, mn.base, k)))
				for _, en := range mn.ents {
					c := e.And(en.g, e.cmp("eq", en.k, k))
					if c != e.False {
						if en.del {
							g = e.And(g, e.Not(c))
						} else {
							v = e.ite(c, e.nodeTerm(e.force(en.v)), v)
						}
					}
				}
				out.items = append(out.items, Item{g, e.Tup(k, v)})
			}
		}
		for i, en := range mn.ents {
			if en.del {
				continue
			}
			g := e.And(lg, en.g)
			v := e.nodeTerm(e.force(en.v))
			if mn.base != nil {
				has := e.atom(e.Op("haskey", SBool, 0, false, mn.base, en.k))
				g = e.And(g, e.Not(has))
			}
			for j, o := range mn.ents {
				c := e.And(o.g, e.cmp("eq", o.k, en.k))
				if j < i {
					if !o.del {
						g = e.And(g, e.Not(c)) // already listed at the earlier position
					}
				} else if j > i && c != e.False {
					if o.del {
						g = e.And(g, e.Not(c))
					} else {
						v = e.ite(c, e.nodeTerm(e.force(o.v)), v)
					}
				}
			}
			if g != e.False {
				out.items = append(out.items, Item{g, e.Tup(en.k, v)})
			}
		}
	}
	return out
}

func (e *Eng) next(fr *Frame, x *ssa.Next, st *State) {
	it := e.val(fr, x.Iter)
	if it.k != KOp || it.s != "iter" {
		fr.env[x] = e.unknownT("iterator", x.Type())
		return
	}
	pos := e.content(int(it.n), st).(*Term)
	if !x.IsString {
		l := e.objs[it.args[1].n].cache.(*ListN)
		mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		ok := e.cmp("lt", pos, e.listLen(l))
		var k, v *Term
		if len(l.items) > 0 {
			t := e.nodeTerm(e.nodeRead(l, []*Term{pos}))
			if t.k == KTup {
				k, v = t.args[0], t.args[1]
			}
		}
		if k == nil {
			k, v = e.zeroT(mt.Key()), e.zeroT(mt.Elem())
		}
		st.mem = st.mem.set(int(it.n), e.bin("add", pos, e.Int(1)))
		fr.env[x] = e.Tup(ok, k, v)
		return
	}
	s := it.args[0]
	if pos.k == KInt {
		// position inside literal text
		ps := e.parts(s)
		off := pos.n
		idx := pos.n
		for _, p := range ps {
			if p.k == KStr {
				if off < int64(len(p.s)) {
					r, n := utf8.DecodeRuneInString(p.s[off:])
					st.mem = st.mem.set(int(it.n), e.Int(idx+int64(n)))
					fr.env[x] = e.Tup(e.True, e.Int(idx), e.IntT(int64(r), 32, true))
					return
				}
				off -= int64(len(p.s))
				continue
			}
			c := e.csetOf(p)
			if p.k != KIte && c.max >= 0 && c.min == c.max {
				if off < int64(c.min) {
					ch := e.conv(e.Op("charat", SInt, 8, false, p, e.Int(off)), 32, true)
					st.mem = st.mem.set(int(it.n), e.Int(idx+1))
					fr.env[x] = e.Tup(e.True, e.Int(idx), ch)
					return
				}
				off -= int64(c.min)
				continue
			}
			e.note("range over a string of unknown length")
			// one generic element
			okT := e.cmp("lt", pos, e.StrLen(s))
			ch := e.Op("runeat", SInt, 32, true, s, pos)
			st.mem = st.mem.set(int(it.n), e.bin("add", pos, e.Int(1)))
			fr.env[x] = e.Tup(okT, pos, ch)
			return
		}
		fr.env[x] = e.Tup(e.False, e.Int(0), e.IntT(0, 32, true))
		return
	}
	okT := e.cmp("lt", pos, e.StrLen(s))
	ch := e.Op("runeat", SInt, 32, true, s, pos)
	st.mem = st.mem.set(int(it.n), e.bin("add", pos, e.Int(1)))
	fr.env[x] = e.Tup(okT, pos, ch)
}

// ---- conversions

func (e *Eng) convert(fr *Frame, v *Term, from, to types.Type, st *State) *Term {
	v = e.constrain(v, st.g)
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if w, s, ok := intType(tb); ok {
			if v.sort == SInt {
				return e.conv(v, w, s)
			}
			if v.sort == SFloat {
				return e.app1(fmt.Sprintf("f2i:%d%v", w, s), v, func(v *Term) *Term {
					if v.k == KFloat {
						if v.f >= math.MaxInt64 || v.f <= math.MinInt64 || math.IsNaN(v.f) {
							return e.IntT(math.MinInt64, w, s)
						}
						return e.IntT(int64(v.f), w, s)
					}
					if r := e.intDiv(v); r != nil {
						return e.conv(r, w, s)
					}
					return e.Op("f2i", SInt, w, s, v)
				})
			}
			return v
		}
		if tb.Info()&types.IsFloat != 0 {
			if v.sort == SInt {
				return e.app1("i2f", v, func(v *Term) *Term {
					if v.k == KInt {
						if v.w == 64 && !v.sgn {
							return e.Float(float64(uint64(v.n)))
						}
						return e.Float(float64(v.n))
					}
					return e.Op("i2f", SFloat, 64, true, v)
				})
			}
			return v
		}
		if tb.Info()&types.IsString != 0 {
			switch f := fu.(type) {
			case *types.Slice:
				if isByte(f.Elem()) {
					return e.bytesTerm(v, st)
				}
				return e.Op("runes2str", SStr, 0, false, e.deep(v, st, from))
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return v
				}
				return e.app1("int2str", v, func(v *Term) *Term {
					if v.k == KInt {
						return e.Str(string(rune(v.n)))
					}
					if lo, hi := e.rng(v); lo >= 0 && hi < 128 {
						return e.chr(e.conv(v, 8, false))
					}
					return e.Op("int2str", SStr, 0, false, v)
				})
			}
			return v
		}
	}
	if ts, ok := tu.(*types.Slice); ok && (v.sort == SStr || isStringType(from)) {
		if isByte(ts.Elem()) {
			return e.app1S(v, func(l *Term) *Term { return e.bytesSlice(l) })
		}
		// []rune
		if v.k == KStr {
			var ns []Node
			for _, r := range v.s {
				ns = append(ns, e.IntT(int64(r), 32, true))
			}
			return e.listSlice(ns...)
		}
		return e.unknownT("[]rune of symbolic string", to)
	}
	return v
}
