package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A flow-insensitive, field-insensitive points-to-root analysis with function summaries: which
// parameters, captured variables and package-level variables own the memory a function writes.

type rootKind uint8

const (
	rParam rootKind = iota
	rFree
	rGlobal
)

type root struct {
	kind rootKind
	idx  int
	g    *ssa.Global
}

type effWrite struct {
	r    root
	pos  token.Pos
	fn   *ssa.Function
	what string
	lock bool // a mutex is held at the write
	once bool // written only inside sync.Once
}

type effSum struct {
	writes  map[root]effWrite
	returns map[root]bool
}

type effects struct {
	c       *Check
	sum     map[*ssa.Function]*effSum
	stores  map[*ssa.Function]map[ssa.Value][]ssa.Value // base -> values stored into it
	rootsM  map[ssa.Value]map[root]bool
	changed bool
	order   []*ssa.Function
}

func inScope(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := f.Pkg
	if p == nil {
		if o := f.Origin(); o != nil {
			p = o.Pkg
		}
	}
	if p == nil { // wrappers and bound methods
		return len(f.Blocks) > 0 && f.Synthetic != ""
	}
	path := p.Pkg.Path()
	return len(f.Blocks) > 0 && strings.HasPrefix(path, "github.com/SKAARHOJ/") && path != rwpPath
}

// reach: functions of the library (and its helper library) reachable from the entry points.
func reach(entries ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !inScope(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, f := range entries {
		visit(f)
	}
	return out
}

func (c *Check) effectsOf(entries ...*ssa.Function) *effects {
	ef := &effects{c: c, sum: map[*ssa.Function]*effSum{}, stores: map[*ssa.Function]map[ssa.Value][]ssa.Value{}}
	ef.order = reach(entries...)
	for _, f := range ef.order {
		ef.sum[f] = &effSum{writes: map[root]effWrite{}, returns: map[root]bool{}}
		ef.stores[f] = map[ssa.Value][]ssa.Value{}
	}
	for pass := 0; pass < 40; pass++ {
		ef.changed = false
		ef.rootsM = map[ssa.Value]map[root]bool{}
		for _, f := range ef.order {
			ef.collectStores(f)
		}
		for _, f := range ef.order {
			ef.function(f)
		}
		if !ef.changed {
			break
		}
	}
	return ef
}

func hasPointers(t types.Type) bool {
	seen := map[types.Type]bool{}
	var rec func(t types.Type) bool
	rec = func(t types.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Kind() == types.UnsafePointer
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if rec(u.Field(i).Type()) {
					return true
				}
			}
			return false
		case *types.Array:
			return rec(u.Elem())
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				if rec(u.At(i).Type()) {
					return true
				}
			}
			return false
		}
		return true
	}
	return rec(t)
}

// base: the value an address is computed from, within one object.
func base(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		default:
			return v
		}
	}
}

func (ef *effects) collectStores(f *ssa.Function) {
	m := map[ssa.Value][]ssa.Value{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if hasPointers(x.Val.Type()) {
					bs := base(x.Addr)
					m[bs] = append(m[bs], x.Val)
				}
			case *ssa.MapUpdate:
				if hasPointers(x.Value.Type()) {
					bs := base(x.Map)
					m[bs] = append(m[bs], x.Value)
				}
			}
		}
	}
	ef.stores[f] = m
}

// roots of the memory a value points into.
func (ef *effects) roots(v ssa.Value) map[root]bool {
	if r, ok := ef.rootsM[v]; ok {
		return r
	}
	r := map[root]bool{}
	ef.rootsM[v] = r // cycles see the set under construction
	for k := 0; k < 3; k++ {
		n := len(r)
		ef.rootsInto(v, r)
		if len(r) == n {
			break
		}
	}
	return r
}

func (ef *effects) add(r map[root]bool, v ssa.Value) {
	for x := range ef.roots(v) {
		r[x] = true
	}
}

func (ef *effects) rootsInto(v ssa.Value, r map[root]bool) {
	if _, isG := v.(*ssa.Global); !isG && !hasPointers(v.Type()) {
		return
	}
	held := func(b ssa.Value) { // memory referred to from inside a fresh object
		if in, ok := b.(ssa.Instruction); ok {
			for _, s := range ef.stores[in.Parent()][b] {
				ef.add(r, s)
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				r[root{kind: rParam, idx: i}] = true
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				r[root{kind: rFree, idx: i}] = true
			}
		}
	case *ssa.Global:
		r[root{kind: rGlobal, g: x}] = true
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface, *ssa.TypeAssert:
		ef.add(r, base(v))
	case *ssa.Convert:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			ef.add(r, x.X)
		}
	case *ssa.ChangeInterface:
		ef.add(r, x.X)
	case *ssa.Field:
		ef.add(r, x.X)
	case *ssa.Index:
		ef.add(r, x.X)
	case *ssa.Lookup:
		ef.add(r, x.X)
		held(base(x.X))
	case *ssa.Extract:
		ef.add(r, x.Tuple)
	case *ssa.Next:
		ef.add(r, x.Iter)
	case *ssa.Range:
		ef.add(r, x.X)
		held(base(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			ef.add(r, e)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			b := base(x.X)
			ef.add(r, b)
			held(b)
		}
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		// fresh; what it refers to counts once it is loaded
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			ef.add(r, b)
		}
	case *ssa.Call:
		ef.callRoots(&x.Call, r)
	}
}

func (ef *effects) callRoots(c *ssa.CallCommon, r map[root]bool) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			ef.add(r, c.Args[0])
			if len(c.Args) > 1 && hasPointers(c.Args[1].Type().Underlying().(interface{ Elem() types.Type }).Elem()) {
				ef.add(r, c.Args[1])
				for _, a := range c.Args { // contents of fresh lists
					if in, ok := base(a).(ssa.Instruction); ok {
						for _, s := range ef.stores[in.Parent()][base(a)] {
							ef.add(r, s)
						}
					}
				}
			}
		}
		return
	}
	fs, args := callees(c)
	if len(fs) == 0 {
		for _, a := range args {
			ef.add(r, a)
		}
		return
	}
	for _, f := range fs {
		if s := ef.sum[f]; s != nil {
			for x := range s.returns {
				switch x.kind {
				case rGlobal:
					r[x] = true
				case rParam:
					if x.idx < len(args) {
						ef.add(r, args[x.idx])
					}
				case rFree:
					if mc, ok := c.Value.(*ssa.MakeClosure); ok && x.idx < len(mc.Bindings) {
						ef.add(r, mc.Bindings[x.idx])
					}
				}
			}
			continue
		}
		p := pkgPathOf(f)
		if p == "bytes" || p == "slices" || p == "maps" || p == rwpPath {
			for _, a := range args {
				ef.add(r, a)
			}
		}
	}
}

func pkgPathOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

// callees of a call with a known target; args includes the receiver.
func callees(c *ssa.CallCommon) ([]*ssa.Function, []ssa.Value) {
	if c.IsInvoke() {
		return nil, append([]ssa.Value{c.Value}, c.Args...)
	}
	switch x := c.Value.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}, c.Args
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}, c.Args
	}
	return nil, c.Args
}

func (ef *effects) write(f *ssa.Function, v ssa.Value, pos token.Pos, what string, in ssa.Instruction) {
	s := ef.sum[f]
	b := base(v)
	switch b.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return
	}
	for r := range ef.roots(b) {
		ef.record(s, effWrite{r, pos, f, what, lockHeld(in), false})
	}
}

func (ef *effects) record(s *effSum, w effWrite) {
	old, ok := s.writes[w.r]
	if !ok || old.lock && !w.lock || old.once && !w.once {
		s.writes[w.r] = w
		ef.changed = true
	}
}

// writers of the standard library: argument index that is written.
var extWrites = map[string]int{
	"encoding/json.Unmarshal": 1, "google.golang.org/protobuf/proto.Unmarshal": 1, "google.golang.org/protobuf/proto.Merge": 0, "google.golang.org/protobuf/proto.Reset": 0,
	"google.golang.org/protobuf/encoding/protojson.Unmarshal": 1, "encoding/xml.Unmarshal": 1,
	"sort.Slice": 0, "sort.SliceStable": 0, "sort.Strings": 0, "sort.Ints": 0, "sort.Sort": 0, "sort.Stable": 0, "slices.Sort": 0, "slices.SortFunc": 0, "slices.SortStableFunc": 0, "slices.Reverse": 0, "slices.Delete": 0, "slices.Insert": 0,
	"io.ReadFull": 1, "maps.Copy": 0, "maps.DeleteFunc": 0,
}

func (ef *effects) function(f *ssa.Function) {
	s := ef.sum[f]
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				ef.write(f, x.Addr, x.Pos(), "assignment", in)
			case *ssa.MapUpdate:
				ef.write(f, x.Map, x.Pos(), "map update", in)
			case *ssa.Return:
				for _, v := range x.Results {
					for r := range ef.roots(v) {
						if !s.returns[r] {
							s.returns[r] = true
							ef.changed = true
						}
					}
					// what a fresh result refers to is part of it
					ef.heldRoots(v, func(r root) {
						if !s.returns[r] {
							s.returns[r] = true
							ef.changed = true
						}
					})
				}
			case ssa.CallInstruction:
				ef.call(f, s, x)
			}
		}
	}
}

func (ef *effects) heldRoots(v ssa.Value, f func(root)) {
	if in, ok := base(v).(ssa.Instruction); ok {
		for _, x := range ef.stores[in.Parent()][base(v)] {
			for r := range ef.roots(x) {
				f(r)
			}
		}
	}
}

func (ef *effects) call(f *ssa.Function, s *effSum, ci ssa.CallInstruction) {
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "delete", "clear":
			ef.write(f, c.Args[0], ci.Pos(), b.Name(), ci)
		case "append":
			if _, ok := c.Args[0].(*ssa.Slice); ok {
				ef.write(f, c.Args[0], ci.Pos(), "append into a re-sliced array", ci)
			}
		}
		return
	}
	fs, args := callees(c)
	once := false
	for _, g := range fs {
		if g.String() == "(*sync.Once).Do" {
			once = true
			if mc, ok := c.Args[1].(*ssa.MakeClosure); ok {
				fs, args = []*ssa.Function{mc.Fn.(*ssa.Function)}, nil
				c = &ssa.CallCommon{Value: mc}
			} else if h, ok := c.Args[1].(*ssa.Function); ok {
				fs, args = []*ssa.Function{h}, nil
			}
		}
	}
	for _, g := range fs {
		gs := ef.sum[g]
		if gs == nil {
			name := g.String()
			if o := g.Origin(); o != nil {
				name = o.String()
			}
			if i, ok := extWrites[name]; ok && i < len(args) {
				ef.writeDeep(f, args[i], ci.Pos(), "call of "+name, ci)
			}
			if sig := g.Signature; sig.Recv() != nil && len(args) > 0 && mutatingRecv(g) {
				ef.writeDeep(f, args[0], ci.Pos(), "call of "+name, ci)
			}
			continue
		}
		for _, w := range gs.writes {
			w := w
			if once || lockHeld(ci) {
				w.lock = true
			}
			w.once = w.once || once
			switch w.r.kind {
			case rGlobal:
				ef.record(s, w)
			case rParam:
				if w.r.idx < len(args) {
					b := base(args[w.r.idx])
					for r := range ef.roots(b) {
						ef.record(s, effWrite{r, w.pos, w.fn, w.what, w.lock, w.once})
					}
					ef.heldRoots(b, func(r root) { ef.record(s, effWrite{r, w.pos, w.fn, w.what, w.lock, w.once}) })
				}
			case rFree:
				if mc, ok := c.Value.(*ssa.MakeClosure); ok && w.r.idx < len(mc.Bindings) {
					b := base(mc.Bindings[w.r.idx])
					for r := range ef.roots(b) {
						ef.record(s, effWrite{r, w.pos, w.fn, w.what, w.lock, w.once})
					}
					ef.heldRoots(b, func(r root) { ef.record(s, effWrite{r, w.pos, w.fn, w.what, w.lock, w.once}) })
				}
			}
		}
	}
}

// writeDeep: the callee writes anything reachable from v.
func (ef *effects) writeDeep(f *ssa.Function, v ssa.Value, pos token.Pos, what string, in ssa.Instruction) {
	ef.write(f, v, pos, what, in)
}

// mutatingRecv: methods of library types that change their receiver.
func mutatingRecv(g *ssa.Function) bool {
	n := g.String()
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "(*bufio.", "(*math/rand.", "(*container/"} {
		if strings.HasPrefix(n, p) {
			for _, r := range []string{"String", "Len", "Bytes", "Cap"} {
				if strings.HasSuffix(n, ")."+r) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// lockHeld: on every path to the instruction a mutex was locked and not yet unlocked.
func lockHeld(in ssa.Instruction) bool { return lockHeldBy(in, lockOp) }

// lockHeldR: as lockHeld, a read lock counts too.
func lockHeldR(in ssa.Instruction) bool {
	return lockHeldBy(in, func(c *ssa.CallCommon) int {
		if n := callName(c); strings.HasSuffix(n, "RWMutex).RLock") {
			return 1
		} else if strings.HasSuffix(n, "RWMutex).RUnlock") {
			return -1
		}
		return lockOp(c)
	})
}

func lockHeldBy(in ssa.Instruction, lockOp func(*ssa.CallCommon) int) bool {
	f := in.Parent()
	type bs struct{ held bool }
	state := map[*ssa.BasicBlock]int{} // entry: 0 unknown, 1 held, 2 free
	if len(f.Blocks) == 0 {
		return false
	}
	step := func(b *ssa.BasicBlock, st int, stop ssa.Instruction) int {
		for _, x := range b.Instrs {
			if x == stop {
				return st
			}
			if ci, ok := x.(*ssa.Call); ok {
				switch lockOp(&ci.Call) {
				case 1:
					st = 1
				case -1:
					st = 2
				}
			}
		}
		return st
	}
	state[f.Blocks[0]] = 2
	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			if state[b] == 0 {
				continue
			}
			out := step(b, state[b], nil)
			for _, t := range b.Succs {
				n := out
				if state[t] == 2 {
					n = 2
				}
				if state[t] != n {
					state[t] = n
					ch = true
				}
			}
		}
	}
	return step(in.Block(), state[in.Block()], in) == 1
}

// lockOp: +1 for taking a mutex for writing, -1 for releasing one.
func lockOp(c *ssa.CallCommon) int {
	n := callName(c)
	switch {
	case strings.HasSuffix(n, "Mutex).Lock"), strings.HasSuffix(n, "Locker).Lock"), strings.HasSuffix(n, "Mutex).Unlock"), strings.HasSuffix(n, "Locker).Unlock"):
		if strings.HasSuffix(n, "Unlock") {
			return -1
		}
		return 1
	}
	return 0
}

func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	} else if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

// heldThroughout: functions entered only with a lock held.
func (ef *effects) heldThroughout(entries []*ssa.Function) map[*ssa.Function]bool {
	held := map[*ssa.Function]bool{}
	for _, f := range ef.order {
		held[f] = true
	}
	for _, f := range entries {
		held[f] = false
	}
	for ch := true; ch; {
		ch = false
		for _, f := range ef.order {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if held[f] || lockHeldR(in) {
						continue
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && held[g] {
							held[g] = false
							ch = true
						}
					}
				}
			}
		}
	}
	return held
}

// globalReads: the instructions reading package-level state in the analysed functions.
func (ef *effects) globalReads(g *ssa.Global) (out []ssa.Instruction) {
	for _, f := range ef.order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					if st, ok := in.(*ssa.Store); ok && i == 0 && st.Addr == ssa.Value(g) {
						continue
					}
					out = append(out, in)
				}
			}
		}
	}
	return out
}

// feedsOnly: everything computed from v ends up back in g.
func feedsOnly(v ssa.Value, g *ssa.Global, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return true
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if base(x.Addr) != ssa.Value(g) {
				return false
			}
		case *ssa.BinOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.Convert, *ssa.Phi:
			if !feedsOnly(r.(ssa.Value), g, seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (r root) String() string {
	switch r.kind {
	case rGlobal:
		return "package-level variable " + r.g.Name()
	case rParam:
		return fmt.Sprintf("parameter %d", r.idx)
	}
	return fmt.Sprintf("captured variable %d", r.idx)
}

// sorted writes of a function.
func (s *effSum) list() []effWrite {
	var out []effWrite
	for _, w := range s.writes {
		out = append(out, w)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].r.String() < out[j].r.String() })
	return out
}
