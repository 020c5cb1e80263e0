package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// packages whose function bodies are analysed in place (besides the library itself)
var inlinePkgs = map[string]bool{
	"encoding/binary": true, "math/bits": true, "unicode/utf8": true, "unicode": true, "image": true, "image/color": true, "image/draw": true, "image/internal/imageutil": true,
	"slices": true, "maps": true, "cmp": true, "golang.org/x/exp/slices": true, "golang.org/x/exp/constraints": true,
	"strings": true, "bytes": true, "sort": true, "go.uber.org/atomic": true,
}

func inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	p := fn.Pkg
	if p == nil {
		if o := fn.Origin(); o != nil {
			p = o.Pkg
		}
		if p == nil && fn.Parent() != nil {
			return inlinable(fn.Parent())
		}
	}
	if p == nil {
		return true // synthetic wrapper
	}
	path := p.Pkg.Path()
	return strings.HasPrefix(path, "github.com/SKAARHOJ/") || strings.HasPrefix(path, "rpspec") || inlinePkgs[path]
}

func (e *Eng) funcT(fn *ssa.Function, binds ...*Term) *Term {
	return e.mk(&Term{k: KFunc, s: fn.String(), x: fn, args: binds})
}

func (e *Eng) prepCall(fr *Frame, call *ssa.CallCommon, st *State, pos token.Pos) (*Term, []*Term, *CallCtx) {
	var fnv *Term
	args := make([]*Term, 0, len(call.Args)+1)
	if call.IsInvoke() {
		fnv = e.mk(&Term{k: KFunc, s: "invoke:" + call.Method.FullName(), args: []*Term{e.constrain(e.val(fr, call.Value), st.g)}})
	} else {
		fnv = e.constrain(e.val(fr, call.Value), st.g)
	}
	for _, a := range call.Args {
		args = append(args, e.constrain(e.val(fr, a), st.g))
	}
	c := &CallCtx{fr: fr, args: args, st: st, pos: pos, sig: call.Signature()}
	return fnv, args, c
}

func (e *Eng) doCall(fr *Frame, call *ssa.CallCommon, st *State, pos token.Pos, typ types.Type) (*Term, bool) {
	fnv, args, _ := e.prepCall(fr, call, st, pos)
	return e.invoke(fr, call, fnv, args, st, pos, typ)
}

// invoke calls a possibly gated function value. ok=false: control does not return.
func (e *Eng) invoke(fr *Frame, call *ssa.CallCommon, fnv *Term, args []*Term, st *State, pos token.Pos, typ types.Type) (*Term, bool) {
	if typ == nil {
		typ = call.Signature().Results()
	}
	if call.IsInvoke() {
		return e.invokeIface(fr, call, fnv.args[0], args, st, pos, typ)
	}
	if fnv.k == KIte || fnv == e.Nil {
		return e.split(fr, fnv, st, pos, typ, func(l *Term, s *State) (*Term, bool) {
			if l == e.Nil {
				e.obls = append(e.obls, &Obl{"nil function call", pos, s.g, fr.fn})
				return nil, false
			}
			return e.invoke1(fr, call, l, constrainAll(e, args, s.g), s, pos, typ)
		})
	}
	return e.invoke1(fr, call, fnv, args, st, pos, typ)
}

func constrainAll(e *Eng, ts []*Term, g *Term) []*Term {
	out := make([]*Term, len(ts))
	for i := range ts {
		out[i] = e.constrain(ts[i], g)
	}
	return out
}

// split runs f once per leaf of v, each in its own state, and merges the outcomes.
func (e *Eng) split(fr *Frame, v *Term, st *State, pos token.Pos, typ types.Type, f func(l *Term, s *State) (*Term, bool)) (*Term, bool) {
	var acc *Term
	var accSt *State
	for _, gl := range e.leaves(v, st.g) {
		s := &State{gl.g, st.mem}
		r, ok := f(gl.v, s)
		if !ok || s.g == e.False {
			continue
		}
		if accSt == nil {
			acc, accSt = r, s
			continue
		}
		n, sel := e.mergeState(accSt, s)
		if acc != nil && r != nil {
			acc = e.mergeVal(sel, acc, r, accSt, s)
		}
		accSt = n
	}
	if accSt == nil {
		st.g = e.False
		return nil, false
	}
	*st = *accSt
	return acc, true
}

func (e *Eng) invokeIface(fr *Frame, call *ssa.CallCommon, recv *Term, args []*Term, st *State, pos token.Pos, typ types.Type) (*Term, bool) {
	recv = e.constrain(recv, st.g)
	if recv.k == KIte || recv == e.Nil {
		return e.split(fr, recv, st, pos, typ, func(l *Term, s *State) (*Term, bool) {
			if l == e.Nil {
				e.obls = append(e.obls, &Obl{"nil dereference", pos, s.g, fr.fn})
				return nil, false
			}
			return e.invokeIface(fr, call, l, constrainAll(e, args, s.g), s, pos, typ)
		})
	}
	c := &CallCtx{fr: fr, name: call.Method.FullName(), args: args, st: st, pos: pos, sig: call.Signature()}
	if e.invokeHook != nil {
		if r, ok := e.invokeHook(e, c, recv, call.Method); ok {
			if c.dead || st.g == e.False {
				return nil, false
			}
			return r, true
		}
	}
	if recv.k == KIface {
		dt := recv.x.(types.Type)
		fn := e.prog.LookupMethod(dt, call.Method.Pkg(), call.Method.Name())
		if fn != nil {
			return e.callStatic(fr, fn, nil, append([]*Term{recv.args[0]}, args...), st, pos, typ)
		}
	}
	if call.Method.Name() == "Error" && len(args) == 0 {
		return e.Op("errstr", SStr, 0, false, recv), true
	}
	e.taint("call through opaque interface " + call.Method.FullName())
	e.event("icall:"+call.Method.FullName(), pos, fr, st, append([]*Term{recv}, args...)...)
	return e.unknownT("opaque interface call "+call.Method.FullName(), typ), true
}

func resT(t types.Type) types.Type {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 1 {
			return tt.At(0).Type()
		}
	}
	return t
}

func (e *Eng) invoke1(fr *Frame, call *ssa.CallCommon, fnv *Term, args []*Term, st *State, pos token.Pos, typ types.Type) (*Term, bool) {
	if fnv.k == KFunc && strings.HasPrefix(fnv.s, "builtin:") {
		return e.builtin(fr, fnv.s[8:], call, args, st, pos, typ)
	}
	if fnv.k == KFunc {
		if fn, ok := fnv.x.(*ssa.Function); ok {
			return e.callStatic(fr, fn, fnv.args, args, st, pos, typ)
		}
	}
	c := &CallCtx{fr: fr, name: "opaque:" + e.name(fnv), args: args, st: st, pos: pos, sig: call.Signature()}
	if e.callHook != nil {
		if r, ok := e.callHook(e, c); ok {
			return r, !c.dead && st.g != e.False
		}
	}
	// a caller supplied callback: an observable event
	ds := make([]*Term, len(args))
	for i := range args {
		ds[i] = e.deep(args[i], st, call.Args[i].Type())
	}
	e.event("callback:"+e.name(fnv), pos, fr, st, ds...)
	if tt, ok := typ.(*types.Tuple); ok && tt.Len() == 0 {
		return nil, true
	}
	return e.unknownT("result of callback", resT(typ)), true
}

func (e *Eng) callStatic(fr *Frame, fn *ssa.Function, binds, args []*Term, st *State, pos token.Pos, typ types.Type) (*Term, bool) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	c := &CallCtx{fr: fr, fn: fn, name: name, args: args, st: st, pos: pos, sig: fn.Signature}
	if e.callHook != nil {
		if r, ok := e.callHook(e, c); ok {
			return r, !c.dead && st.g != e.False
		}
	}
	m, ok := e.local[name]
	if !ok {
		m, ok = e.models[name]
	}
	if ok {
		if r, ok := m(e, c); ok {
			if c.dead || st.g == e.False {
				return nil, false
			}
			return r, true
		}
	}
	if strings.HasPrefix(name, "(*github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel.") || strings.HasPrefix(name, "(github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel.") {
		// generated code: enum names are uninterpreted, getters are analysed in place
		if fn.Name() == "String" && fn.Signature.Recv() != nil && len(args) == 1 {
			return e.enumString(fn, args[0], st), true
		}
		if fn.Name() == "Enum" || fn.Name() == "Number" || strings.HasPrefix(fn.Name(), "Get") {
			goto inline
		}
		if fn.Name() == "Reset" {
			goto inline
		}
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Signature.Recv() == nil && fr != nil && fr.fn.Name() == "init" {
		return nil, true // initialisers of imported packages
	}
inline:
	if (inlinable(fn) || e.world == nil && e.inlineBufio && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "bufio") && !e.noInline[name] {
		r, out := e.callFn(fn, args, binds, st.copy(), fr, pos)
		if out == nil || out.g == e.False {
			st.g = e.False
			return nil, false
		}
		*st = *out
		return r, true
	}
	return e.opaqueCall(fr, fn, name, args, st, pos, resT(typ)), true
}

// opaqueCall: an external function without a model is an uninterpreted pure function of its
// arguments; if it receives references the result is unknown.
func (e *Eng) opaqueCall(fr *Frame, fn *ssa.Function, name string, args []*Term, st *State, pos token.Pos, typ types.Type) *Term {
	if tt, ok := typ.(*types.Tuple); ok && tt.Len() == 0 {
		if !effectFree(name) {
			e.taint("external function " + name)
		}
		return nil
	}
	ds := make([]*Term, len(args))
	ps := fn.Signature.Params()
	off := len(args) - ps.Len()
	for i := range args {
		var t types.Type
		if i-off >= 0 {
			t = ps.At(i - off).Type()
		} else if fn.Signature.Recv() != nil {
			t = fn.Signature.Recv().Type()
		}
		ds[i] = e.deep(args[i], st, t)
	}
	e.taint("external function " + name)
	return e.opResult("call:"+name, ds, typ)
}

func (e *Eng) opResult(name string, ds []*Term, typ types.Type) *Term {
	if tt, ok := typ.(*types.Tuple); ok {
		args := make([]*Term, tt.Len())
		for i := range args {
			args[i] = e.opResult(fmt.Sprintf("%s#%d", name, i), ds, tt.At(i).Type())
		}
		return e.Tup(args...)
	}
	if b, ok := typ.Underlying().(*types.Basic); ok {
		if w, s, ok := intType(b); ok {
			return e.Op(name, SInt, w, s, ds...)
		}
		switch {
		case b.Info()&types.IsString != 0:
			return e.Op(name, SStr, 0, false, ds...)
		case b.Info()&types.IsBoolean != 0:
			return e.atom(e.Op(name, SBool, 0, false, ds...))
		case b.Info()&types.IsFloat != 0:
			return e.Op(name, SFloat, 64, true, ds...)
		}
	}
	if st, ok := typ.Underlying().(*types.Slice); ok && isByte(st.Elem()) {
		return e.bytesSlice(e.Op(name, SStr, 0, false, ds...))
	}
	return e.Op(name, SAny, 0, false, ds...)
}

func (e *Eng) enumString(fn *ssa.Function, v *Term, st *State) *Term {
	rt := fn.Signature.Recv().Type()
	tn := types.TypeString(rt, nil)
	return e.app1("enum:"+tn, v, func(v *Term) *Term {
		if v.k == KInt {
			if nt, ok := rt.(*types.Named); ok {
				pre := nt.Obj().Name() + "_"
				for _, n := range nt.Obj().Pkg().Scope().Names() {
					if c, ok := nt.Obj().Pkg().Scope().Lookup(n).(*types.Const); ok && strings.HasPrefix(n, pre) && types.Identical(c.Type(), rt) {
						if c.Val().ExactString() == fmt.Sprint(v.n) {
							return e.Str(n[len(pre):])
						}
					}
				}
				// nested enum: constants are named after the parent message
				if i := strings.LastIndex(pre[:len(pre)-1], "_"); i > 0 {
					p2 := pre[:i+1]
					for _, n := range nt.Obj().Pkg().Scope().Names() {
						if c, ok := nt.Obj().Pkg().Scope().Lookup(n).(*types.Const); ok && strings.HasPrefix(n, p2) && types.Identical(c.Type(), rt) {
							if c.Val().ExactString() == fmt.Sprint(v.n) {
								return e.Str(n[len(p2):])
							}
						}
					}
				}
			}
		}
		return e.Op("enum:"+tn, SStr, 0, false, v)
	})
}

// ---- builtins

func (e *Eng) builtin(fr *Frame, name string, call *ssa.CallCommon, args []*Term, st *State, pos token.Pos, typ types.Type) (*Term, bool) {
	switch name {
	case "len", "cap":
		t := call.Args[0].Type().Underlying()
		a := args[0]
		switch u := t.(type) {
		case *types.Basic:
			return e.StrLen(a), true
		case *types.Slice:
			if name == "cap" {
				e.note("imprecise: cap")
			}
			return e.constrain(e.sliceLen(a, st), st.g), true
		case *types.Map:
			l := e.mapItems(a, st, u)
			return e.listLen(l), true
		case *types.Array:
			return e.Int(u.Len()), true
		case *types.Pointer:
			return e.Int(u.Elem().Underlying().(*types.Array).Len()), true
		}
		return e.unknownT("len", types.Typ[types.Int]), true
	case "append":
		return e.appendB(fr, call, args, st, pos), true
	case "copy":
		return e.copyB(fr, call, args, st, pos), true
	case "delete":
		e.worldMap(args[0], true, pos)
		mt := call.Args[0].Type().Underlying().(*types.Map)
		e.event("mapdelete", pos, fr, st, args...)
		_ = mt
		e.mapPut(args[0], args[1], nil, st, true)
		return nil, true
	case "min", "max":
		acc := args[0]
		for _, b := range args[1:] {
			c := e.cmp("lt", b, acc)
			if name == "max" {
				c = e.cmp("lt", acc, b)
			}
			acc = e.ite(c, b, acc)
		}
		return acc, true
	case "close":
		if e.chanHook != nil {
			e.chanHook(e, "close", args[0], nil, st, pos, nil)
			return nil, st.g != e.False
		}
		e.event("close", pos, fr, st, args[0])
		return nil, true
	case "print", "println":
		return nil, true
	case "recover":
		return e.Nil, true
	case "ssa:wrapnilchk":
		p := args[0]
		bad := e.leafCond("isnil?", p, func(l *Term) bool { return l == e.Nil })
		e.oblige("nil dereference", pos, fr, st, bad)
		return e.constrain(p, st.g), st.g != e.False
	case "clear":
		if _, ok := call.Args[0].Type().Underlying().(*types.Map); ok {
			for _, gl := range e.leaves(args[0], st.g) {
				if gl.v.k == KMap {
					old := e.content(int(gl.v.n), st)
					c := e.constrain(gl.g, st.g)
					st.mem = st.mem.set(int(gl.v.n), e.mergeNode(c, &MapN{}, old, st, st))
				}
			}
			return nil, true
		}
	case "Add", "String", "StringData", "Slice", "SliceData":
	}
	e.taint("builtin " + name)
	if tt, ok := typ.(*types.Tuple); ok && tt.Len() == 0 {
		return nil, true
	}
	return e.unknownT("builtin "+name, resT(typ)), true
}

func (e *Eng) appendB(fr *Frame, call *ssa.CallCommon, args []*Term, st *State, pos token.Pos) *Term {
	et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
	s, x := args[0], args[1]
	if s.k == KIte || x.k == KIte {
		v := top3(s, x, nil)
		a := e.atom(v)
		s1 := &State{e.And(st.g, a), st.mem}
		s2 := &State{e.And(st.g, e.Not(a)), st.mem}
		if s1.g == e.False {
			return e.appendB(fr, call, []*Term{e.cof(s, v, false), e.cof(x, v, false)}, st, pos)
		}
		if s2.g == e.False {
			return e.appendB(fr, call, []*Term{e.cof(s, v, true), e.cof(x, v, true)}, st, pos)
		}
		r1 := e.appendB(fr, call, []*Term{e.cof(s, v, true), e.cof(x, v, true)}, s1, pos)
		r2 := e.appendB(fr, call, []*Term{e.cof(s, v, false), e.cof(x, v, false)}, s2, pos)
		n, sel := e.mergeState(s1, s2)
		*st = *n
		return e.mergeVal(sel, r1, r2, s1, s2)
	}
	if r := e.appendInPlace(s, x, et, st); r != nil {
		return r
	}
	// byte contents
	if isByte(et) {
		var xt *Term
		if x.sort == SStr {
			xt = x
		} else {
			xt = e.bytesTerm(x, st)
		}
		if !(s.k == KSlice || s.k == KNil) {
			return e.bytesSlice(e.Concat(e.Op("bytes?", SStr, 0, false, s), xt))
		}
		return e.bytesSlice(e.concatBytes(append(append([]*Term{}, e.parts(e.bytesTerm(s, st))...), e.parts(xt)...)))
	}
	nx, ok2 := e.sliceNode(x, st)
	ns, ok1 := e.sliceNode(s, st)
	if !ok1 || !ok2 {
		e.taint("append to opaque slice")
		e.unkN++
		return e.Sym(fmt.Sprintf("?%d", e.unkN), SAny, 0, false)
	}
	ls, k1 := ns.(*ListN)
	lx, k2 := nx.(*ListN)
	if !k1 || !k2 {
		e.taint("append of mixed contents")
		e.unkN++
		return e.Sym(fmt.Sprintf("?%d", e.unkN), SAny, 0, false)
	}
	if len(lx.items) == 0 && s.k == KNil {
		return e.Nil
	}
	items := make([]Item, 0, len(ls.items)+len(lx.items))
	items = append(items, ls.items...)
	items = append(items, lx.items...)
	o := e.newObjN("append@"+e.posStr(pos), nil, &ListN{items: items})
	o.fresh = true
	return e.Slice(e.Ptr(o.id), e.Int(0), e.LenAll)
}

// appendInPlace: a slice that ends before its backing array does is extended by overwriting the array
// (whether the spare room suffices may depend on the input; that it does is then one possible run).
func (e *Eng) appendInPlace(s, x *Term, et types.Type, st *State) *Term {
	if s.k != KSlice || s.args[2] == e.LenAll || len(s.args[0].args) != 0 || x == e.Nil {
		return nil
	}
	id := int(s.args[0].n)
	off, ln := s.args[1], s.args[2]
	end := e.bin("add", off, ln)
	set := func(n Node, add *Term) *Term {
		st.mem = st.mem.set(id, n)
		return e.Slice(s.args[0], off, e.bin("add", ln, add))
	}
	cn := e.content(id, st)
	if a, ok := cn.(*ArrN); ok && isByte(et) {
		cn = &BytesN{e.arrStr(a, 0, a.n)}
	}
	switch c := cn.(type) {
	case *BytesN:
		xt := x
		if x.sort != SStr {
			xt = e.bytesTerm(x, st)
		}
		pre, post, ok := e.splitAt(c.t, end)
		if !ok || post == e.Empty || xt.k == KIte {
			return nil
		}
		add := e.StrLen(xt)
		_, rest, ok := e.splitAt(post, add)
		if !ok {
			n := e.StrLen(post)
			if lo, _ := e.rng(add); n.k == KInt && lo > n.n {
				return nil
			}
			rest = e.Op("substr", SStr, 0, false, post, add)
		}
		return set(&BytesN{e.Concat(pre, xt, rest)}, add)
	case *ListN, *ArrN:
		if off.k != KInt || ln.k != KInt {
			return nil
		}
		nx, ok := e.sliceNode(x, st)
		lx, ok2 := nx.(*ListN)
		if !ok || !ok2 {
			return nil
		}
		for _, it := range lx.items {
			if it.g != e.True {
				return nil
			}
		}
		n, from := len(lx.items), int(end.n)
		switch c := c.(type) {
		case *ListN:
			if from+n > len(c.items) || n == 0 {
				return nil
			}
			items := append([]Item{}, c.items...)
			for i := range items {
				if items[i].g != e.True {
					return nil
				}
			}
			copy(items[from:], lx.items)
			return set(&ListN{items: items}, e.Int(int64(n)))
		case *ArrN:
			if from+n > c.n || n == 0 {
				return nil
			}
			var nc Node = c
			for i, it := range lx.items {
				nc = e.nodeWrite(nc, []*Term{e.Int(int64(from + i))}, it.v)
			}
			return set(nc, e.Int(int64(n)))
		}
	}
	return nil
}

func (e *Eng) copyB(fr *Frame, call *ssa.CallCommon, args []*Term, st *State, pos token.Pos) *Term {
	d, s := args[0], args[1]
	dl := e.sliceLen(d, st)
	sl := e.sliceLen(s, st)
	n := e.ite(e.cmp("lt", sl, dl), sl, dl)
	n = e.constrain(n, st.g)
	dt := call.Args[0].Type().Underlying().(*types.Slice)
	src := s
	if s.sort == SStr {
		src = e.bytesSlice(s)
	}
	if n.k == KInt && n.n <= 4096 && !(e.world != nil && isByte(dt.Elem()) && n.n > 0) {
		vals := make([]*Term, n.n)
		for i := range vals {
			vals[i] = e.elemAt(src, int64(i), st, dt.Elem())
		}
		for i, v := range vals {
			p := e.app1S(d, func(l *Term) *Term {
				if l.k == KSlice {
					q := l.args[0]
					return e.Ptr(int(q.n), append(append([]*Term{}, q.args...), e.bin("add", l.args[1], e.Int(int64(i))))...)
				}
				return l
			})
			e.store(fr, p, v, st, pos, dt.Elem())
		}
		return n
	}
	if e.world != nil && n.k == KInt && n.n == 0 {
		return n
	}
	if e.world != nil && isByte(dt.Elem()) && n.k == KInt && d.k == KSlice {
		e.world.putBytes(d, 0, e.SubStr(e.bytesTerm(src, st), e.Int(0), n), st)
		return n
	}
	if isByte(dt.Elem()) && d.k == KSlice {
		// symbolic lengths on byte contents
		old := e.bytesTermWhole(d, st)
		stt := e.bytesTerm(src, st)
		nw := e.Concat(e.SubStr(old, e.Int(0), d.args[1]), e.SubStr(stt, e.Int(0), n), e.SubStr(old, e.bin("add", d.args[1], n), nil))
		if len(d.args[0].args) == 0 {
			st.mem = st.mem.set(int(d.args[0].n), &BytesN{nw})
			return n
		}
	}
	e.taint("copy with symbolic length")
	return n
}

func (e *Eng) bytesTermWhole(d *Term, st *State) *Term {
	return e.bytesTerm(e.Slice(d.args[0], e.Int(0), e.LenAll), st)
}

func (e *Eng) elemAt(s *Term, i int64, st *State, et types.Type) *Term {
	return e.app1S(s, func(l *Term) *Term {
		if l.k == KSlice {
			p := l.args[0]
			n := e.force(e.loadLeaf(e.Ptr(int(p.n), append(append([]*Term{}, p.args...), e.bin("add", l.args[1], e.Int(i)))...), st))
			return e.nodeTerm(n)
		}
		return e.unknownT("element", et)
	})
}
