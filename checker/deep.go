package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// ---- canonical deep values: what a reader can observe of a value, free of addresses

func skipField(st *types.Struct, i int) bool {
	f := st.Field(i)
	if ast.IsExported(f.Name()) {
		return false
	}
	switch f.Name() {
	case "state", "sizeCache", "unknownFields":
		return true
	}
	return false
}

func (e *Eng) deepI(v *Term, st *State) *Term {
	return e.app1S(v, func(l *Term) *Term {
		if l.k == KIface {
			return e.deep(l.args[0], st, l.x.(types.Type))
		}
		return l
	})
}

func (e *Eng) deep(v *Term, st *State, t types.Type) *Term {
	return e.deepD(e.constrain(v, st.g), st, t, 0)
}

func (e *Eng) deepD(v *Term, st *State, t types.Type, d int) *Term {
	if t == nil {
		return v
	}
	if d > 24 {
		return e.Op("deep...", SAny, 0, false, v)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return v
	case *types.Pointer:
		return e.app1S(v, func(l *Term) *Term {
			if l.k != KPtr {
				return l
			}
			n := e.loadLeaf(l, st)
			return e.deepN(n, st, u.Elem(), d+1)
		})
	case *types.Slice:
		if isByte(u.Elem()) {
			if v.k == KSlice || v.k == KNil || v.k == KIte {
				return e.bytesTerm(v, st)
			}
			return v
		}
		return e.app1S(v, func(l *Term) *Term {
			if l.k == KNil {
				return e.Op("list", SAny, 0, false)
			}
			n, ok := e.sliceNode(l, st)
			if !ok {
				return l
			}
			switch x := n.(type) {
			case *ListN:
				return e.deepList(x, st, u.Elem(), d+1)
			case *BytesN:
				return x.t
			}
			return l
		})
	case *types.Struct, *types.Array:
		return e.app1S(v, func(l *Term) *Term {
			if l.k == KTup {
				return e.deepN(e.termNode(l, t), st, t, d)
			}
			return l
		})
	case *types.Interface:
		return e.app1S(v, func(l *Term) *Term {
			if l.k == KIface {
				return e.Op("iface:"+l.s, SAny, 0, false, e.deepD(l.args[0], st, l.x.(types.Type), d+1))
			}
			return l
		})
	case *types.Map:
		return e.app1S(v, func(l *Term) *Term {
			if l.k != KMap {
				if l == e.Nil {
					return e.Op("map", SAny, 0, false)
				}
				return l
			}
			mn, ok := e.content(int(l.n), st).(*MapN)
			if !ok {
				return l
			}
			if mn.base != nil && len(mn.ents) == 0 {
				return e.Op("map", SAny, 0, false, mn.base)
			}
			its := e.mapItems(l, st, u)
			type ent struct{ g, k, v *Term }
			var es []ent
			for _, it := range its.items {
				kv := e.nodeTerm(e.force(it.v))
				es = append(es, ent{it.g, e.deepD(kv.args[0], st, u.Key(), d+1), e.deepD(kv.args[1], st, u.Elem(), d+1)})
			}
			sort.SliceStable(es, func(i, j int) bool { return es[i].k.id < es[j].k.id })
			if len(es) == 0 {
				return e.Op("map", SAny, 0, false)
			}
			var args []*Term
			for _, x := range es {
				args = append(args, x.g, x.k, x.v)
			}
			return e.Op("mapents", SAny, 0, false, args...)
		})
	}
	return v
}

func (e *Eng) deepList(x *ListN, st *State, et types.Type, d int) *Term {
	var args []*Term
	for _, it := range x.items {
		if it.g == e.False {
			continue
		}
		args = append(args, it.g, e.deepN(it.v, st, et, d))
	}
	args = e.mergeExclusive(args)
	return e.Op("list", SAny, 0, false, args...)
}

// mergeExclusive joins neighbouring items of which at most one is present into a single item.
func (e *Eng) mergeExclusive(args []*Term) []*Term {
	var out []*Term
	for i := 0; i < len(args); i += 2 {
		n := len(out)
		if n > 0 && out[n-2] != e.True && args[i] != e.True && e.And(out[n-2], args[i]) == e.False {
			g := e.Or(out[n-2], args[i])
			out[n-1] = e.constrain(e.ite(out[n-2], out[n-1], args[i+1]), g)
			out[n-2] = g
			continue
		}
		out = append(out, args[i], args[i+1])
	}
	return out
}

func (e *Eng) deepN(n Node, st *State, t types.Type, d int) *Term {
	n = e.force(n)
	switch x := n.(type) {
	case *Term:
		return e.deepD(x, st, t, d)
	case *StructN:
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return e.Op("deep?", SAny, 0, false)
		}
		var args []*Term
		for i := range x.f {
			if skipField(u, i) {
				continue
			}
			args = append(args, e.deepN(x.f[i], st, u.Field(i).Type(), d+1))
		}
		return e.rec(t, args)
	case *ArrN:
		et := t.Underlying().(*types.Array).Elem()
		if isByte(et) {
			return e.arrStr(x, 0, x.n)
		}
		args := make([]*Term, x.n)
		for i := range args {
			args[i] = e.deepN(x.at(i), st, et, d+1)
		}
		return e.Op("arr", SAny, 0, false, args...)
	case *ListN:
		if s, ok := t.Underlying().(*types.Slice); ok {
			return e.deepList(x, st, s.Elem(), d)
		}
	case *BytesN:
		return x.t
	}
	return e.Op(fmt.Sprintf("deep?%T", n), SAny, 0, false)
}

func (e *Eng) rec(t types.Type, args []*Term) *Term {
	r := e.Op("rec:"+types.TypeString(t, nil), SAny, 0, false, args...)
	if r.x == nil {
		r.x = t
	}
	return r
}

// recField selects a field of a deep record diagram by name.
func (e *Eng) recField(r *Term, name string) *Term {
	return e.app1S(r, func(l *Term) *Term {
		if l.k == KOp && strings.HasPrefix(l.s, "rec:") {
			u := l.x.(types.Type).Underlying().(*types.Struct)
			k := 0
			for i := 0; i < u.NumFields(); i++ {
				if skipField(u, i) {
					continue
				}
				if u.Field(i).Name() == name {
					return l.args[k]
				}
				k++
			}
		}
		return e.Nil
	})
}

// posForm: the elements of a guarded list by position; "end" beyond the length.
func (e *Eng) posForm(l *Term) []*Term {
	end := e.Op("end", SAny, 0, false)
	n := len(l.args) / 2
	its := make([]Item, n)
	for i := range its {
		its[i] = Item{l.args[2*i], l.args[2*i+1]}
	}
	ls := &ListN{items: its}
	out := make([]*Term, n)
	for j := range out {
		acc := end
		for _, p := range e.listPos(ls, j) {
			acc = e.ite(p.g, its[p.i].v.(*Term), acc)
		}
		out[j] = acc
	}
	for len(out) > 0 && out[len(out)-1] == end {
		out = out[:len(out)-1]
	}
	return out
}

// deepEq: the condition under which two deep values are equal.
func (e *Eng) deepEq(a, b *Term) *Term {
	if a == b {
		return e.True
	}
	if a.k == KIte || b.k == KIte {
		v := top3(a, b, nil)
		return e.ite(e.atom(v), e.deepEq(e.cof(a, v, true), e.cof(b, v, true)), e.deepEq(e.cof(a, v, false), e.cof(b, v, false)))
	}
	isL := func(t *Term) bool { return t.k == KOp && t.s == "list" }
	isR := func(t *Term) bool { return t.k == KOp && strings.HasPrefix(t.s, "rec:") }
	if isL(a) && isL(b) {
		pa, pb := e.posForm(a), e.posForm(b)
		end := e.Op("end", SAny, 0, false)
		r := e.True
		for i := 0; i < len(pa) || i < len(pb); i++ {
			x, y := end, end
			if i < len(pa) {
				x = pa[i]
			}
			if i < len(pb) {
				y = pb[i]
			}
			r = e.And(r, e.deepEq(x, y))
		}
		return r
	}
	if isR(a) && isR(b) {
		if a.s != b.s || len(a.args) != len(b.args) {
			return e.False
		}
		r := e.True
		for i := range a.args {
			r = e.And(r, e.deepEq(a.args[i], b.args[i]))
			if r == e.False {
				break
			}
		}
		return r
	}
	if a.k == KOp && a.s == "end" || b.k == KOp && b.s == "end" {
		return e.False
	}
	if a == e.Nil || b == e.Nil {
		if isR(a) || isR(b) {
			return e.False
		}
	}
	if a.sort != SAny || b.sort != SAny {
		return e.cmp("eq", a, b)
	}
	return e.refEq(a, b)
}

// ---- decoding models

func (e *Eng) unmarshal(c *CallCtx, kind string, bytes, target *Term) *Term {
	var okAcc *Term
	for _, gl := range e.leaves(target, c.st.g) {
		if gl.v.k != KIface {
			continue
		}
		pt, ok := gl.v.x.(types.Type).Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		T := pt.Elem()
		node := e.decodeNode(kind, bytes, T)
		okT := e.app1S(bytes, func(l *Term) *Term {
			if l.k == KOp && l.s == kind || l.k == KOp && kind == "json" && l.s == "jsonindent" {
				return e.True
			}
			if l.k == KStr {
				if kind == "json" {
					return e.Bool(json.Valid([]byte(l.s)))
				}
				if l.s == "" {
					return e.True
				}
			}
			return e.atom(e.Op("decodes:"+kind+":"+types.TypeString(T, nil), SBool, 0, false, l))
		})
		for _, pl := range e.leaves(gl.v.args[0], gl.g) {
			if pl.v.k == KPtr {
				e.storeLeaf(pl.v, node, c.st, e.constrain(pl.g, c.st.g))
			}
		}
		if okAcc == nil {
			okAcc = okT
		} else {
			okAcc = e.ite(gl.g, okT, okAcc)
		}
	}
	if okAcc == nil {
		return e.unknownT("unmarshal target", errType)
	}
	return e.ite(okAcc, e.Nil, e.errVal(kind, bytes))
}

func (e *Eng) decodeNode(kind string, bytes *Term, T types.Type) Node {
	if bytes.k == KIte {
		return e.mergeNode(e.atom(bytes.args[0]), e.decodeNode(kind, bytes.args[1], T), e.decodeNode(kind, bytes.args[2], T), nil, nil)
	}
	if bytes.k == KOp && (bytes.s == kind || kind == "json" && bytes.s == "jsonindent") {
		return e.undeep(bytes.args[0], T, kind == "json")
	}
	if bytes.k == KStr && bytes.s == "" {
		return e.zero(T)
	}
	if bytes.k == KStr && kind == "json" {
		var x any
		dec := json.NewDecoder(strings.NewReader(bytes.s))
		dec.UseNumber()
		if dec.Decode(&x) == nil {
			return e.jsonNode(x, T)
		}
		return e.zero(T)
	}
	return e.force(&LazyN{T, kind + "(" + strconv.Itoa(bytes.id) + ")"})
}

// jsonNode decodes a constant JSON value.
func (e *Eng) jsonNode(x any, T types.Type) Node {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if w, s, ok := intType(u); ok {
			if n, ok := x.(json.Number); ok {
				v, _ := n.Int64()
				return e.IntT(v, w, s)
			}
			return e.zero(T)
		}
		switch v := x.(type) {
		case string:
			if u.Info()&types.IsString != 0 {
				return e.Str(v)
			}
		case bool:
			if u.Info()&types.IsBoolean != 0 {
				return e.Bool(v)
			}
		case json.Number:
			if u.Info()&types.IsFloat != 0 {
				f, _ := v.Float64()
				return e.Float(f)
			}
		}
		return e.zero(T)
	case *types.Pointer:
		if x == nil {
			return e.Nil
		}
		o := e.newObjN("json", u.Elem(), e.jsonNode(x, u.Elem()))
		return e.Ptr(o.id)
	case *types.Slice:
		a, ok := x.([]any)
		if !ok {
			return e.Nil
		}
		var ns []Node
		for _, y := range a {
			ns = append(ns, e.jsonNode(y, u.Elem()))
		}
		return e.listSlice(ns...)
	case *types.Struct:
		mm, ok := x.(map[string]any)
		s := e.zero(T).(*StructN)
		if !ok {
			return s
		}
		r := &StructN{f: append([]Node(nil), s.f...)}
		for i := range r.f {
			nm := jsonName(u, i)
			if nm == "" {
				continue
			}
			for k, v := range mm {
				if strings.EqualFold(k, nm) {
					r.f[i] = e.jsonNode(v, u.Field(i).Type())
				}
			}
		}
		return r
	case *types.Map:
		mm, ok := x.(map[string]any)
		if !ok {
			return e.Nil
		}
		mn := &MapN{}
		var ks []string
		for k := range mm {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			var kt *Term = e.Str(k)
			if b, ok := u.Key().Underlying().(*types.Basic); ok {
				if w, s, ok := intType(b); ok {
					v, _ := strconv.ParseInt(k, 10, 64)
					kt = e.IntT(v, w, s)
				}
			}
			mn.ents = append(mn.ents, MapEnt{kt, e.jsonNode(mm[k], u.Elem()), e.True, false})
		}
		o := e.newObjN("jsonmap", T, mn)
		return e.mk(&Term{k: KMap, n: int64(o.id)})
	}
	return e.zero(T)
}

// jsonName: the JSON name of an exported field ("" when not serialised).
func jsonName(u *types.Struct, i int) string {
	f := u.Field(i)
	if !ast.IsExported(f.Name()) {
		return ""
	}
	tag := reflect.StructTag(u.Tag(i)).Get("json")
	n, _, _ := strings.Cut(tag, ",")
	if tag == "-" {
		return ""
	}
	if n == "" {
		n = f.Name()
	}
	return n
}

// undeep rebuilds a value from its deep form (the inverse of serialisation).
func (e *Eng) undeep(d *Term, T types.Type, jsonMode bool) Node {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		return d
	case *types.Pointer:
		return e.app1S(d, func(l *Term) *Term {
			if l.k == KOp && (strings.HasPrefix(l.s, "rec:") || l.s == "arr") {
				o := e.newObjN("decoded", u.Elem(), e.undeep(l, u.Elem(), jsonMode))
				return e.Ptr(o.id)
			}
			if l.sort != SAny {
				o := e.newObjN("decoded", u.Elem(), e.undeep(l, u.Elem(), jsonMode))
				return e.Ptr(o.id)
			}
			return l
		})
	case *types.Slice:
		return e.app1S(d, func(l *Term) *Term {
			if l.sort == SStr {
				return e.bytesSlice(l)
			}
			if l.k == KOp && l.s == "list" {
				ls := &ListN{}
				for i := 0; i+1 < len(l.args); i += 2 {
					ls.items = append(ls.items, Item{l.args[i], e.undeep(l.args[i+1], u.Elem(), jsonMode)})
				}
				o := e.newObjN("merge", nil, ls)
				o.fresh = true
				return e.Slice(e.Ptr(o.id), e.Int(0), e.LenAll)
			}
			return l
		})
	case *types.Struct:
		if d.k == KIte {
			return e.mergeNode(e.atom(d.args[0]), e.undeep(d.args[1], T, jsonMode), e.undeep(d.args[2], T, jsonMode), nil, nil)
		}
		s := e.zero(T).(*StructN)
		if d.k != KOp || !strings.HasPrefix(d.s, "rec:") {
			return s
		}
		r := &StructN{f: append([]Node(nil), s.f...)}
		src, ok := d.x.(types.Type).Underlying().(*types.Struct)
		if !ok {
			return s
		}
		k := 0
		for i := 0; i < src.NumFields(); i++ {
			if skipField(src, i) {
				continue
			}
			v := d.args[k]
			k++
			// find the destination field
			for j := 0; j < u.NumFields(); j++ {
				if jsonMode {
					if n := jsonName(src, i); n == "" || n != jsonName(u, j) {
						continue
					}
				} else if src.Field(i).Name() != u.Field(j).Name() {
					continue
				}
				r.f[j] = e.undeep(v, u.Field(j).Type(), jsonMode)
			}
		}
		return r
	case *types.Map:
		if d.k == KOp && d.s == "mapents" {
			mn := &MapN{}
			for i := 0; i+2 < len(d.args); i += 3 {
				mn.ents = append(mn.ents, MapEnt{d.args[i+1], e.undeep(d.args[i+2], u.Elem(), jsonMode), d.args[i], false})
			}
			o := e.newObjN("decodedmap", T, mn)
			return e.mk(&Term{k: KMap, n: int64(o.id)})
		}
		if d.k == KOp && d.s == "map" {
			mn := &MapN{}
			if len(d.args) == 1 {
				mn.base = d.args[0]
			}
			o := e.newObjN("decodedmap", T, mn)
			return e.mk(&Term{k: KMap, n: int64(o.id)})
		}
	}
	return d
}

// ---- printing

func (e *Eng) show(t *Term) string {
	var sb strings.Builder
	e.showTo(&sb, t, 0)
	s := sb.String()
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

func (e *Eng) showTo(sb *strings.Builder, t *Term, d int) {
	if sb.Len() > 6000 {
		return
	}
	if t == nil {
		sb.WriteString("<nil>")
		return
	}
	if d > 40 {
		sb.WriteString("..")
		return
	}
	switch t.k {
	case KInt:
		fmt.Fprintf(sb, "%d", t.n)
	case KStr:
		fmt.Fprintf(sb, "%q", t.s)
	case KBool:
		fmt.Fprintf(sb, "%v", t.n == 1)
	case KFloat:
		fmt.Fprintf(sb, "%v", t.f)
	case KNil:
		sb.WriteString("nil")
	case KSym:
		sb.WriteString(t.s)
	case KIte:
		if t.args[1] == e.True && t.args[2] == e.False {
			e.showTo(sb, t.args[0], d+1)
			return
		}
		if t.args[1] == e.False && t.args[2] == e.True {
			sb.WriteString("!")
			e.showTo(sb, t.args[0], d+1)
			return
		}
		sb.WriteString("{")
		e.showTo(sb, t.args[0], d+1)
		sb.WriteString(" ? ")
		e.showTo(sb, t.args[1], d+1)
		sb.WriteString(" : ")
		e.showTo(sb, t.args[2], d+1)
		sb.WriteString("}")
	case KOp:
		switch {
		case t.s == "concat":
			for i, a := range t.args {
				if i > 0 {
					sb.WriteString("·")
				}
				e.showTo(sb, a, d+1)
			}
			return
		case t.s == "bits":
			n := len(t.args) - 1
			sb.WriteString("bits[" + t.args[n].s + "](")
			for _, a := range t.args[:n] {
				e.showTo(sb, a, d+1)
				sb.WriteString(",")
			}
			sb.WriteString(")")
			return
		case t.s == "lin":
			sb.WriteString("(")
			for i := 0; i+1 < len(t.args); i += 2 {
				fmt.Fprintf(sb, "%+d*", t.args[i].n)
				e.showTo(sb, t.args[i+1], d+1)
			}
			if t.n != 0 {
				fmt.Fprintf(sb, "%+d", t.n)
			}
			sb.WriteString(")")
			return
		case t.s == "list":
			sb.WriteString("[")
			for i := 0; i+1 < len(t.args); i += 2 {
				if t.args[i] != e.True {
					e.showTo(sb, t.args[i], d+1)
					sb.WriteString("=>")
				}
				e.showTo(sb, t.args[i+1], d+1)
				sb.WriteString("; ")
			}
			sb.WriteString("]")
			return
		case strings.HasPrefix(t.s, "rec:"):
			n := t.s[strings.LastIndexByte(t.s, '.')+1:]
			sb.WriteString(n + "{")
			if T, ok := t.x.(types.Type); ok {
				if u, ok := T.Underlying().(*types.Struct); ok {
					k := 0
					for i := 0; i < u.NumFields(); i++ {
						if skipField(u, i) {
							continue
						}
						a := t.args[k]
						k++
						if a == e.Nil || a == e.Empty || a == e.False || a.k == KInt && a.n == 0 || a.k == KOp && a.s == "list" && len(a.args) == 0 {
							continue
						}
						sb.WriteString(u.Field(i).Name() + ":")
						e.showTo(sb, a, d+1)
						sb.WriteString(" ")
					}
				}
			}
			sb.WriteString("}")
			return
		}
		sb.WriteString(t.s + "(")
		for i, a := range t.args {
			if i > 0 {
				sb.WriteString(",")
			}
			e.showTo(sb, a, d+1)
		}
		sb.WriteString(")")
	case KPtr:
		fmt.Fprintf(sb, "&%d", t.n)
		if int(t.n) < len(e.objs) {
			sb.WriteString("<" + e.objs[t.n].name + ">")
		}
		for _, a := range t.args {
			sb.WriteString(".")
			e.showTo(sb, a, d+1)
		}
	case KSlice, KTup, KIface:
		fmt.Fprintf(sb, "%s(", map[Kind]string{KSlice: "slice", KTup: "tup", KIface: "iface:" + t.s}[t.k])
		for _, a := range t.args {
			e.showTo(sb, a, d+1)
			sb.WriteString(",")
		}
		sb.WriteString(")")
	case KMap:
		fmt.Fprintf(sb, "map%d", t.n)
	case KChan:
		fmt.Fprintf(sb, "chan%d", t.n)
	case KFunc:
		sb.WriteString("func:" + t.s)
	default:
		fmt.Fprintf(sb, "?k%d", t.k)
	}
}
