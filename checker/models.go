package main

import (
	"encoding/base64"
	"fmt"
	"go/types"
	"math"
	"regexp"
	"strconv"
	"strings"
)

var stdModels = map[string]ModelFn{}

const spaceSet = " \t\n\v\f\r"

func nop(e *Eng, c *CallCtx) (*Term, bool) { return e.zeroRes(c), true }

func (e *Eng) zeroRes(c *CallCtx) *Term {
	r := c.sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return e.zeroT(r.At(0).Type())
	}
	return e.zeroT2(r)
}
func (e *Eng) zeroT2(r *types.Tuple) *Term {
	args := make([]*Term, r.Len())
	for i := range args {
		args[i] = e.zeroT(r.At(i).Type())
	}
	return e.Tup(args...)
}

var errType = types.Universe.Lookup("error").Type()
var errPtr = types.NewPointer(types.NewStruct(nil, nil))

// errVal is a non-nil error value described by args.
func (e *Eng) errVal(kind string, args ...*Term) *Term {
	return e.Iface(errPtr, e.Op("err:"+kind, SAny, 0, false, args...))
}

func m(names string, f ModelFn) {
	for _, n := range strings.Fields(names) {
		stdModels[n] = f
	}
}

func (e *Eng) strOp(name string, args ...*Term) *Term { return e.Op(name, SStr, 0, false, args...) }

// lift2 applies f to the leaves of the first argument when that stays small.
func (e *Eng) liftT(t *Term, f func(l *Term) *Term) *Term {
	if ddSize(t, map[*Term]bool{}, 400) > 400 {
		return f(t)
	}
	return e.app1S(t, f)
}

func init() {
	m("strings.Split", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[1].k != KStr {
			return nil, false
		}
		return e.splitM(c, c.args[0], c.args[1].s, -1), true
	})
	m("strings.SplitN", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[1].k != KStr || c.args[2].k != KInt {
			return nil, false
		}
		return e.splitM(c, c.args[0], c.args[1].s, int(c.args[2].n)), true
	})
	m("strings.Count", func(e *Eng, c *CallCtx) (*Term, bool) {
		sep := c.args[1]
		if sep.k != KStr || sep.s == "" {
			return nil, false
		}
		return e.app1S(c.args[0], func(l *Term) *Term {
			if ps, ok := e.Split(l, sep.s, -1); ok {
				return e.Int(int64(len(ps) - 1))
			}
			n := e.toLin(e.sliceLen(e.splitM(c, l, sep.s, -1), c.st))
			e.addLin(&n, e.Int(1), -1)
			return e.fromLin(n, 64, true)
		}), true
	})
	m("strings.Join", func(e *Eng, c *CallCtx) (*Term, bool) {
		return e.liftT(c.args[0], func(l *Term) *Term {
			n, ok := e.sliceNode(l, c.st)
			ls, ok2 := n.(*ListN)
			if !ok || !ok2 {
				return e.strOp("join", e.deep(l, c.st, types.NewSlice(types.Typ[types.String])), c.args[1])
			}
			return e.joinList(ls, c.args[1])
		}), true
	})
	m("strings.Contains", func(e *Eng, c *CallCtx) (*Term, bool) { return e.Contains(c.args[0], c.args[1]), true })
	m("strings.HasPrefix", func(e *Eng, c *CallCtx) (*Term, bool) { return e.HasPrefix(c.args[0], c.args[1]), true })
	m("strings.HasSuffix", func(e *Eng, c *CallCtx) (*Term, bool) { return e.HasSuffix(c.args[0], c.args[1]), true })
	m("strings.TrimSpace", func(e *Eng, c *CallCtx) (*Term, bool) {
		return e.TrimSet(c.args[0], spaceSet, true, true, "both"), true
	})
	m("strings.Trim", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[1].k != KStr {
			return nil, false
		}
		return e.TrimSet(c.args[0], c.args[1].s, true, true, "both"), true
	})
	m("strings.TrimLeft", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[1].k != KStr {
			return nil, false
		}
		return e.TrimSet(c.args[0], c.args[1].s, true, false, "left"), true
	})
	m("strings.TrimRight", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[1].k != KStr {
			return nil, false
		}
		return e.TrimSet(c.args[0], c.args[1].s, false, true, "right"), true
	})
	m("strings.TrimPrefix", func(e *Eng, c *CallCtx) (*Term, bool) {
		h := e.HasPrefix(c.args[0], c.args[1])
		if h == e.False {
			return c.args[0], true
		}
		cut := e.SubStr(e.constrain(c.args[0], h), e.StrLen(c.args[1]), nil)
		return e.ite(h, cut, c.args[0]), true
	})
	m("strings.TrimSuffix", func(e *Eng, c *CallCtx) (*Term, bool) {
		h := e.HasSuffix(c.args[0], c.args[1])
		if h == e.False {
			return c.args[0], true
		}
		t := e.constrain(c.args[0], h)
		cut := e.SubStr(t, e.Int(0), e.bin("sub", e.StrLen(t), e.StrLen(c.args[1])))
		return e.ite(h, cut, c.args[0]), true
	})
	m("strings.ReplaceAll", func(e *Eng, c *CallCtx) (*Term, bool) { return e.ReplaceAll(c.args[0], c.args[1], c.args[2]), true })
	m("strings.Replace", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[3].k == KInt && c.args[3].n < 0 {
			return e.ReplaceAll(c.args[0], c.args[1], c.args[2]), true
		}
		return e.liftT(c.args[0], func(l *Term) *Term {
			if l.k == KStr && c.args[1].k == KStr && c.args[2].k == KStr && c.args[3].k == KInt {
				return e.Str(strings.Replace(l.s, c.args[1].s, c.args[2].s, int(c.args[3].n)))
			}
			return e.strOp("replacen", l, c.args[1], c.args[2], c.args[3])
		}), true
	})
	m("strings.Cut", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[1].k != KStr {
			return nil, false
		}
		sep := c.args[1].s
		get := func(k int) *Term {
			return e.liftT(c.args[0], func(l *Term) *Term {
				ps, ok := e.Split(l, sep, 2)
				if ok {
					if len(ps) == 1 {
						return []*Term{l, e.Empty, e.False}[k]
					}
					return []*Term{ps[0], ps[1], e.True}[k]
				}
				f := e.Contains(l, c.args[1])
				switch k {
				case 0:
					return e.ite(f, e.strOp("cut0", l, c.args[1]), l)
				case 1:
					return e.ite(f, e.strOp("cut1", l, c.args[1]), e.Empty)
				}
				return f
			})
		}
		return e.Tup(get(0), get(1), get(2)), true
	})
	m("strings.Index strings.IndexByte strings.LastIndex", func(e *Eng, c *CallCtx) (*Term, bool) {
		n := c.args[1]
		if n.sort == SInt {
			if n.k != KInt {
				return nil, false
			}
			n = e.Str(string([]byte{byte(n.n)}))
		}
		if n.k != KStr {
			return nil, false
		}
		last := c.name == "strings.LastIndex"
		return e.liftT(c.args[0], func(l *Term) *Term {
			if l.k == KStr {
				if last {
					return e.Int(int64(strings.LastIndex(l.s, n.s)))
				}
				return e.Int(int64(strings.Index(l.s, n.s)))
			}
			if pos, ok := e.occ(l, n.s); ok {
				if len(pos) == 0 {
					return e.Int(-1)
				}
				p := pos[0]
				if last {
					p = pos[len(pos)-1]
				}
				ps := e.parts(l)
				var pre []*Term
				pre = append(pre, ps[:p[0]]...)
				pre = append(pre, e.Str(ps[p[0]].s[:p[1]]))
				return e.StrLen(e.Concat(pre...))
			}
			nm := "lastindex"
			if !last {
				if n.s != "" {
					return e.ite(e.Contains(l, n), e.StrLen(e.strOp("cut0", l, n)), e.Int(-1))
				}
				nm = "index"
			}
			r := e.Op(nm, SInt, 64, true, l, n)
			if !r.rok {
				r.rok, r.rlo, r.rhi = true, -1, 1<<33
			}
			return r
		}), true
	})
	m("strings.Repeat", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[1].k == KInt && c.args[1].n >= 0 && c.args[1].n < 4096 {
			var ts []*Term
			for i := int64(0); i < c.args[1].n; i++ {
				ts = append(ts, c.args[0])
			}
			return e.Concat(ts...), true
		}
		return e.strOp("repeat", c.args...), true
	})
	m("strings.ToUpper strings.ToLower", func(e *Eng, c *CallCtx) (*Term, bool) {
		up := c.name == "strings.ToUpper"
		return e.liftT(c.args[0], func(l *Term) *Term {
			if l.k == KStr {
				if up {
					return e.Str(strings.ToUpper(l.s))
				}
				return e.Str(strings.ToLower(l.s))
			}
			return e.strOp(c.name, l)
		}), true
	})
	m("strings.EqualFold", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[0].k == KStr && c.args[1].k == KStr {
			return e.Bool(strings.EqualFold(c.args[0].s, c.args[1].s)), true
		}
		return e.atom(e.Op("equalfold", SBool, 0, false, c.args...)), true
	})
	m("strings.Fields", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[0].k == KStr {
			var ts []*Term
			for _, s := range strings.Fields(c.args[0].s) {
				ts = append(ts, e.Str(s))
			}
			return e.strSlice(ts), true
		}
		return nil, false
	})
	// strings.Builder and bytes.Buffer: contents kept as one string
	bw := func(get func(e *Eng, c *CallCtx) *Term) ModelFn {
		return func(e *Eng, c *CallCtx) (*Term, bool) {
			p := c.args[0]
			t := get(e, c)
			if t == nil {
				return nil, false
			}
			e.cellUpd(c, p, func(old *Term) *Term { return e.Concat(old, t) })
			r := c.sig.Results()
			switch r.Len() {
			case 0:
				return nil, true
			case 1:
				return e.Nil, true
			}
			return e.Tup(e.StrLen(t), e.Nil), true
		}
	}
	m("(*strings.Builder).WriteString (*bytes.Buffer).WriteString", bw(func(e *Eng, c *CallCtx) *Term { return c.args[1] }))
	m("(*strings.Builder).Write (*bytes.Buffer).Write", bw(func(e *Eng, c *CallCtx) *Term { return e.bytesTerm(c.args[1], c.st) }))
	m("(*strings.Builder).WriteByte (*bytes.Buffer).WriteByte", bw(func(e *Eng, c *CallCtx) *Term { return e.chr(c.args[1]) }))
	m("(*strings.Builder).WriteRune (*bytes.Buffer).WriteRune", bw(func(e *Eng, c *CallCtx) *Term {
		return e.app1("int2str", c.args[1], func(v *Term) *Term {
			if v.k == KInt {
				return e.Str(string(rune(v.n)))
			}
			if lo, hi := e.rng(v); lo >= 0 && hi < 128 {
				return e.chr(e.conv(v, 8, false))
			}
			return e.Op("int2str", SStr, 0, false, v)
		})
	}))
	m("(*strings.Builder).Grow (*bytes.Buffer).Grow", nop)
	m("(*strings.Builder).String (*bytes.Buffer).String", func(e *Eng, c *CallCtx) (*Term, bool) { return e.cellGet(c, c.args[0]), true })
	m("(*bytes.Buffer).Bytes", func(e *Eng, c *CallCtx) (*Term, bool) { return e.bytesSlice(e.cellGet(c, c.args[0])), true })
	m("(*strings.Builder).Len (*bytes.Buffer).Len", func(e *Eng, c *CallCtx) (*Term, bool) { return e.StrLen(e.cellGet(c, c.args[0])), true })
	m("(*strings.Builder).Reset (*bytes.Buffer).Reset", func(e *Eng, c *CallCtx) (*Term, bool) {
		e.cellUpd(c, c.args[0], func(*Term) *Term { return e.Empty })
		return nil, true
	})

	// strconv
	m("strconv.Itoa", func(e *Eng, c *CallCtx) (*Term, bool) { return e.Itoa(c.args[0]), true })
	m("strconv.FormatInt strconv.FormatUint", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[1].k == KInt && c.args[1].n == 10 {
			return e.Itoa(c.args[0]), true
		}
		return e.app1(fmt.Sprintf("fmtint%d", c.args[1].id), c.args[0], func(l *Term) *Term {
			if l.k == KInt && c.args[1].k == KInt {
				if c.name == "strconv.FormatInt" {
					return e.Str(strconv.FormatInt(l.n, int(c.args[1].n)))
				}
				return e.Str(strconv.FormatUint(uint64(l.n), int(c.args[1].n)))
			}
			return e.strOp("fmtint", l, c.args[1])
		}), true
	})
	m("strconv.Atoi", func(e *Eng, c *CallCtx) (*Term, bool) {
		v, ok := e.Atoi(c.args[0])
		return e.Tup(v, e.ite(ok, e.Nil, e.errVal("atoi", c.args[0]))), true
	})
	m("strconv.ParseInt strconv.ParseUint", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[0].k == KStr && c.args[1].k == KInt && c.args[2].k == KInt {
			if c.name == "strconv.ParseInt" {
				v, err := strconv.ParseInt(c.args[0].s, int(c.args[1].n), int(c.args[2].n))
				return e.Tup(e.Int(v), e.errIf(err, c.args[0])), true
			}
			v, err := strconv.ParseUint(c.args[0].s, int(c.args[1].n), int(c.args[2].n))
			return e.Tup(e.IntT(int64(v), 64, false), e.errIf(err, c.args[0])), true
		}
		if c.args[1].k == KInt && c.args[1].n == 10 && c.args[2].k == KInt && (c.args[2].n == 64 || c.args[2].n == 0) && c.name == "strconv.ParseInt" {
			v, ok := e.Atoi(c.args[0])
			return e.Tup(v, e.ite(ok, e.Nil, e.errVal("atoi", c.args[0]))), true
		}
		ok := e.atom(e.Op(c.name+"ok", SBool, 0, false, c.args...))
		v := e.Op(c.name, SInt, 64, c.name == "strconv.ParseInt", c.args...)
		return e.Tup(v, e.ite(ok, e.Nil, e.errVal("parse", c.args[0]))), true
	})
	m("strconv.ParseFloat", func(e *Eng, c *CallCtx) (*Term, bool) {
		bits := c.args[1]
		v := e.liftT(c.args[0], func(l *Term) *Term { a, _ := e.parseFloat(l, bits); return a })
		ok := e.liftT(c.args[0], func(l *Term) *Term { _, a := e.parseFloat(l, bits); return a })
		return e.Tup(v, e.ite(ok, e.Nil, e.errVal("parsefloat", c.args[0]))), true
	})
	m("strconv.FormatFloat", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[1].k == KInt && c.args[2].k == KInt && c.args[3].k == KInt {
			return e.fmtFloat(c.args[0], byte(c.args[1].n), int(c.args[2].n), int(c.args[3].n)), true
		}
		return nil, false
	})
	m("strconv.Quote", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[0].k == KStr {
			return e.Str(strconv.Quote(c.args[0].s)), true
		}
		return e.strOp("quote", c.args[0]), true
	})
	m("strconv.FormatBool", func(e *Eng, c *CallCtx) (*Term, bool) { return e.ite(c.args[0], e.Str("true"), e.Str("false")), true })

	// fmt
	m("fmt.Sprintf", func(e *Eng, c *CallCtx) (*Term, bool) {
		return e.sprintf(c, c.args[0], c.args[1]), true
	})
	m("fmt.Sprint", func(e *Eng, c *CallCtx) (*Term, bool) { return e.sprint(c, c.args[0]), true })
	m("fmt.Errorf errors.New", func(e *Eng, c *CallCtx) (*Term, bool) { return e.errVal("new", c.args[0]), true })
	writerModels(m)
	m("(*strings.Reader).Len", func(e *Eng, c *CallCtx) (*Term, bool) { return nil, false })

	// regexp
	m("regexp.MustCompile", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[0].k != KStr {
			return nil, false
		}
		re, err := regexp.Compile(c.args[0].s)
		if err != nil {
			e.obls = append(e.obls, &Obl{"regexp does not compile", c.pos, c.st.g, c.fr.fn})
			c.dead = true
			return nil, true
		}
		o := e.newObjN("regexp:"+c.args[0].s, nil, &ExtN{re})
		return e.Ptr(o.id), true
	})
	m("(*regexp.Regexp).MatchString", func(e *Eng, c *CallCtx) (*Term, bool) {
		re := e.regexOf(c.args[0])
		if re == nil {
			return nil, false
		}
		return e.rxMatch(re, c.args[1]), true
	})
	m("regexp.MatchString", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[0].k != KStr {
			return nil, false
		}
		re, err := regexp.Compile(c.args[0].s)
		if err != nil {
			return e.Tup(e.False, e.errVal("regexp", c.args[0])), true
		}
		return e.Tup(e.rxMatch(re, c.args[1]), e.Nil), true
	})
	m("(*regexp.Regexp).FindStringSubmatch", func(e *Eng, c *CallCtx) (*Term, bool) {
		re := e.regexOf(c.args[0])
		if re == nil {
			return nil, false
		}
		return e.app1S(c.args[1], func(t *Term) *Term {
			r := e.Regex(re, t)
			if r.decided {
				if !r.match {
					return e.Nil
				}
				return e.strSlice(r.subs)
			}
			mt := e.atom(e.Op("rxmatch:"+re.String(), SBool, 0, false, t))
			subs := make([]*Term, re.NumSubexp()+1)
			for i := range subs {
				subs[i] = e.rxSub(re, i, t)
			}
			return e.ite(mt, e.strSlice(subs), e.Nil)
		}), true
	})
	m("(*regexp.Regexp).ReplaceAllString", func(e *Eng, c *CallCtx) (*Term, bool) {
		re := e.regexOf(c.args[0])
		if re == nil {
			return nil, false
		}
		return e.liftT(c.args[1], func(t *Term) *Term {
			if t.k == KStr && c.args[2].k == KStr {
				return e.Str(re.ReplaceAllString(t.s, c.args[2].s))
			}
			return e.strOp("rxreplace:"+re.String(), t, c.args[2])
		}), true
	})

	// base64
	m("(*encoding/base64.Encoding).EncodeToString", func(e *Eng, c *CallCtx) (*Term, bool) {
		t := e.bytesTerm(c.args[1], c.st)
		return e.liftT(t, func(t *Term) *Term {
			if t.k == KStr {
				return e.Str(base64.StdEncoding.EncodeToString([]byte(t.s)))
			}
			return e.strOp("b64", t)
		}), true
	})
	m("(*encoding/base64.Encoding).DecodeString", func(e *Eng, c *CallCtx) (*Term, bool) {
		v := e.liftT(c.args[1], func(l *Term) *Term { a, _ := e.unb64(l); return a })
		ok := e.liftT(c.args[1], func(l *Term) *Term { _, a := e.unb64(l); return a })
		sl := e.app1S(v, func(l *Term) *Term { return e.bytesSlice(l) })
		return e.Tup(sl, e.ite(ok, e.Nil, e.errVal("base64", c.args[1]))), true
	})

	// math
	fl := func(name string, f func(float64) float64) {
		m("math."+name, func(e *Eng, c *CallCtx) (*Term, bool) {
			return e.app1("math."+name, c.args[0], func(t *Term) *Term {
				if t.k == KFloat {
					return e.Float(f(t.f))
				}
				return e.Op("math."+name, SFloat, 64, true, t)
			}), true
		})
	}
	fl("Abs", math.Abs)
	fl("Ceil", math.Ceil)
	fl("Floor", math.Floor)
	fl("Round", math.Round)
	fl("Trunc", math.Trunc)
	fl("Sqrt", math.Sqrt)
	m("math.Max math.Min", func(e *Eng, c *CallCtx) (*Term, bool) {
		if c.args[0].k == KFloat && c.args[1].k == KFloat {
			if c.name == "math.Max" {
				return e.Float(math.Max(c.args[0].f, c.args[1].f)), true
			}
			return e.Float(math.Min(c.args[0].f, c.args[1].f)), true
		}
		return e.Op(c.name, SFloat, 64, true, c.args...), true
	})

	// logging and synchronisation
	for _, n := range []string{"Should", "ShouldWarn"} {
		m("github.com/s00500/env_logger."+n, func(e *Eng, c *CallCtx) (*Term, bool) {
			return e.Not(e.cmp("eq", c.args[0], e.Nil)), true
		})
	}
	m("github.com/s00500/env_logger.Indent", func(e *Eng, c *CallCtx) (*Term, bool) { return e.Empty, true })
	for _, n := range strings.Fields("Debug Debugf Debugln Info Infof Infoln Warn Warnf Warnln Warning Error Errorf Errorln Print Printf Println Trace Tracef Traceln WithError") {
		m("github.com/s00500/env_logger."+n, nop)
		m("(*github.com/s00500/env_logger.Entry)."+n, nop)
		m("log."+n, nop)
	}
	lock := func(kind string) ModelFn {
		return func(e *Eng, c *CallCtx) (*Term, bool) {
			e.event(kind, c.pos, c.fr, c.st, c.args[0])
			return nil, true
		}
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		for _, n := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
			m("(*sync."+t+")."+n, lock(strings.ToLower(n)))
		}
	}
	m("(*sync.WaitGroup).Add", func(e *Eng, c *CallCtx) (*Term, bool) {
		e.event("wgadd", c.pos, c.fr, c.st, c.args...)
		return nil, true
	})
	m("(*sync.WaitGroup).Done", func(e *Eng, c *CallCtx) (*Term, bool) {
		e.event("wgadd", c.pos, c.fr, c.st, c.args[0], e.Int(-1))
		return nil, true
	})
	m("(*go.uber.org/atomic.Bool).Load (*sync/atomic.Bool).Load", func(e *Eng, c *CallCtx) (*Term, bool) {
		return e.constrain(e.atomicGet(c, c.args[0]), c.st.g), true
	})
	m("(*go.uber.org/atomic.Bool).Store (*sync/atomic.Bool).Store", func(e *Eng, c *CallCtx) (*Term, bool) {
		e.event("atomicstore", c.pos, c.fr, c.st, c.args...)
		for _, gl := range e.leaves(c.args[0], c.st.g) {
			if gl.v.k == KPtr {
				e.storeLeaf(gl.v, c.args[1], c.st, e.constrain(gl.g, c.st.g))
			}
		}
		return nil, true
	})

	// third party helpers
	m("github.com/SKAARHOJ/ibeam-lib-utils.StringImplodeRemoveTrailingEmpty rpspec.TrimJoin", func(e *Eng, c *CallCtx) (*Term, bool) {
		n, ok := e.sliceNode(c.args[0], c.st)
		ls, ok2 := n.(*ListN)
		if !ok || !ok2 || c.args[1].k != KStr {
			return nil, false
		}
		args := []*Term{c.args[1]}
		allc := true
		for _, it := range ls.items {
			t := e.nodeTerm(e.force(it.v))
			if it.g != e.True {
				return nil, false
			}
			if t.k != KStr {
				allc = false
			}
			args = append(args, t)
		}
		if allc {
			return e.Str(trimJoin(args)), true
		}
		return e.strOp("trimjoin", args...), true
	})
	m("github.com/SKAARHOJ/ibeam-lib-utils.StripEmptyJSONObjects", func(e *Eng, c *CallCtx) (*Term, bool) {
		old := e.load(c.fr, c.args[0], c.st, c.pos, types.Typ[types.String])
		e.store(c.fr, c.args[0], e.liftT(old, func(l *Term) *Term { return e.strOp("stripjson", l) }), c.st, c.pos, types.Typ[types.String])
		return nil, true
	})
	m("time.Now", func(e *Eng, c *CallCtx) (*Term, bool) {
		e.uniq++
		return e.Sym(fmt.Sprintf("now#%d", e.uniq), SAny, 0, false), true
	})
	m("(time.Time).UnixNano", func(e *Eng, c *CallCtx) (*Term, bool) { return e.Op("unixnano", SInt, 64, true, c.args[0]), true })
	m("(time.Time).Add", func(e *Eng, c *CallCtx) (*Term, bool) { return e.Op("time.add", SAny, 0, false, c.args...), true })
	m("time.Sleep", func(e *Eng, c *CallCtx) (*Term, bool) {
		e.event("sleep", c.pos, c.fr, c.st, c.args[0])
		return nil, true
	})
	m("math/rand.New math/rand.NewSource", func(e *Eng, c *CallCtx) (*Term, bool) {
		e.uniq++
		o := e.newObjN("rand", nil, e.Nil)
		return e.Ptr(o.id), true
	})
	m("(*math/rand.Rand).Intn math/rand.Intn (*math/rand.Rand).Int63n math/rand.Int63n", func(e *Eng, c *CallCtx) (*Term, bool) {
		e.uniq++
		n := c.args[len(c.args)-1]
		hi := int64(math.MaxInt64)
		if n.k == KInt {
			hi = n.n - 1
		}
		// the first draws are arbitrary; later ones are taken not to repeat any earlier draw
		if e.draws++; e.symDraws > 0 && hi > 1<<16 {
			if e.draws > e.symDraws {
				return e.Int(hi - int64(e.draws)), true
			}
			hi -= 1 << 15
		}
		return e.SymIntR(fmt.Sprintf("rand#%d", e.uniq), 64, true, 0, hi), true
	})

	// protobuf and JSON
	m("google.golang.org/protobuf/proto.Marshal", func(e *Eng, c *CallCtx) (*Term, bool) {
		d := e.deepI(c.args[0], c.st)
		return e.Tup(e.bytesSlice(e.strOp("pb", d)), e.Nil), true
	})
	m("google.golang.org/protobuf/proto.Size", func(e *Eng, c *CallCtx) (*Term, bool) {
		return e.StrLen(e.strOp("pb", e.deepI(c.args[0], c.st))), true
	})
	m("google.golang.org/protobuf/proto.Clone", func(e *Eng, c *CallCtx) (*Term, bool) { return nil, false })
	m("google.golang.org/protobuf/proto.Equal", func(e *Eng, c *CallCtx) (*Term, bool) {
		a, b := e.deepI(c.args[0], c.st), e.deepI(c.args[1], c.st)
		return e.deepEq(a, b), true
	})
	m("encoding/json.Marshal", func(e *Eng, c *CallCtx) (*Term, bool) {
		return e.Tup(e.bytesSlice(e.strOp("json", e.deepI(c.args[0], c.st))), e.Nil), true
	})
	m("encoding/json.MarshalIndent", func(e *Eng, c *CallCtx) (*Term, bool) {
		return e.Tup(e.bytesSlice(e.strOp("jsonindent", e.deepI(c.args[0], c.st), c.args[1], c.args[2])), e.Nil), true
	})
	m("encoding/json.Unmarshal", func(e *Eng, c *CallCtx) (*Term, bool) {
		return e.unmarshal(c, "json", e.bytesTerm(c.args[0], c.st), c.args[1]), true
	})
	m("google.golang.org/protobuf/proto.Unmarshal", func(e *Eng, c *CallCtx) (*Term, bool) {
		return e.unmarshal(c, "pb", e.bytesTerm(c.args[0], c.st), c.args[1]), true
	})
}

func trimJoin(args []*Term) string {
	var ss []string
	for _, a := range args[1:] {
		ss = append(ss, a.s)
	}
	for len(ss) > 0 && ss[len(ss)-1] == "" {
		ss = ss[:len(ss)-1]
	}
	return strings.Join(ss, args[0].s)
}

func (e *Eng) errIf(err error, args ...*Term) *Term {
	if err == nil {
		return e.Nil
	}
	return e.errVal("x", args...)
}

func (e *Eng) parseFloat(l, bits *Term) (*Term, *Term) {
	if l.k == KStr && bits.k == KInt {
		v, err := strconv.ParseFloat(l.s, int(bits.n))
		return e.Float(v), e.Bool(err == nil)
	}
	if l.k == KOp && l.s == "itoa" {
		return e.Op("i2f", SFloat, 64, true, e.conv(l.args[0], 64, true)), e.True
	}
	ok := e.atom(e.Op("parsefloatok", SBool, 0, false, l, bits))
	// a sign-and-digits hole with a decimal point always parses
	good := true
	for _, p := range e.parts(l) {
		if p.k == KStr {
			if p.s != "." {
				good = false
			}
			continue
		}
		cs := e.csetOf(p)
		if cs.in != "0123456789" || cs.min < 1 {
			if !(p.k == KOp && p.s == "itoa") {
				good = false
			}
		}
	}
	if good {
		return e.Op("parsefloat", SFloat, 64, true, l, bits), e.True
	}
	return e.ite(ok, e.Op("parsefloat", SFloat, 64, true, l, bits), e.Float(0)), ok
}

func (e *Eng) fmtFloat(t *Term, f byte, prec, bits int) *Term {
	return e.app1(fmt.Sprintf("ftoa:%c:%d:%d", f, prec, bits), t, func(t *Term) *Term {
		if t.k == KFloat {
			return e.Str(strconv.FormatFloat(t.f, f, prec, bits))
		}
		return e.strOp("ftoa", t, e.Int(int64(f)), e.Int(int64(prec)), e.Int(int64(bits)))
	})
}

func (e *Eng) unb64(l *Term) (*Term, *Term) {
	if l.k == KOp && l.s == "b64" {
		return l.args[0], e.True
	}
	if l.k == KStr {
		b, err := base64.StdEncoding.DecodeString(l.s)
		return e.Str(string(b)), e.Bool(err == nil)
	}
	ok := e.atom(e.Op("b64ok", SBool, 0, false, l))
	return e.strOp("unb64", l), ok
}

func (e *Eng) joinList(ls *ListN, sep *Term) *Term {
	allT := true
	for _, it := range ls.items {
		if it.g != e.True {
			allT = false
		}
	}
	var ps []*Term
	any := e.False
	for i, it := range ls.items {
		v := e.nodeTerm(e.force(it.v))
		if allT {
			if i > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, v)
			continue
		}
		x := e.ite(any, e.Concat(sep, v), v)
		ps = append(ps, e.ite(it.g, x, e.Empty))
		any = e.Or(any, it.g)
	}
	return e.Concat(ps...)
}

func (e *Eng) splitM(c *CallCtx, t *Term, sep string, n int) *Term {
	r := e.app1S(t, func(l *Term) *Term {
		if ps, ok := e.Split(l, sep, n); ok {
			return e.strSlice(ps)
		}
		// unknown number of fields: at least one, bounded by the analysis
		b := e.splitBound
		if n > 0 {
			b = n
		}
		name := fmt.Sprintf("split:%s:%d", sep, n)
		ln := e.Op(name+":len", SInt, 64, true, l)
		if !ln.rok {
			ln.rok, ln.rlo, ln.rhi = true, 1, int64(b)
		}
		if n < 0 {
			e.note(fmt.Sprintf("split of an unconstrained string bounded to %d fields", b))
		}
		ls := &ListN{}
		for i := 0; i < b; i++ {
			if i == 0 && n != 1 && sep != "" && sep != "\n" {
				ls.items = append(ls.items, Item{e.True, e.ite(e.Contains(l, e.Str(sep)), e.strOp("cut0", l, e.Str(sep)), l)})
				continue
			}
			if i == 1 && n == 2 && sep != "" && sep != "\n" {
				ls.items = append(ls.items, Item{e.Not(e.ltConst(ln, 2)), e.strOp("cut1", l, e.Str(sep))})
				continue
			}
			ls.items = append(ls.items, Item{e.Not(e.ltConst(ln, int64(i+1))), e.strOp("field:"+sep, l, e.Int(int64(i)), e.Int(int64(n)))})
		}
		o := e.newObjN("split", nil, ls)
		o.fresh = true
		return e.Slice(e.Ptr(o.id), e.Int(0), e.LenAll)
	})
	return r
}

// one-string memory cells (strings.Builder, bytes.Buffer)
func (e *Eng) cellGet(c *CallCtx, p *Term) *Term {
	var acc, accG *Term
	for _, gl := range e.leaves(p, c.st.g) {
		t := e.Empty
		if gl.v.k == KPtr {
			n := e.loadLeaf(gl.v, c.st)
			if x, ok := n.(*Term); ok && x.sort == SStr {
				t = x
			}
		}
		if acc == nil {
			acc, accG = t, gl.g
			continue
		}
		g := e.Or(accG, gl.g)
		acc = e.ite(e.constrain(accG, g), acc, t)
		accG = g
	}
	if acc == nil {
		return e.Empty
	}
	return e.constrain(acc, c.st.g)
}
func (e *Eng) cellUpd(c *CallCtx, p *Term, f func(*Term) *Term) {
	for _, gl := range e.leaves(p, c.st.g) {
		if gl.v.k != KPtr {
			continue
		}
		old := e.Empty
		if x, ok := e.loadLeaf(gl.v, c.st).(*Term); ok && x.sort == SStr {
			old = x
		}
		e.storeLeaf(gl.v, f(old), c.st, e.constrain(gl.g, c.st.g))
	}
}
func (e *Eng) atomicGet(c *CallCtx, p *Term) *Term {
	for _, gl := range e.leaves(p, c.st.g) {
		if gl.v.k == KPtr {
			if x, ok := e.loadLeaf(gl.v, c.st).(*Term); ok && x.sort == SBool {
				return x
			}
			return e.False
		}
	}
	return e.unknownBool("atomic")
}

func (e *Eng) regexOf(p *Term) *regexp.Regexp {
	if p.k == KPtr {
		if n, ok := e.objs[p.n].cache.(*ExtN); ok {
			if re, ok := n.x.(*regexp.Regexp); ok {
				return re
			}
		}
	}
	return nil
}
func (e *Eng) rxMatch(re *regexp.Regexp, t *Term) *Term {
	return e.app1("rxm:"+re.String(), t, func(t *Term) *Term {
		r := e.Regex(re, t)
		if r.decided {
			return e.Bool(r.match)
		}
		return e.atom(e.Op("rxmatch:"+re.String(), SBool, 0, false, t))
	})
}
func (e *Eng) rxSub(re *regexp.Regexp, i int, t *Term) *Term {
	r := e.Op("rxsub:"+strconv.Itoa(i)+":"+re.String(), SStr, 0, false, t)
	if r.x == nil {
		r.x = re
	}
	return r
}

// ---- formatting

func (e *Eng) ifaceItems(s *Term, st *State) ([]*Term, bool) {
	n, ok := e.sliceNode(s, st)
	if !ok {
		return nil, false
	}
	ls, ok := n.(*ListN)
	if !ok {
		return nil, false
	}
	var out []*Term
	for _, it := range ls.items {
		if it.g != e.True {
			return nil, false
		}
		out = append(out, e.nodeTerm(e.force(it.v)))
	}
	return out, true
}

func (e *Eng) fmtV(v *Term, st *State) *Term {
	if v.k == KIface {
		t := v.x.(types.Type)
		x := v.args[0]
		if b, ok := t.Underlying().(*types.Basic); ok {
			if _, isNamed := t.(*types.Named); isNamed {
				if fn := e.prog.LookupMethod(t, nil, "String"); fn != nil {
					return e.enumString(fn, x, st)
				}
			}
			switch {
			case b.Info()&types.IsString != 0:
				return x
			case b.Info()&types.IsInteger != 0:
				return e.Itoa(x)
			case b.Info()&types.IsBoolean != 0:
				return e.ite(x, e.Str("true"), e.Str("false"))
			case b.Kind() == types.Float32:
				return e.fmtFloat(x, 'g', -1, 32)
			case b.Info()&types.IsFloat != 0:
				return e.fmtFloat(x, 'g', -1, 64)
			}
		}
		if ms := e.prog.MethodSets.MethodSet(t); ms.Lookup(nil, "String") == nil && ms.Lookup(nil, "Error") == nil {
			pt, isPtr := t.Underlying().(*types.Pointer)
			if _, ok := t.Underlying().(*types.Struct); ok {
				return e.Concat(e.Str("{"), e.strOp("fmt:%v", e.deep(x, st, t)), e.Str("}"))
			}
			if isPtr {
				if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
					return e.liftT(x, func(x *Term) *Term {
						if x == e.Nil {
							return e.Str("<nil>")
						}
						if x.k != KPtr {
							return e.strOp("fmt:%v", x)
						}
						return e.Concat(e.Str("&{"), e.strOp("fmt:%v", e.deep(x, st, t)), e.Str("}"))
					})
				}
			}
		}
		return e.strOp("fmt:%v", e.deep(x, st, t))
	}
	return e.strOp("fmt:%v", v)
}

func (e *Eng) sprint(c *CallCtx, args *Term) *Term {
	its, ok := e.ifaceItems(args, c.st)
	if !ok {
		return e.strOp("sprint?", args)
	}
	if len(its) == 1 {
		return e.app1S(its[0], func(l *Term) *Term { return e.fmtV(l, c.st) })
	}
	var ps []*Term
	for i, it := range its {
		if i > 0 && !isStrIface(it) && !isStrIface(its[i-1]) {
			ps = append(ps, e.Str(" "))
		}
		ps = append(ps, e.app1S(it, func(l *Term) *Term { return e.fmtV(l, c.st) }))
	}
	return e.Concat(ps...)
}
func isStrIface(t *Term) bool {
	return t.k == KIface && isStringType(t.x.(types.Type))
}

func (e *Eng) sprintf(c *CallCtx, f, args *Term) *Term {
	if f.k == KIte {
		return e.app1S(f, func(l *Term) *Term { return e.sprintf(c, l, args) })
	}
	its, ok := e.ifaceItems(args, c.st)
	if f.k != KStr || !ok {
		e.note("imprecise: Sprintf format")
		return e.strOp("sprintf?", f, args)
	}
	var ps []*Term
	s := f.s
	ai := 0
	for s != "" {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			ps = append(ps, e.Str(s))
			break
		}
		ps = append(ps, e.Str(s[:i]))
		s = s[i:]
		j := 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			ps = append(ps, e.Str("%!(NOVERB)"))
			break
		}
		spec := s[:j+1]
		s = s[j+1:]
		if spec == "%%" {
			ps = append(ps, e.Str("%"))
			continue
		}
		if ai >= len(its) {
			ps = append(ps, e.Str("%!"+spec[len(spec)-1:]+"(MISSING)"))
			continue
		}
		a := its[ai]
		ai++
		ps = append(ps, e.app1S(a, func(l *Term) *Term { return e.fmtOne(spec, l, c.st) }))
	}
	return e.Concat(ps...)
}

func (e *Eng) fmtOne(spec string, v *Term, st *State) *Term {
	if v.k != KIface {
		return e.strOp("fmt:"+spec, v)
	}
	t := v.x.(types.Type)
	x := v.args[0]
	b, _ := t.Underlying().(*types.Basic)
	switch {
	case spec == "%v" || spec == "%s" && b != nil && b.Info()&types.IsString != 0 || spec == "%d" && b != nil && b.Info()&types.IsInteger != 0:
		if spec == "%d" {
			return e.Itoa(x)
		}
		return e.fmtV(v, st)
	case spec == "%s" && b != nil && b.Info()&types.IsInteger != 0:
		return e.fmtV(v, st)
	case spec == "%t":
		return e.ite(x, e.Str("true"), e.Str("false"))
	case spec == "%s" && b == nil:
		if sl, ok := t.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			return e.bytesTerm(x, st)
		}
	}
	verb := spec[len(spec)-1]
	if (verb == 'f' || verb == 'g' || verb == 'e') && b != nil && b.Info()&types.IsFloat != 0 {
		prec := 6
		if verb == 'g' {
			prec = -1
		}
		if i := strings.IndexByte(spec, '.'); i >= 0 {
			p, err := strconv.Atoi(spec[i+1 : len(spec)-1])
			if err == nil && (i == 1) {
				prec = p
				bits := 64
				if b.Kind() == types.Float32 {
					bits = 32
				}
				return e.fmtFloat(x, verb, prec, bits)
			}
		} else if len(spec) == 2 {
			return e.fmtFloat(x, verb, prec, 64)
		}
	}
	return e.app1("fmt:"+spec, x, func(x *Term) *Term {
		switch x.k {
		case KInt:
			if x.w == 64 && !x.sgn {
				return e.Str(fmt.Sprintf(spec, uint64(x.n)))
			}
			return e.Str(fmt.Sprintf(spec, x.n))
		case KStr:
			return e.Str(fmt.Sprintf(spec, x.s))
		case KFloat:
			return e.Str(fmt.Sprintf(spec, x.f))
		}
		return e.strOp("fmt:"+spec, x)
	})
}

// ---- images in PNG data: kept as they are

func init() {
	method := func(e *Eng, c *CallCtx, v *Term, name string, args ...*Term) (*Term, bool) {
		if v.k != KIface {
			return nil, false
		}
		fn := e.prog.LookupMethod(v.x.(types.Type), nil, name)
		if fn == nil {
			return nil, false
		}
		return e.callStatic(c.fr, fn, nil, append([]*Term{v.args[0]}, args...), c.st, c.pos, fn.Signature.Results())
	}
	enc := func(e *Eng, c *CallCtx) (*Term, bool) {
		dst, img := c.args[len(c.args)-2], c.args[len(c.args)-1]
		bf := e.prog.ImportedPackage("rpspec").Func("ConvBounds")
		b, ok := e.callStatic(c.fr, bf, nil, []*Term{img}, c.st, c.pos, bf.Signature.Results())
		if !ok {
			return nil, false
		}
		for i := 0; i < 2; i++ {
			lo, hi := b.args[i], b.args[i+2]
			if lo.k != KInt || hi.k != KInt {
				return nil, false
			}
			if hi.n <= lo.n {
				return e.Op("pngerror", SAny, 0, false), true // such an image has no PNG form
			}
		}
		e.pngs = append(e.pngs, img)
		data := e.Str(fmt.Sprintf("\x89PNG%08d", len(e.pngs)-1))
		r, ok := method(e, c, dst, "Write", e.bytesSlice(data))
		if !ok {
			return nil, false
		}
		return r.args[1], true
	}
	m("image/png.Encode (*image/png.Encoder).Encode", enc)
	m("rpspec.PngDecode", func(e *Eng, c *CallCtx) (*Term, bool) {
		t := e.bytesTerm(c.args[0], c.st)
		if t.k == KStr {
			for i, img := range e.pngs {
				if t.s == fmt.Sprintf("\x89PNG%08d", i) {
					return img, true
				}
			}
		}
		return e.Nil, true
	})
}
