package main

import (
	"go/token"
	"go/types"
	"strings"
)

// Output through the writer interfaces of the standard library.

// bufWr is a bufio.Writer of the modelled environment.
type bufWr struct {
	dst *Term
	buf *Term
	max int64
	err *Term
}

// writeIface writes data to a writer kept in an interface; ok = false: the writer is not modelled.
func (e *Eng) writeIface(c *CallCtx, dst, data *Term) (res *Term, ok bool) {
	if dst.k != KIface {
		return nil, false
	}
	switch types.TypeString(dst.x.(types.Type), nil) {
	case "*strings.Builder", "*bytes.Buffer":
		e.cellUpd(c, dst.args[0], func(old *Term) *Term { return e.Concat(old, data) })
		return e.Tup(e.StrLen(data), e.Nil), true
	case "*os.File":
		return e.Tup(e.StrLen(data), e.Nil), true // standard output
	}
	if w := e.world; w != nil {
		if cn := w.connOf(dst); cn != nil {
			return w.connWrite(cn, c.st, data, c.pos), true
		}
		if b := w.bwOf(dst); b != nil {
			return w.bufWrite(c, b, data), true
		}
	}
	return nil, false
}

func (e *Eng) sprintln(c *CallCtx, args *Term) *Term {
	its, ok := e.ifaceItems(args, c.st)
	if !ok {
		return e.strOp("sprintln?", args)
	}
	var ps []*Term
	for i, it := range its {
		if i > 0 {
			ps = append(ps, e.Str(" "))
		}
		ps = append(ps, e.app1S(it, func(l *Term) *Term { return e.fmtV(l, c.st) }))
	}
	return e.Concat(append(ps, e.Str("\n"))...)
}

func (w *World) bwOf(r *Term) *bufWr {
	if r.k == KIface {
		r = r.args[0]
	}
	if r.k == KPtr && len(r.args) == 0 {
		return w.bw[int(r.n)]
	}
	return nil
}

func (w *World) mustWrite(c *CallCtx, dst, data *Term) *Term {
	r, ok := w.writeIface(c, dst, data)
	if !ok {
		panic("world: " + c.name + " to a writer that is not modelled")
	}
	return r
}

func (w *World) bufWrite(c *CallCtx, b *bufWr, data *Term) *Term {
	n := w.StrLen(data)
	if b.err != nil {
		return w.Tup(w.Int(0), b.err)
	}
	for {
		have, more := w.StrLen(b.buf), w.StrLen(data)
		if have.k != KInt || more.k != KInt {
			panic("world: buffered write of unknown length")
		}
		if have.n+more.n <= b.max {
			b.buf = w.Concat(b.buf, data)
			return w.Tup(n, w.Nil)
		}
		out := data
		if have.n == 0 {
			data = w.Empty
		} else {
			out = w.Concat(b.buf, w.SubStr(data, w.Int(0), w.Int(b.max-have.n)))
			data = w.SubStr(data, w.Int(b.max-have.n), nil)
			b.buf = w.Empty
		}
		if err := w.mustWrite(c, b.dst, out).args[1]; err != w.Nil {
			b.err = err
			return w.Tup(w.Int(0), err)
		}
	}
}

func (w *World) bufFlush(c *CallCtx, b *bufWr) *Term {
	if b.err != nil {
		return b.err
	}
	if b.buf == w.Empty {
		return w.Nil
	}
	out := b.buf
	if err := w.mustWrite(c, b.dst, out).args[1]; err != w.Nil {
		b.err = err
		return err
	}
	b.buf = w.Empty
	return w.Nil
}

func init() {
	wm("bufio.NewWriter bufio.NewWriterSize", func(w *World, c *CallCtx) *Term {
		size := int64(4096)
		if len(c.args) > 1 {
			if c.args[1].k != KInt {
				panic("world: buffer of unknown size")
			}
			if size = c.args[1].n; size <= 0 {
				size = 4096
			}
		}
		if b := w.bwOf(c.args[0]); b != nil && b.max >= size {
			return c.args[0].args[0]
		}
		o := w.newObjN("bufio", nil, w.Nil)
		w.bw[o.id] = &bufWr{dst: c.args[0], buf: w.Empty, max: size}
		return w.Ptr(o.id)
	})
	bw := func(w *World, c *CallCtx) *bufWr {
		b := w.bwOf(c.args[0])
		if b == nil {
			panic("world: unknown writer in " + c.name)
		}
		return b
	}
	wm("(*bufio.Writer).Write", func(w *World, c *CallCtx) *Term {
		return w.bufWrite(c, bw(w, c), w.bytesTerm(c.args[1], c.st))
	})
	wm("(*bufio.Writer).WriteString", func(w *World, c *CallCtx) *Term { return w.bufWrite(c, bw(w, c), c.args[1]) })
	wm("(*bufio.Writer).WriteByte", func(w *World, c *CallCtx) *Term {
		return w.bufWrite(c, bw(w, c), w.chr(c.args[1])).args[1]
	})
	wm("(*bufio.Writer).Flush", func(w *World, c *CallCtx) *Term { return w.bufFlush(c, bw(w, c)) })
	wm("(*bufio.Writer).Buffered", func(w *World, c *CallCtx) *Term { return w.StrLen(bw(w, c).buf) })
	wm("(*bufio.Writer).Available", func(w *World, c *CallCtx) *Term {
		b := bw(w, c)
		return w.bin("sub", w.Int(b.max), w.StrLen(b.buf))
	})
	wm("(*bufio.Writer).Reset", func(w *World, c *CallCtx) *Term {
		b := bw(w, c)
		*b = bufWr{dst: c.args[1], buf: w.Empty, max: b.max}
		return nil
	})
	wm("(*net.Buffers).WriteTo", func(w *World, c *CallCtx) *Term {
		sl := w.nodeTerm(w.loadLeaf(c.args[0], c.st))
		n, ok := w.sliceNode(sl, c.st)
		l, ok2 := n.(*ListN)
		if !ok || !ok2 {
			panic("world: unknown buffers")
		}
		var ps []*Term
		for _, it := range l.items {
			if it.g != w.True {
				panic("world: unknown buffers")
			}
			ps = append(ps, w.bytesTerm(w.nodeTerm(it.v), c.st))
		}
		w.storeLeaf(c.args[0], w.Nil, c.st, w.True)
		t := w.Concat(ps...)
		if t == w.Empty {
			return w.Tup(w.Int(0), w.Nil)
		}
		return w.mustWrite(c, c.args[1], t)
	})
	wm("context.AfterFunc", func(w *World, c *CallCtx) *Term {
		x := w.ctxs[c.args[0]]
		if x == nil {
			panic("world: unknown context")
		}
		w.point(c.st)
		f := &ctxFunc{f: c.args[1], on: true}
		if x.done.closed {
			f.on = false
			w.spawnT(f.f, nil, c.pos, nil)
		} else {
			x.after = append(x.after, f)
		}
		return w.envFunc("stop", func(c *CallCtx) *Term {
			if c.st != nil {
				w.point(c.st)
			}
			was := f.on
			f.on = false
			return w.Bool(was)
		})
	})
}

// ctxFunc is a function registered with context.AfterFunc.
type ctxFunc struct {
	f  *Term
	on bool
}

// runAfter starts the functions waiting for a context that was just cancelled.
func (w *World) runAfter(x *wctx) {
	fs := x.after
	x.after = nil
	cur := w.cur
	if x.done.closeVC == nil {
		w.cur = nil // cancelled by the environment
	}
	for _, f := range fs {
		if f.on {
			f.on = false
			w.spawnT(f.f, nil, token.NoPos, nil).foreign = true
		}
	}
	w.cur = cur
}

func newBuffer(e *Eng, c *CallCtx, init *Term) *Term {
	p := c.sig.Results().At(0).Type().(*types.Pointer)
	o := e.newObjN("buffer", p.Elem(), init)
	return e.Ptr(o.id)
}

// effectFree reports external functions whose call cannot change anything the analysis tracks.
func effectFree(name string) bool {
	for _, p := range []string{"log.", "(*log.Logger).", "github.com/s00500/env_logger.", "(*github.com/s00500/env_logger.", "runtime.", "time.Sleep"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// writerModels registers the models usable without a world; they fail when the destination is unknown.
func writerModels(m func(names string, f ModelFn)) {
	type fm = func(e *Eng, c *CallCtx) (*Term, bool)
	pr := func(text func(e *Eng, c *CallCtx) *Term) fm {
		return func(e *Eng, c *CallCtx) (*Term, bool) { return e.writeIface(c, c.args[0], text(e, c)) }
	}
	m("io.WriteString", pr(func(e *Eng, c *CallCtx) *Term { return c.args[1] }))
	m("fmt.Fprintf", pr(func(e *Eng, c *CallCtx) *Term { return e.sprintf(c, c.args[1], c.args[2]) }))
	m("fmt.Fprint", pr(func(e *Eng, c *CallCtx) *Term { return e.sprint(c, c.args[1]) }))
	m("fmt.Fprintln", pr(func(e *Eng, c *CallCtx) *Term { return e.sprintln(c, c.args[1]) }))
	m("fmt.Sprintln", func(e *Eng, c *CallCtx) (*Term, bool) { return e.sprintln(c, c.args[0]), true })
	m("fmt.Print fmt.Printf fmt.Println", func(e *Eng, c *CallCtx) (*Term, bool) { return e.Tup(e.Int(0), e.Nil), true })
	m("fmt.Append", func(e *Eng, c *CallCtx) (*Term, bool) {
		return e.bytesSlice(e.Concat(e.bytesTerm(c.args[0], c.st), e.sprint(c, c.args[1]))), true
	})
	m("fmt.Appendf", func(e *Eng, c *CallCtx) (*Term, bool) {
		return e.bytesSlice(e.Concat(e.bytesTerm(c.args[0], c.st), e.sprintf(c, c.args[1], c.args[2]))), true
	})
	m("fmt.Appendln", func(e *Eng, c *CallCtx) (*Term, bool) {
		return e.bytesSlice(e.Concat(e.bytesTerm(c.args[0], c.st), e.sprintln(c, c.args[1]))), true
	})
	m("(*bytes.Buffer).WriteTo", func(e *Eng, c *CallCtx) (*Term, bool) {
		t := e.cellGet(c, c.args[0])
		if t == e.Empty {
			return e.Tup(e.Int(0), e.Nil), true
		}
		r, ok := e.writeIface(c, c.args[1], t)
		if ok {
			e.cellUpd(c, c.args[0], func(*Term) *Term { return e.Empty })
		}
		return r, ok
	})
	m("bytes.NewBufferString", func(e *Eng, c *CallCtx) (*Term, bool) {
		return newBuffer(e, c, c.args[0]), true
	})
	m("bytes.NewBuffer", func(e *Eng, c *CallCtx) (*Term, bool) {
		return newBuffer(e, c, e.bytesTerm(c.args[0], c.st)), true
	})
}
