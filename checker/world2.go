package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type wModel func(w *World, c *CallCtx) *Term

var worldM = map[string]wModel{}

func wm(names string, f wModel) {
	for _, n := range strings.Fields(names) {
		worldM[n] = f
	}
}

// errors of the modelled environment
func (w *World) err(kind string) *Term {
	e := w.Eng
	if e.worldErrs == nil {
		e.worldErrs = map[string]*Term{}
	}
	t := e.worldErrs[kind]
	if t == nil {
		o := e.newObjN("error "+kind, nil, e.Nil)
		o.x = kind
		var dt types.Type = errDyn
		switch kind {
		case "timeout", "closed", "refused", "reset":
			if p := e.prog.ImportedPackage("net"); p != nil {
				dt = types.NewPointer(p.Type("OpError").Type())
			}
		}
		t = e.Iface(dt, e.Ptr(o.id))
		e.worldErrs[kind] = t
	}
	return t
}
func (w *World) errKind(t *Term) string {
	if t.k == KIface && t.args[0].k == KPtr {
		if k, ok := w.objs[t.args[0].n].x.(string); ok {
			return k
		}
	}
	return ""
}

var errGlobals = [][3]string{{"io", "EOF", "eof"}, {"io", "ErrUnexpectedEOF", "uneof"}, {"net", "ErrClosed", "netclosed"}, {"os", "ErrDeadlineExceeded", "deadline"},
	{"context", "Canceled", "canceled"}, {"context", "DeadlineExceeded", "ctxdeadline"}, {"bufio", "ErrTooLong", "toolong"}, {"bufio", "ErrBufferFull", "bufferfull"},
	{"io", "ErrNoProgress", "noprogress"}, {"io", "ErrClosedPipe", "pipe"}}

func (w *World) initGlobals(st *State) {
	for _, g := range errGlobals {
		if p := w.prog.ImportedPackage(g[0]); p != nil {
			if v := p.Var(g[1]); v != nil {
				st.mem = st.mem.set(w.globalObj(v), w.err(g[2]))
			}
		}
	}
}

// worldModels connects the analysis to the environment automaton.
func (s *Scenario) worldModels() {
	e := s.Eng
	s.callHook = func(_ *Eng, c *CallCtx) (*Term, bool) {
		w := e.world
		if w == nil {
			return nil, false
		}
		if strings.HasPrefix(c.name, "opaque:") {
			if f := w.funcs[c.name]; f != nil {
				return f(c), true
			}
			return nil, false
		}
		if f := worldM[c.name]; f != nil {
			return f(w, c), true
		}
		if f := w.localM[c.name]; f != nil {
			return f(w, c), true
		}
		if strings.Contains(c.name, "sync/atomic.") || strings.Contains(c.name, "go.uber.org/atomic.") {
			return w.atomic(c)
		}
		for _, p := range []string{"(*net.TCPConn).", "(*net.conn).", "(*net.UnixConn)."} {
			if strings.HasPrefix(c.name, p) {
				return w.connCall(c, c.args[0], c.name[len(p):], c.args[1:])
			}
		}
		return nil, false
	}
	s.invokeHook = func(_ *Eng, c *CallCtx, recv *Term, m *types.Func) (*Term, bool) {
		w := e.world
		if w == nil || recv.k != KIface {
			return nil, false
		}
		if cn := w.connOf(recv); cn != nil {
			return w.connCall(c, recv, m.Name(), c.args)
		}
		if x := w.ctxs[recv]; x != nil {
			switch m.Name() {
			case "Done":
				return x.done.term, true
			case "Err":
				w.point(c.st)
				if x.done.closed {
					joinVC(w.cur.vc, x.done.closeVC)
					if x.cause == "deadline" {
						return w.err("ctxdeadline"), true
					}
					return w.err("canceled"), true
				}
				return w.Nil, true
			case "Deadline":
				return w.Tup(w.timeT(0), w.False), true
			case "Value":
				return w.Nil, true
			}
		}
		if k := w.errKind(recv); k != "" {
			switch m.Name() {
			case "Error":
				return w.Str("error: " + k), true
			case "Timeout":
				return w.Bool(k == "timeout" || k == "deadline"), true
			case "Temporary":
				return w.Bool(k == "timeout"), true
			}
		}
		if types.Identical(recv.x.(types.Type), addrDyn) {
			return w.Str("192.0.2.1:9923"), true
		}
		if dt := types.TypeString(recv.x.(types.Type), nil); dt == "*bufio.Reader" || dt == "*bufio.Writer" {
			c2 := *c
			c2.args = append([]*Term{recv.args[0]}, c.args...)
			if f := worldM["("+dt+")."+m.Name()]; f != nil {
				return f(w, &c2), true
			}
		}
		return nil, false
	}
	s.chanHook = func(_ *Eng, kind string, ch, v *Term, st *State, pos token.Pos, typ types.Type) *Term {
		w := e.world
		c := w.chanOf(ch)
		switch kind {
		case "close":
			w.point(st)
			if c == nil || c.closed {
				w.obls = append(w.obls, &Obl{"close of closed or nil channel", pos, st.g, nil})
				w.stop("panic")
			}
			c.closed = true
			c.closeVC = copyVC(w.cur.vc)
			w.tick(w.cur)
			return nil
		case "send":
			w.chanOp(st, []ccase{{c, true, v, pos}}, true, nil, pos)
			return nil
		}
		r := w.chanOp(st, []ccase{{c, false, nil, pos}}, true, nil, pos)
		val := r.val
		if tt, ok := typ.(*types.Tuple); ok {
			if val == nil {
				val = w.zeroT(tt.At(0).Type())
			}
			return w.Tup(val, w.Bool(r.ok))
		}
		if val == nil {
			val = w.zeroT(typ)
		}
		return val
	}
	s.selectHook = func(_ *Eng, fr *Frame, in *ssa.Select, st *State) (*Term, bool) {
		w := e.world
		var cs []ccase
		for _, x := range in.States {
			c := ccase{ch: w.chanOf(e.constrain(e.val(fr, x.Chan), st.g)), send: x.Dir == types.SendOnly, pos: in.Pos()}
			if c.send {
				c.val = e.constrain(e.val(fr, x.Send), st.g)
			}
			cs = append(cs, c)
		}
		r := w.chanOp(st, cs, in.Blocking, fr, in.Pos())
		out := []*Term{w.Int(int64(r.idx)), w.Bool(r.ok)}
		for i, x := range in.States {
			if x.Dir == types.SendOnly {
				continue
			}
			et := x.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == r.idx && r.val != nil {
				out = append(out, r.val)
			} else {
				out = append(out, w.zeroT(et))
			}
		}
		return w.Tup(out...), true
	}
	s.goHook = func(_ *Eng, c *CallCtx, fnv *Term) {
		w := e.world
		w.spawnT(fnv, c.args, c.pos, c.fr)
		w.point(c.st)
	}
}

func (e *Eng) worldMap(m *Term, write bool, pos token.Pos) {
	if e.world != nil && m.k == KMap {
		e.world.accessed(int(m.n), "[]", write, pos)
	}
}

// ---- byte buffers

// putBytes overwrites part of the array behind a byte slice.
func (w *World) putBytes(dst *Term, off int64, data *Term, st *State) {
	n := w.StrLen(data)
	if n.k == KInt && n.n == 0 {
		return
	}
	if dst.k != KSlice || n.k != KInt || dst.args[1].k != KInt {
		panic("world: bytes written to unknown place " + w.show(dst))
	}
	p := dst.args[0]
	lo := dst.args[1].n + off
	w.accPtr(p, true, token.NoPos)
	nd := w.force(w.loadLeaf(p, st))
	switch x := nd.(type) {
	case *ArrN:
		if x.n <= 256 {
			for i := int64(0); i < n.n; i++ {
				x = x.with(int(lo+i), w.CharAt(data, w.Int(i)))
			}
			w.storeLeaf(p, x, st, w.True)
			return
		}
		nd = &BytesN{w.arrStr(x, 0, x.n)}
	case *ListN:
		if t, ok := w.listStr(x); ok {
			nd = &BytesN{t}
		}
	}
	b, ok := nd.(*BytesN)
	if !ok {
		panic(fmt.Sprintf("world: bytes written into %T", nd))
	}
	t := w.concatBytes(append(append(append([]*Term{}, w.parts(w.SubStr(b.t, w.Int(0), w.Int(lo)))...), w.parts(data)...), w.parts(w.SubStr(b.t, w.Int(lo+n.n), nil))...))
	w.storeLeaf(p, &BytesN{t}, st, w.True)
}

func (w *World) sliceN(b *Term, st *State) int {
	n := w.sliceLen(b, st)
	if n.k != KInt {
		panic("world: buffer of unknown length")
	}
	return int(n.n)
}

// ---- connections

func (w *World) connOf(t *Term) *Conn {
	if t.k == KIface {
		t = t.args[0]
	}
	if t.k == KPtr {
		if c, ok := w.objs[t.n].x.(*Conn); ok {
			return c
		}
	}
	return nil
}

func (w *World) connCall(c *CallCtx, recv *Term, name string, args []*Term) (*Term, bool) {
	cn := w.connOf(recv)
	if cn == nil {
		return nil, false
	}
	switch name {
	case "Read":
		d, n, err := w.connRead(cn, c.st, w.sliceN(args[0], c.st), c.pos)
		if n > 0 {
			w.putBytes(args[0], 0, d, c.st)
		}
		return w.Tup(w.Int(int64(n)), err), true
	case "Write":
		return w.connWrite(cn, c.st, w.bytesTerm(args[0], c.st), c.pos), true
	case "Close":
		w.point(c.st)
		if cn.closed {
			return w.err("closed"), true
		}
		cn.closed = true
		cn.closeT = w.now
		w.ev("close", cn.id, 0, nil, nil, c.pos)
		return w.Nil, true
	case "CloseWrite", "CloseRead", "SetNoDelay", "SetKeepAlive", "SetKeepAlivePeriod", "SetLinger", "SetReadBuffer", "SetWriteBuffer", "SetKeepAliveConfig":
		return w.Nil, true
	case "SetReadDeadline", "SetDeadline", "SetWriteDeadline":
		w.point(c.st)
		if cn.closed {
			return w.err("closed"), true
		}
		t, ok := w.timeVal(args[0])
		if !ok {
			t = -1
		}
		if name != "SetWriteDeadline" {
			cn.rdl, cn.rdlSet = t, w.now
		}
		if name != "SetReadDeadline" {
			cn.wdl = t
		}
		w.ev("deadline", cn.id, t, nil, nil, c.pos)
		return w.Nil, true
	case "RemoteAddr", "LocalAddr":
		o := w.newObjN("addr", nil, w.Nil)
		return w.Iface(addrDyn, w.Ptr(o.id)), true
	}
	return nil, false
}

func (w *World) connRead(cn *Conn, st *State, max int, pos token.Pos) (*Term, int, *Term) {
	w.point(st)
	cn.reads++
	for {
		switch {
		case cn.closed:
			return w.Empty, 0, w.err("closed")
		case cn.rdl >= 0 && w.now >= cn.rdl:
			w.ev("timeout", cn.id, 0, nil, nil, pos)
			return w.Empty, 0, w.err("timeout")
		case max == 0:
			return w.Empty, 0, w.Nil
		case cn.n > 0: // data that arrived before a reset can still be read
			n := min(max, cn.n)
			d, rest := w.take(cn.in, n)
			cn.in = rest
			cn.n -= n
			w.idle = 0
			return d, n, w.Nil
		case cn.rst:
			return w.Empty, 0, w.err("reset")
		case cn.eof:
			return w.Empty, 0, w.err("eof")
		}
		w.block(st, "read", pos, -1, func() bool {
			return cn.closed || cn.n > 0 || cn.eof || cn.rst || cn.rdl >= 0 && w.now >= cn.rdl
		})
	}
}

func (w *World) connWrite(cn *Conn, st *State, data *Term, pos token.Pos) *Term {
	w.point(st)
	ln := w.StrLen(data)
	if !cn.closed && cn.sc.stallW && cn.started && cn.next >= len(cn.sc.steps) {
		w.ev("wstall", cn.id, 0, data, nil, pos)
		w.block(st, "write", pos, -1, func() bool { return cn.closed || cn.wdl >= 0 && w.now >= cn.wdl })
		if !cn.closed {
			return w.Tup(w.Int(0), w.err("timeout"))
		}
	}
	for _, p := range cn.sc.pauseW {
		if from, to := cn.startT+p[0], cn.startT+p[1]; cn.started && w.now >= from && w.now < to {
			w.block(st, "write", pos, to, func() bool { return cn.closed || cn.wdl >= 0 && w.now >= cn.wdl })
		}
	}
	if cn.closed {
		return w.Tup(w.Int(0), w.err("closed"))
	}
	if cn.wdl >= 0 && w.now >= cn.wdl {
		return w.Tup(w.Int(0), w.err("timeout"))
	}
	if data != w.Empty {
		cn.out = append(cn.out, wr{w.cur, data, w.now})
		if len(cn.out) < 20000 {
			w.idle = 0
		}
		w.ev("write", cn.id, 0, data, nil, pos)
	}
	if !cn.started {
		w.startConn(cn)
	}
	return w.Tup(ln, w.Nil)
}

func (w *World) startConn(cn *Conn) {
	cn.started = true
	cn.startT = w.now
	if len(cn.sc.steps) > 0 {
		cn.at = w.now + cn.sc.steps[0].delay
		w.settle()
	}
}

func (w *World) dial(c *CallCtx, ctx *wctx, timeout int64) *Term {
	w.point(c.st)
	i := len(w.conns) + w.refused
	sc := w.lastSc
	if i < len(w.scripts) {
		sc = w.scripts[i]
	}
	if sc == nil || w.maxDial > 0 && i >= w.maxDial && w.cancelT < 0 {
		w.stop("enough")
	}
	w.ev("dial", -1, 0, nil, nil, c.pos)
	if ctx != nil && ctx.done.closed {
		w.refused++
		return w.Tup(w.Nil, w.err("canceled"))
	}
	if sc.hang {
		t := w.now + 20*sec
		if timeout > 0 && timeout < 20*sec {
			t = w.now + timeout
		}
		w.block(c.st, "dial", c.pos, t, func() bool { return ctx != nil && ctx.done.closed })
		w.refused++
		w.ev("refused", -1, 0, nil, nil, c.pos)
		return w.Tup(w.Nil, w.err("timeout"))
	}
	if sc.refuse {
		w.refused++
		w.ev("refused", -1, 0, nil, nil, c.pos)
		return w.Tup(w.Nil, w.err("refused"))
	}
	cn := &Conn{id: len(w.conns), sc: sc, rdl: -1, wdl: -1, closeT: -1, peerT: -1}
	w.connTerm(cn)
	w.conns = append(w.conns, cn)
	if !sc.after {
		w.startConn(cn)
	}
	w.ev("connected", cn.id, 0, nil, nil, c.pos)
	return w.Tup(cn.term, w.Nil)
}

func (w *World) connTerm(cn *Conn) {
	o := w.newObjN("conn", nil, w.Nil)
	o.x = cn
	var dt types.Type = connDyn
	if p := w.prog.ImportedPackage("net"); p != nil {
		dt = types.NewPointer(p.Type("TCPConn").Type())
	}
	cn.term = w.Iface(dt, w.Ptr(o.id))
}

// ---- readers

func (w *World) readFrom(c *CallCtx, r *Term, max int) (*Term, int, *Term) {
	if cn := w.connOf(r); cn != nil {
		return w.connRead(cn, c.st, max, c.pos)
	}
	if b := w.bufOf(r); b != nil {
		return w.bufRead(c, b, max)
	}
	if r.k == KIface && r.args[0].k == KPtr {
		dt := r.x.(types.Type)
		if fn := w.prog.LookupMethod(dt, nil, "Read"); fn != nil && len(fn.Blocks) > 0 && inlinable(fn) {
			buf := w.makeBytes(max, c.st)
			t, out := w.callFn(fn, []*Term{r.args[0], buf}, nil, c.st.copy(), c.fr, c.pos)
			if out == nil {
				w.stop("panic")
			}
			*c.st = *out
			n := t.args[0]
			if n.k != KInt {
				panic("world: reader returned an unknown count")
			}
			return w.SubStr(w.bytesTerm(buf, c.st), w.Int(0), n), int(n.n), t.args[1]
		}
	}
	panic("world: unknown reader " + w.show(r))
}

func (w *World) makeBytes(n int, st *State) *Term {
	o := w.newObjN("buffer", nil, &BytesN{w.Str(strings.Repeat("\x00", n))})
	return w.Slice(w.Ptr(o.id), w.Int(0), w.Int(int64(n)))
}

func (w *World) bufOf(r *Term) *bufRd {
	if r.k == KIface {
		r = r.args[0]
	}
	if r.k == KPtr && len(r.args) == 0 {
		return w.rd[int(r.n)]
	}
	return nil
}

func (w *World) newBuf(src *Term, size int) *Term {
	o := w.newObjN("bufio", nil, w.Nil)
	w.rd[o.id] = &bufRd{src: src, max: size}
	return w.Ptr(o.id)
}

// fill reads more from the source; false: the source failed.
func (w *World) fill(c *CallCtx, b *bufRd) bool {
	if b.err != nil {
		return false
	}
	for i := 0; i < 100; i++ {
		d, n, err := w.readFrom(c, b.src, max(b.max, 16))
		if n > 0 {
			b.buf = append(b.buf, w.parts(d)...)
			b.n += n
		}
		if err != w.Nil {
			b.err = err
			return n > 0
		}
		if n > 0 {
			return true
		}
	}
	b.err = w.err("noprogress")
	return false
}
func (b *bufRd) takeErr() *Term { e := b.err; b.err = nil; return e }

func (w *World) bufRead(c *CallCtx, b *bufRd, max int) (*Term, int, *Term) {
	if max == 0 {
		return w.Empty, 0, w.Nil
	}
	if b.n == 0 {
		if b.err != nil {
			return w.Empty, 0, b.takeErr()
		}
		if max >= b.max {
			return w.readFrom(c, b.src, max)
		}
		if !w.fill(c, b) {
			return w.Empty, 0, b.takeErr()
		}
	}
	n := min(max, b.n)
	d, rest := w.take(b.buf, n)
	b.buf = rest
	b.n -= n
	return d, n, w.Nil
}

// find returns the offset of the first delim at or after from (in bytes), -1: none.
func (w *World) find(ps []*Term, delim byte, from int) int {
	off := 0
	for _, p := range ps {
		n := int(w.StrLen(p).n)
		if p.k == KStr {
			st := max(0, from-off)
			if st < len(p.s) {
				if i := strings.IndexByte(p.s[st:], delim); i >= 0 {
					return off + st + i
				}
			}
		} else if w.csetOf(p).has(delim) {
			panic("world: search for a byte in opaque data " + w.show(p))
		}
		off += n
	}
	return -1
}

// until reads up to and including delim; lim>0: gives up when that many bytes came without one.
func (w *World) until(c *CallCtx, b *bufRd, delim byte, lim int) (data *Term, n int, full bool, err *Term) {
	from := 0
	for {
		if i := w.find(b.buf, delim, from); i >= 0 && (lim <= 0 || i < lim) {
			d, rest := w.take(b.buf, i+1)
			b.buf = rest
			b.n -= i + 1
			return d, i + 1, false, w.Nil
		}
		if lim > 0 && b.n >= lim {
			d, rest := w.take(b.buf, lim)
			b.buf = rest
			b.n -= lim
			return d, lim, true, w.Nil
		}
		from = b.n
		if b.err != nil || !w.fill(c, b) {
			d := w.concatBytes(b.buf)
			n := b.n
			b.buf, b.n = nil, 0
			return d, n, false, b.takeErr()
		}
	}
}

func (w *World) readFull(c *CallCtx, r, buf *Term, minN int) *Term {
	n := w.sliceN(buf, c.st)
	if minN < 0 {
		minN = n
	}
	got := 0
	for got < minN {
		d, k, err := w.readFrom(c, r, n-got)
		if k > 0 {
			w.putBytes(buf, int64(got), d, c.st)
			got += k
		}
		if err != w.Nil && got < minN {
			if got > 0 && w.errKind(err) == "eof" {
				err = w.err("uneof")
			}
			return w.Tup(w.Int(int64(got)), err)
		}
	}
	return w.Tup(w.Int(int64(got)), w.Nil)
}

// ---- atomics

func (w *World) atomic(c *CallCtx) (*Term, bool) {
	name := c.name[strings.LastIndex(c.name, ".")+1:]
	w.point(c.st)
	method := strings.HasPrefix(c.name, "(*")
	if !method && strings.HasPrefix(name, "New") {
		o := w.newObjN("atomic", nil, w.Nil)
		p := w.Ptr(o.id)
		if len(c.args) > 0 {
			w.atoms[p] = c.args[0]
		}
		return p, true
	}
	if len(c.args) == 0 || c.args[0].k != KPtr {
		panic("world: atomic operation on an unknown variable in " + c.name)
	}
	p := c.args[0]
	key := fmt.Sprintf("atomic%d", p.id)
	w.syncIn(w.cur, key)
	defer w.syncOut(w.cur, key)
	var rt types.Type
	if rs := c.sig.Results(); rs.Len() > 0 {
		rt = rs.At(0).Type()
	}
	get := func(def *Term) *Term {
		if method {
			if v := w.atoms[p]; v != nil {
				return v
			}
			return def
		}
		return w.nodeTerm(w.force(w.loadLeaf(p, c.st)))
	}
	set := func(v *Term) {
		if method {
			w.atoms[p] = v
		} else {
			w.storeLeaf(p, v, c.st, w.True)
		}
	}
	if !method {
		for _, s := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			name = strings.TrimSuffix(name, s)
		}
	}
	switch name {
	case "Load":
		return get(w.zeroT(rt)), true
	case "Store":
		set(c.args[1])
		w.ev("atomic", -1, 0, c.args[1], nil, c.pos)
		return nil, true
	case "Swap":
		o := get(w.zeroT(rt))
		set(c.args[1])
		return o, true
	case "CompareAndSwap", "CAS":
		o := get(zeroLike(w, c.args[1]))
		eq := w.cmp("eq", o, c.args[1])
		if eq != w.True && eq != w.False {
			panic("world: undecided compare-and-swap")
		}
		if eq == w.True {
			set(c.args[2])
		}
		return eq, true
	case "Add", "Sub", "Inc", "Dec":
		o := get(w.zeroT(rt))
		d := w.IntT(1, o.w, o.sgn)
		if len(c.args) > 1 {
			d = c.args[1]
		}
		op := "add"
		if name == "Sub" || name == "Dec" {
			op = "sub"
		}
		v := w.bin(op, o, d)
		set(v)
		return v, true
	case "Toggle":
		o := get(w.False)
		set(w.Not(o))
		return o, true
	}
	panic("world: atomic operation " + c.name)
}

func zeroLike(w *World, t *Term) *Term {
	switch t.sort {
	case SBool:
		return w.False
	case SInt:
		return w.IntT(0, t.w, t.sgn)
	case SStr:
		return w.Empty
	}
	return w.Nil
}

func (w *World) lockOf(p *Term) *wlock {
	k := fmt.Sprintf("%d", p.id)
	l := w.locks[k]
	if l == nil {
		l = &wlock{rd: map[*G]int{}, vc: map[int]int{}, rvc: map[int]int{}}
		w.locks[k] = l
	}
	return l
}

// call a function value from a model
func (w *World) callV(c *CallCtx, f *Term, args ...*Term) *Term {
	if f.k != KFunc {
		panic("world: call of unknown function value " + w.show(f))
	}
	if fn, ok := f.x.(*ssa.Function); ok {
		r, ok := w.callStatic(c.fr, fn, f.args, args, c.st, c.pos, fn.Signature.Results())
		if !ok {
			w.stop("panic")
		}
		return r
	}
	if g := w.funcs["opaque:"+w.name(f)]; g != nil {
		c2 := *c
		c2.args = args
		return g(&c2)
	}
	panic("world: call of unknown function " + f.s)
}

func (w *World) envFunc(name string, f func(c *CallCtx) *Term) *Term {
	t := w.mk(&Term{k: KFunc, s: fmt.Sprintf("env:%s#%d", name, len(w.funcs))})
	w.funcs["opaque:"+w.name(t)] = f
	w.funcs[t.s] = f
	return t
}

func (w *World) newTimer(c *CallCtx, d, period int64, tn string) (*Term, *wtimer) {
	tm := &wtimer{at: w.now + d, period: period, on: true}
	tm.ch = w.newChan("timer", 1, nil)
	w.timers = append(w.timers, tm)
	typ := w.prog.ImportedPackage("time").Type(tn).Type()
	z := w.zero(typ).(*StructN)
	n := &StructN{f: append([]Node{}, z.f...)}
	n.f[0] = tm.ch.term
	o := w.newObjN(tn, typ, n)
	w.tObj[o.id] = tm
	if tm.at <= w.now {
		w.settle()
	}
	return w.Ptr(o.id), tm
}

func init() {
	res0 := func(w *World, c *CallCtx) *Term { return w.zeroRes(c) }
	_ = res0
	wm("net.Dial", func(w *World, c *CallCtx) *Term { return w.dial(c, nil, 0) })
	wm("net.DialTimeout", func(w *World, c *CallCtx) *Term { return w.dial(c, nil, w.dur(c.args[2])) })
	wm("(*net.Dialer).Dial", func(w *World, c *CallCtx) *Term { return w.dial(c, nil, 0) })
	wm("(*net.Dialer).DialContext", func(w *World, c *CallCtx) *Term { return w.dial(c, w.ctxs[c.args[1]], 0) })
	wm("net.JoinHostPort", func(w *World, c *CallCtx) *Term { return w.Concat(c.args[0], w.Str(":"), c.args[1]) })

	// time
	wm("time.Now", func(w *World, c *CallCtx) *Term { return w.timeT(w.now) })
	wm("(time.Time).Add", func(w *World, c *CallCtx) *Term {
		t, _ := w.timeVal(c.args[0])
		return w.timeT(t + w.dur(c.args[1]))
	})
	wm("(time.Time).Sub", func(w *World, c *CallCtx) *Term {
		a, _ := w.timeVal(c.args[0])
		b, _ := w.timeVal(c.args[1])
		return w.Int(a - b)
	})
	wm("time.Since", func(w *World, c *CallCtx) *Term { a, _ := w.timeVal(c.args[0]); return w.Int(w.now - a) })
	wm("time.Until", func(w *World, c *CallCtx) *Term { a, _ := w.timeVal(c.args[0]); return w.Int(a - w.now) })
	wm("(time.Time).IsZero", func(w *World, c *CallCtx) *Term { _, ok := w.timeVal(c.args[0]); return w.Bool(!ok) })
	wm("(time.Time).After (time.Time).Before (time.Time).Equal", func(w *World, c *CallCtx) *Term {
		a, ok1 := w.timeVal(c.args[0])
		b, ok2 := w.timeVal(c.args[1])
		if !ok1 {
			a = -worldBase
		}
		if !ok2 {
			b = -worldBase
		}
		switch c.name[len(c.name)-5:] {
		case "After":
			return w.Bool(a > b)
		case "Equal":
			return w.Bool(a == b)
		}
		return w.Bool(a < b)
	})
	wm("(time.Time).UnixNano", func(w *World, c *CallCtx) *Term { a, _ := w.timeVal(c.args[0]); return w.Int(a) })
	wm("(time.Time).UnixMilli", func(w *World, c *CallCtx) *Term { a, _ := w.timeVal(c.args[0]); return w.Int(a / ms) })
	wm("(time.Time).Unix", func(w *World, c *CallCtx) *Term { a, _ := w.timeVal(c.args[0]); return w.Int(a / sec) })
	wm("(time.Duration).Seconds", func(w *World, c *CallCtx) *Term { return w.Float(float64(w.dur(c.args[0])) / 1e9) })
	wm("(time.Duration).Milliseconds", func(w *World, c *CallCtx) *Term { return w.Int(w.dur(c.args[0]) / ms) })
	wm("time.Sleep", func(w *World, c *CallCtx) *Term {
		d := w.dur(c.args[0])
		w.point(c.st)
		w.ev("sleep", -1, d, nil, nil, c.pos)
		if d > 0 {
			w.block(c.st, "sleep", c.pos, w.now+d, nil)
		}
		return nil
	})
	wm("time.NewTimer", func(w *World, c *CallCtx) *Term { t, _ := w.newTimer(c, w.dur(c.args[0]), 0, "Timer"); return t })
	wm("time.NewTicker", func(w *World, c *CallCtx) *Term {
		d := w.dur(c.args[0])
		if d <= 0 {
			w.obls = append(w.obls, &Obl{"non-positive ticker interval", c.pos, c.st.g, nil})
			w.stop("panic")
		}
		t, _ := w.newTimer(c, d, d, "Ticker")
		return t
	})
	wm("time.After", func(w *World, c *CallCtx) *Term {
		_, t := w.newTimer(c, w.dur(c.args[0]), 0, "Timer")
		return t.ch.term
	})
	wm("time.Tick", func(w *World, c *CallCtx) *Term {
		d := w.dur(c.args[0])
		_, t := w.newTimer(c, d, d, "Ticker")
		return t.ch.term
	})
	wm("time.AfterFunc", func(w *World, c *CallCtx) *Term {
		p, t := w.newTimer(c, w.dur(c.args[0]), 0, "Timer")
		t.ch, t.fn = nil, c.args[1]
		return p
	})
	wm("(*time.Timer).Stop (*time.Ticker).Stop", func(w *World, c *CallCtx) *Term {
		w.point(c.st)
		t := w.tObj[int(c.args[0].n)]
		was := t.on
		t.on = false
		if t.ch != nil {
			t.ch.buf = nil // as of Go 1.23 no stale value is left behind
		}
		if c.sig.Results().Len() == 0 {
			return nil
		}
		return w.Bool(was)
	})
	wm("(*time.Timer).Reset (*time.Ticker).Reset", func(w *World, c *CallCtx) *Term {
		w.point(c.st)
		t := w.tObj[int(c.args[0].n)]
		was := t.on
		t.on = true
		t.at = w.now + w.dur(c.args[1])
		if t.period > 0 {
			t.period = w.dur(c.args[1])
		}
		if t.ch != nil {
			t.ch.buf = nil
		}
		if c.sig.Results().Len() == 0 {
			return nil
		}
		return w.Bool(was)
	})

	// context
	wm("context.Background context.TODO", func(w *World, c *CallCtx) *Term { return w.newCtx(nil).term })
	derive := func(dl func(w *World, c *CallCtx) int64) wModel {
		return func(w *World, c *CallCtx) *Term {
			p := w.ctxs[c.args[0]]
			if p == nil {
				panic("world: unknown context")
			}
			x := w.newCtx(p)
			if dl != nil {
				x.at = dl(w, c)
			}
			f := w.envFunc("cancel", func(c *CallCtx) *Term {
				if c.st != nil {
					w.point(c.st)
				}
				w.cancel(x, "cancelled")
				return nil
			})
			return w.Tup(x.term, f)
		}
	}
	wm("context.WithCancel", derive(nil))
	wm("context.WithTimeout", derive(func(w *World, c *CallCtx) int64 { return w.now + w.dur(c.args[1]) }))
	wm("context.WithDeadline", derive(func(w *World, c *CallCtx) int64 { t, _ := w.timeVal(c.args[1]); return t }))

	// readers
	wm("io.ReadFull", func(w *World, c *CallCtx) *Term { return w.readFull(c, c.args[0], c.args[1], -1) })
	wm("io.ReadAtLeast", func(w *World, c *CallCtx) *Term {
		if c.args[2].k != KInt {
			panic("world: read of unknown length")
		}
		return w.readFull(c, c.args[0], c.args[1], int(c.args[2].n))
	})
	wm("bufio.NewReader bufio.NewReaderSize", func(w *World, c *CallCtx) *Term {
		size := 4096
		if len(c.args) > 1 && c.args[1].k == KInt {
			size = max(16, int(c.args[1].n))
		}
		if b := w.bufOf(c.args[0]); b != nil && b.max >= size {
			return c.args[0].args[0]
		}
		return w.newBuf(c.args[0], size)
	})
	buf := func(w *World, c *CallCtx) *bufRd {
		b := w.bufOf(c.args[0])
		if b == nil {
			panic("world: unknown reader in " + c.name)
		}
		return b
	}
	delim := func(t *Term) byte {
		if t.k != KInt {
			panic("world: unknown delimiter")
		}
		return byte(t.n)
	}
	wm("(*bufio.Reader).ReadString", func(w *World, c *CallCtx) *Term {
		d, _, _, err := w.until(c, buf(w, c), delim(c.args[1]), 0)
		return w.Tup(d, err)
	})
	wm("(*bufio.Reader).ReadBytes", func(w *World, c *CallCtx) *Term {
		d, _, _, err := w.until(c, buf(w, c), delim(c.args[1]), 0)
		return w.Tup(w.bytesSlice(d), err)
	})
	wm("(*bufio.Reader).ReadSlice", func(w *World, c *CallCtx) *Term {
		b := buf(w, c)
		d, _, full, err := w.until(c, b, delim(c.args[1]), b.max)
		if full {
			err = w.err("bufferfull")
		}
		return w.Tup(w.bytesSlice(d), err)
	})
	wm("(*bufio.Reader).ReadLine", func(w *World, c *CallCtx) *Term {
		b := buf(w, c)
		d, n, full, err := w.until(c, b, '\n', b.max)
		if n > 0 {
			err = w.Nil
		}
		if !full && err == w.Nil {
			d = w.chopEOL(d)
		}
		if n == 0 {
			return w.Tup(w.Nil, w.False, err)
		}
		return w.Tup(w.bytesSlice(d), w.Bool(full), err)
	})
	wm("(*bufio.Reader).Read", func(w *World, c *CallCtx) *Term {
		d, n, err := w.bufRead(c, buf(w, c), w.sliceN(c.args[1], c.st))
		if n > 0 {
			w.putBytes(c.args[1], 0, d, c.st)
		}
		return w.Tup(w.Int(int64(n)), err)
	})
	wm("(*bufio.Reader).ReadByte", func(w *World, c *CallCtx) *Term {
		d, n, err := w.bufRead(c, buf(w, c), 1)
		if n == 0 {
			return w.Tup(w.IntT(0, 8, false), err)
		}
		return w.Tup(w.CharAt(d, w.Int(0)), w.Nil)
	})
	wm("(*bufio.Reader).Buffered", func(w *World, c *CallCtx) *Term { return w.Int(int64(buf(w, c).n)) })
	wm("(*bufio.Reader).Size", func(w *World, c *CallCtx) *Term { return w.Int(int64(buf(w, c).max)) })
	wm("(*bufio.Reader).Peek", func(w *World, c *CallCtx) *Term {
		b := buf(w, c)
		n := int(c.args[1].n)
		for b.n < n && b.n < b.max && w.fill(c, b) {
		}
		err := w.Nil
		if b.n < n {
			err = w.err("bufferfull")
			if b.err != nil {
				err = b.takeErr()
			}
			n = b.n
		}
		d, _ := w.take(b.buf, n)
		return w.Tup(w.bytesSlice(d), err)
	})
	wm("(*bufio.Reader).Discard", func(w *World, c *CallCtx) *Term {
		b := buf(w, c)
		n, got := int(c.args[1].n), 0
		for got < n {
			_, k, err := w.bufRead(c, b, n-got)
			got += k
			if err != w.Nil {
				return w.Tup(w.Int(int64(got)), err)
			}
		}
		return w.Tup(w.Int(int64(got)), w.Nil)
	})
	wm("(*bufio.Reader).Reset", func(w *World, c *CallCtx) *Term {
		b := buf(w, c)
		*b = bufRd{src: c.args[1], max: b.max}
		return nil
	})
	wm("bufio.NewScanner", func(w *World, c *CallCtx) *Term {
		p := w.newBuf(c.args[0], 4096)
		b := w.bufOf(p)
		b.max = 65536
		b.line = true
		return p
	})
	wm("(*bufio.Scanner).Buffer", func(w *World, c *CallCtx) *Term {
		if c.args[2].k == KInt {
			buf(w, c).max = int(c.args[2].n)
		}
		return nil
	})
	wm("(*bufio.Scanner).Split", func(w *World, c *CallCtx) *Term {
		if c.args[1].k != KFunc || c.args[1].s != "bufio.ScanLines" {
			panic("world: scanner with another split function")
		}
		return nil
	})
	wm("(*bufio.Scanner).Scan", func(w *World, c *CallCtx) *Term {
		b := buf(w, c)
		if b.last != nil {
			return w.False
		}
		d, n, full, err := w.until(c, b, '\n', b.max)
		if full {
			b.last = w.err("toolong")
			return w.False
		}
		if err != w.Nil {
			b.last = err
			if n == 0 {
				return w.False
			}
		}
		b.tok = w.chopEOL(d)
		return w.True
	})
	wm("(*bufio.Scanner).Text", func(w *World, c *CallCtx) *Term {
		if t := buf(w, c).tok; t != nil {
			return t
		}
		return w.Empty
	})
	wm("(*bufio.Scanner).Bytes", func(w *World, c *CallCtx) *Term {
		if t := buf(w, c).tok; t != nil {
			return w.bytesSlice(t)
		}
		return w.Nil
	})
	wm("(*bufio.Scanner).Err", func(w *World, c *CallCtx) *Term {
		if t := buf(w, c).last; t != nil && w.errKind(t) != "eof" {
			return t
		}
		return w.Nil
	})

	// little endian headers
	wm("(encoding/binary.littleEndian).PutUint32", func(w *World, c *CallCtx) *Term {
		w.putBytes(c.args[1], 0, w.le32(c.args[2]), c.st)
		return nil
	})
	wm("(encoding/binary.littleEndian).AppendUint32", func(w *World, c *CallCtx) *Term {
		return w.bytesSlice(w.concatBytes(append(append([]*Term{}, w.parts(w.bytesTerm(c.args[1], c.st))...), w.le32(c.args[2]))))
	})

	// locks
	lock := func(write bool) wModel {
		return func(w *World, c *CallCtx) *Term {
			l := w.lockOf(c.args[0])
			w.point(c.st)
			free := func() bool { return l.owner == nil && (!write || len(l.rd) == 0) }
			w.block(c.st, "lock", c.pos, -1, free)
			g := w.cur
			joinVC(g.vc, l.vc)
			if write {
				joinVC(g.vc, l.rvc)
				l.owner = g
			} else {
				l.rd[g]++
			}
			return nil
		}
	}
	unlock := func(write bool) wModel {
		return func(w *World, c *CallCtx) *Term {
			l := w.lockOf(c.args[0])
			g := w.cur
			if write && l.owner == nil || !write && len(l.rd) == 0 {
				w.obls = append(w.obls, &Obl{"unlock of unlocked mutex", c.pos, c.st.g, nil})
				w.stop("panic")
			}
			if write {
				l.owner = nil
				l.vc = copyVC(g.vc)
			} else {
				k := g
				if l.rd[g] == 0 {
					for o := range l.rd {
						k = o
					}
				}
				if l.rd[k]--; l.rd[k] == 0 {
					delete(l.rd, k)
				}
				joinVC(l.rvc, g.vc)
			}
			w.tick(g)
			w.point(c.st)
			return nil
		}
	}
	wm("(*sync.Mutex).Lock (*sync.RWMutex).Lock", lock(true))
	wm("(*sync.RWMutex).RLock", lock(false))
	wm("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", unlock(true))
	wm("(*sync.RWMutex).RUnlock", unlock(false))
	wm("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(w *World, c *CallCtx) *Term {
		l := w.lockOf(c.args[0])
		w.point(c.st)
		if l.owner != nil || len(l.rd) > 0 {
			return w.False
		}
		joinVC(w.cur.vc, l.vc)
		joinVC(w.cur.vc, l.rvc)
		l.owner = w.cur
		return w.True
	})
	wg := func(w *World, p *Term) *wgrp {
		k := fmt.Sprintf("%d", p.id)
		g := w.wgs[k]
		if g == nil {
			g = &wgrp{vc: map[int]int{}}
			w.wgs[k] = g
		}
		return g
	}
	add := func(w *World, c *CallCtx, n int64) *Term {
		w.point(c.st)
		g := wg(w, c.args[0])
		g.n += n
		g.pos = c.pos
		joinVC(g.vc, w.cur.vc)
		w.tick(w.cur)
		w.ev("wg", -1, g.n, nil, nil, c.pos)
		if g.n == 0 {
			left := int64(0)
			for _, o := range w.gs {
				if o != w.cur && !o.done && !o.foreign {
					left++
				}
			}
			w.ev("wgzero", -1, left, nil, nil, c.pos)
		}
		if g.n < 0 {
			w.obls = append(w.obls, &Obl{"negative wait group counter", c.pos, c.st.g, nil})
			w.stop("panic")
		}
		return nil
	}
	wm("(*sync.WaitGroup).Add", func(w *World, c *CallCtx) *Term { return add(w, c, w.dur(c.args[1])) })
	wm("(*sync.WaitGroup).Done", func(w *World, c *CallCtx) *Term { return add(w, c, -1) })
	wm("(*sync.WaitGroup).Wait", func(w *World, c *CallCtx) *Term {
		w.point(c.st)
		g := wg(w, c.args[0])
		w.block(c.st, "wait group", c.pos, -1, func() bool { return g.n == 0 })
		joinVC(w.cur.vc, g.vc)
		return nil
	})
	wm("(*sync.WaitGroup).Go", func(w *World, c *CallCtx) *Term {
		add(w, c, 1)
		p := c.args[0]
		g := w.spawnT(c.args[1], nil, c.pos, c.fr)
		run := w.start[g.id]
		_ = run
		g.after = func() { wg(w, p).n-- }
		return nil
	})
	wm("(*sync.Once).Do", func(w *World, c *CallCtx) *Term {
		w.point(c.st)
		k := fmt.Sprintf("%d", c.args[0].id)
		if !w.onces[k] {
			w.onces[k] = true
			w.callV(c, c.args[1])
			w.syncOut(w.cur, "once"+k)
		} else {
			w.syncIn(w.cur, "once"+k)
		}
		return nil
	})
	wm("errors.Is", func(w *World, c *CallCtx) *Term {
		a, b := w.errKind(c.args[0]), w.errKind(c.args[1])
		if c.args[0] == w.Nil || c.args[1] == w.Nil {
			return w.Bool(c.args[0] == c.args[1])
		}
		if a == "" || b == "" {
			return w.Bool(c.args[0] == c.args[1])
		}
		return w.Bool(a == b || a == "timeout" && b == "deadline" || a == "closed" && b == "netclosed")
	})
	wm("errors.As", func(w *World, c *CallCtx) *Term {
		k := w.errKind(c.args[0])
		if c.args[1].k == KIface && c.args[1].args[0].k == KPtr {
			pt := c.args[1].x.(types.Type).Underlying().(*types.Pointer).Elem()
			v, ok := w.assertLeaf(c.args[0], pt)
			if k != "" && ok == w.True {
				w.store(c.fr, c.args[1].args[0], v, c.st, c.pos, pt)
				return w.True
			}
			return w.False
		}
		return w.unknownBool("errors.As")
	})
	wm("os.IsTimeout", func(w *World, c *CallCtx) *Term { return w.Bool(w.errKind(c.args[0]) == "timeout") })
	wm("runtime.Gosched", func(w *World, c *CallCtx) *Term { w.point(c.st); return nil })

	// messages
	wm("google.golang.org/protobuf/proto.Marshal", func(w *World, c *CallCtx) *Term { return w.Tup(w.bytesSlice(w.marshal(c.args[0], c.st)), w.Nil) })
	wm("(google.golang.org/protobuf/proto.MarshalOptions).Marshal", func(w *World, c *CallCtx) *Term {
		return w.Tup(w.bytesSlice(w.marshal(c.args[1], c.st)), w.Nil)
	})
	wm("(google.golang.org/protobuf/proto.MarshalOptions).MarshalAppend", func(w *World, c *CallCtx) *Term {
		return w.Tup(w.bytesSlice(w.concatBytes(append(append([]*Term{}, w.parts(w.bytesTerm(c.args[1], c.st))...), w.parts(w.marshal(c.args[2], c.st))...))), w.Nil)
	})
	wm("google.golang.org/protobuf/proto.Size", func(w *World, c *CallCtx) *Term { return w.StrLen(w.marshal(c.args[0], c.st)) })
	wm("google.golang.org/protobuf/proto.Unmarshal", func(w *World, c *CallCtx) *Term { return w.unmarshalW(c, c.args[0], c.args[1]) })
	wm("(google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal", func(w *World, c *CallCtx) *Term { return w.unmarshalW(c, c.args[1], c.args[2]) })
	wm(modRoot+".RawPanelASCIIstringsToOutboundMessages", func(w *World, c *CallCtx) *Term {
		n, ok := w.sliceNode(c.args[0], c.st)
		l, ok2 := n.(*ListN)
		if c.args[0] == w.Nil {
			return w.Nil
		}
		if !ok || !ok2 {
			panic("world: unknown list of lines")
		}
		var out []Node
		for _, it := range l.items {
			t := w.nodeTerm(w.force(it.v))
			if tk := w.tokens[t]; tk != nil && tk.kind == "line" {
				if tk.node != nil {
					o := w.newObjN(tk.name, nil, tk.node)
					out = append(out, w.Ptr(o.id))
				}
				continue
			}
			if t == w.Empty {
				continue
			}
			mt := w.msgType("OutboundMessage")
			o := w.newObjN("decoded", mt, w.opaqueMsg(mt, "line:"+w.show(t)))
			out = append(out, w.Ptr(o.id))
		}
		return w.listSlice(out...)
	})
	wm(modRoot+".InboundMessagesToRawPanelASCIIstrings", func(w *World, c *CallCtx) *Term {
		if c.args[0] == w.Nil {
			return w.Nil
		}
		n, ok := w.sliceNode(c.args[0], c.st)
		l, ok2 := n.(*ListN)
		if !ok || !ok2 {
			panic("world: unknown list of messages")
		}
		var out []*Term
		mt := types.NewPointer(w.msgType("InboundMessage"))
		for _, it := range l.items {
			d := w.deep(w.nodeTerm(w.force(it.v)), c.st, mt)
			out = append(out, w.linesOf(d)...)
		}
		return w.strSlice(out)
	})
}

// linesOf: the text lines the converter produces for one message (uninterpreted).
func (w *World) linesOf(d *Term) []*Term {
	k := 2
	if n, ok := w.rowsOf[d]; ok {
		k = n
	}
	var out []*Term
	for i := 0; i < k; i++ {
		out = append(out, w.SymStr(fmt.Sprintf("line%d of %d", i, d.id), &StrInfo{chars: "^ \t\r\n\v\f", min: 7, max: 7}))
	}
	return out
}

func (w *World) chopEOL(d *Term) *Term {
	ps := w.parts(d)
	if len(ps) == 0 {
		return d
	}
	l := ps[len(ps)-1]
	if l.k == KStr && strings.HasSuffix(l.s, "\n") {
		s := strings.TrimSuffix(l.s, "\n")
		s = strings.TrimSuffix(s, "\r")
		return w.Concat(append(append([]*Term{}, ps[:len(ps)-1]...), w.Str(s))...)
	}
	return d
}

func (w *World) le32(v *Term) *Term {
	if v.k != KInt {
		panic("world: header of unknown length " + w.show(v))
	}
	n := uint32(v.n)
	return w.Str(string([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}))
}

func (w *World) msgType(name string) types.Type {
	return w.prog.ImportedPackage(rwpPath).Type(name).Type()
}

// opaqueMsg: a message about whose fields nothing is known.
func (w *World) opaqueMsg(t types.Type, name string) *StructN {
	u := t.Underlying().(*types.Struct)
	n := &StructN{f: make([]Node, u.NumFields())}
	for i := range n.f {
		f := u.Field(i)
		if skipField(u, i) {
			n.f[i] = w.zero(f.Type())
			continue
		}
		if _, ok := f.Type().Underlying().(*types.Basic); ok {
			n.f[i] = w.symOf(name+"."+f.Name(), f.Type())
		} else {
			n.f[i] = w.Sym(name+"."+f.Name(), SAny, 0, false)
		}
	}
	return n
}

// flowOnly: a message with nothing but a FlowMessage value.
func (w *World) flowMsg(t types.Type, v int64) *StructN {
	u := t.Underlying().(*types.Struct)
	n := &StructN{f: append([]Node{}, w.zero(t).(*StructN).f...)}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "FlowMessage" {
			n.f[i] = w.IntT(v, 32, true)
		}
	}
	return n
}

func (w *World) flowTag(t types.Type) int {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "FlowMessage" {
			var n int
			tag := u.Tag(i)
			if j := strings.Index(tag, "varint,"); j >= 0 {
				fmt.Sscanf(tag[j:], "varint,%d,", &n)
			}
			return n
		}
	}
	return 0
}

// flowBytes: the encoding of a message with nothing but a FlowMessage value (< 128).
func (w *World) flowBytes(t types.Type, v int64) string {
	if v == 0 {
		return ""
	}
	return string([]byte{byte(w.flowTag(t) << 3), byte(v)})
}

// marshal: an uninterpreted, injective function of the content, except for messages with nothing but a flow value.
func (w *World) marshal(m *Term, st *State) *Term {
	if m.k != KIface {
		panic("world: marshal of unknown message")
	}
	t := m.x.(types.Type).Underlying().(*types.Pointer).Elem()
	if m.args[0] == w.Nil {
		return w.Empty
	}
	d := w.deep(m.args[0], st, m.x.(types.Type))
	return w.pbOf(d, t)
}

func (w *World) pbOf(d *Term, t types.Type) *Term {
	z := w.deepN(w.zero(t), &State{g: w.True, mem: w.baseMem}, t, 0)
	if d == z {
		return w.Empty
	}
	if w.flowTag(t) > 0 {
		for v := int64(1); v < 8; v++ {
			if d == w.deepN(w.flowMsg(t, v), &State{g: w.True, mem: w.baseMem}, t, 0) {
				return w.Str(w.flowBytes(t, v))
			}
		}
	}
	n, ok := w.pblen[d]
	if !ok {
		n = 11
	}
	return w.SymStr(fmt.Sprintf("pb of %d", d.id), &StrInfo{min: n, max: n})
}

func (w *World) unmarshalW(c *CallCtx, b, target *Term) *Term {
	data := w.bytesTerm(b, c.st)
	if target.k != KIface || target.args[0].k != KPtr {
		panic("world: unmarshal into an unknown message")
	}
	t := target.x.(types.Type).Underlying().(*types.Pointer).Elem()
	p := target.args[0]
	w.accPtr(p, true, c.pos)
	set := func(n *StructN) { w.storeLeaf(p, n, c.st, w.True) }
	if tk := w.tokens[data]; tk != nil {
		if tk.kind == "bad" {
			set(w.opaqueMsg(t, "partial:"+tk.name))
			return w.err("malformed")
		}
		set(tk.node)
		return w.Nil
	}
	if data.k == KStr {
		if data.s == "" {
			set(w.zero(t).(*StructN))
			return w.Nil
		}
		if len(data.s) == 2 && w.flowTag(t) > 0 && data.s[0] == byte(w.flowTag(t)<<3) && data.s[1] < 128 {
			set(w.flowMsg(t, int64(data.s[1])))
			return w.Nil
		}
	}
	if w.noTorn && w.hasToken(data) {
		if w.torn == "" {
			w.torn = fmt.Sprintf("%.200s at %s", w.show(data), w.posStr(c.pos))
		}
		set(w.zero(t).(*StructN)) // reported; what becomes of it is of no further interest
		return w.err("malformed")
	}
	set(w.opaqueMsg(t, "decoded:"+w.show(data)))
	if w.choose(2, "decodable") == 1 {
		return w.err("malformed")
	}
	return w.Nil
}

// hasToken tells if data is made of part of a payload, or of one and something else.
func (w *World) hasToken(data *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if w.tokens[t] != nil {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(data)
}

// payload registers an opaque message payload of n bytes.
func (w *World) payload(name string, n int, bad bool) *tok {
	if t := w.toks[name]; t != nil {
		return t
	}
	mt := w.msgType("OutboundMessage")
	t := &tok{name: name, kind: "msg", text: w.SymStr("payload "+name, &StrInfo{min: n, max: n}), node: w.opaqueMsg(mt, "msg:"+name)}
	if bad {
		t.kind = "bad"
	}
	if n == 0 {
		t.text = w.Empty
		t.node = w.zero(mt).(*StructN)
	} else {
		w.tokens[t.text] = t
	}
	w.toks[name] = t
	return t
}

// flowPayload registers the payload of a message that has nothing but a flow value.
func (w *World) flowPayload(name string, v int64) *tok {
	mt := w.msgType("OutboundMessage")
	t := &tok{name: name, kind: "msg", text: w.Str(w.flowBytes(mt, v)), node: w.flowMsg(mt, v)}
	w.toks[name] = t
	return t
}

// textLine registers an opaque line of text of n bytes without white space.
func (w *World) textLine(name string, n int) *tok {
	if t := w.toks[name]; t != nil {
		return t
	}
	t := &tok{name: name, kind: "line", text: w.SymStr("text "+name, &StrInfo{chars: "^ \t\r\n\v\f", min: n, max: n})}
	t.node = w.opaqueMsg(w.msgType("OutboundMessage"), "line:"+name)
	w.tokens[t.text] = t
	w.toks[name] = t
	return t
}

func (w *World) frame(t *tok) *Term {
	return w.Concat(w.le32(w.StrLen(t.text)), t.text)
}

// deepTok: the content a delivered message must have.
func (w *World) deepTok(t *tok) *Term {
	return w.deepN(t.node, &State{g: w.True, mem: w.baseMem}, w.msgType("OutboundMessage"), 0)
}
