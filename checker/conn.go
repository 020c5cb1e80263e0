package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// client is the composition of the reconnecting client with an environment that records what it observes.
type client struct {
	w      *World
	st     *State
	ctx    *wctx
	in     *WChan // messages for the panel
	out    *WChan // messages from the panel
	got    []dlv
	cbs    []cbEv
	wg     *Term
	noWG   bool
	noCB   bool
	period [2]int64 // retry periods (0: default), noConfig: nil
	config bool
	offers []offer
	float  bool // cancelled at any point
	cap    int
	slow   int64 // the consumer takes one list every slow ns
}
type dlv struct {
	t    int64
	term *Term   // as received
	msgs []*Term // content when received
	ptrs []*Term
}
type cbEv struct {
	connect   bool
	t         int64
	text, bin *Term
	conn      *Term
	canc      *Term
	after     bool // after the cancellation
	writes    int  // writes made on the newest connection so far
}

func (c *Check) connectFn() *ssa.Function { return c.need(modRoot, "ConnectToPanel") }

func (w *World) msgPtr(name string) types.Type { return types.NewPointer(w.msgType(name)) }

// contents of a list of messages, nil: unknown.
func (w *World) listMsgs(v *Term, typ string) (ptrs, deep []*Term) {
	if v == w.Nil {
		return nil, nil
	}
	st := &State{g: w.g, mem: w.mem}
	n, ok := w.sliceNode(v, st)
	if l, isL := n.(*ListN); !ok || !isL {
		panic("world: unknown list of messages " + w.show(v))
	} else {
		for _, it := range l.items {
			if it.g != w.True {
				panic("world: list of messages of unknown length")
			}
		}
	}
	for _, it := range n.(*ListN).items {
		p := w.nodeTerm(w.force(it.v))
		ptrs = append(ptrs, p)
		deep = append(deep, w.deep(p, st, w.msgPtr(typ)))
	}
	return
}

// setup builds the arguments of ConnectToPanel by type and position.
func (cl *client) args(fn *ssa.Function) []*Term {
	w := cl.w
	cl.ctx = w.newCtx(nil)
	cl.ctx.user = true
	if cl.float {
		w.floatC = cl.ctx
	}
	var args []*Term
	for _, p := range fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Basic:
			args = append(args, w.Str("192.0.2.1:9923"))
		case *types.Chan:
			ch := w.newChan(p.Name(), cl.cap, t)
			if t.Dir() == types.RecvOnly {
				cl.in = ch
				ch.offers = cl.offers
			} else {
				cl.out = ch
				next := int64(0)
				ch.accept = func() int64 { return next }
				ch.taken = func(v *Term) {
					ptrs, msgs := w.listMsgs(v, "OutboundMessage")
					cl.got = append(cl.got, dlv{w.now, v, msgs, ptrs})
					next = w.now + cl.slow
				}
			}
			args = append(args, ch.term)
		case *types.Interface:
			args = append(args, cl.ctx.term)
		case *types.Signature:
			if cl.noCB {
				args = append(args, w.Nil)
				continue
			}
			connect := t.Params().Len() > 1
			args = append(args, w.envFunc(p.Name(), func(c *CallCtx) *Term {
				w.point(c.st)
				ev := cbEv{connect: connect, t: w.now, after: w.cancelT >= 0}
				if n := len(w.conns); n > 0 {
					ev.writes = len(w.conns[n-1].out)
				}
				if connect {
					ev.text, ev.bin, ev.conn = c.args[0], c.args[1], c.args[2]
				} else {
					ev.canc = c.args[0]
				}
				cl.cbs = append(cl.cbs, ev)
				w.ev("callback", -1, 0, nil, nil, c.pos)
				return nil
			}))
		case *types.Pointer:
			if n, ok := t.Elem().(*types.Named); ok && n.Obj().Name() == "WaitGroup" {
				if cl.noWG {
					args = append(args, w.Nil)
					continue
				}
				o := w.newObjN("wg", t.Elem(), w.zero(t.Elem()))
				cl.wg = w.Ptr(o.id)
				args = append(args, cl.wg)
				continue
			}
			if !cl.config {
				args = append(args, w.Nil)
				continue
			}
			u := t.Elem().Underlying().(*types.Struct)
			n := &StructN{f: append([]Node{}, w.zero(t.Elem()).(*StructN).f...)}
			for i := 0; i < u.NumFields(); i++ {
				switch {
				case strings.HasPrefix(u.Field(i).Name(), "NoConn"):
					n.f[i] = w.Int(cl.period[0])
				case strings.HasPrefix(u.Field(i).Name(), "ReConn"):
					n.f[i] = w.Int(cl.period[1])
				}
			}
			o := w.newObjN("config", t.Elem(), n)
			args = append(args, w.Ptr(o.id))
		default:
			panic("parameter " + p.Name() + " of unknown kind")
		}
	}
	return args
}

// ack: the reply of a binary panel to the probe.
func (w *World) ack() *Term { return w.frame(w.flowPayload("ack", w.flowConst("OutboundMessage_ACK"))) }

func (w *World) flowConst(name string) int64 {
	if v, ok := w.flowOpt(name); ok {
		return v
	}
	panic("no constant " + name)
}

func (w *World) flowOpt(name string) (int64, bool) {
	if c, ok := w.prog.ImportedPackage(rwpPath).Members[name].(*ssa.NamedConst); ok {
		return c.Value.Int64(), true
	}
	return 0, false
}

// describe what the environment did, for reports.
func (w *World) story() string {
	var b strings.Builder
	n := 0
	for _, t := range w.trace {
		switch t.kind {
		case "deadline", "atomic", "wg", "go", "callback", "sleep":
			continue
		}
		if n++; n > 40 {
			b.WriteString(" …")
			break
		}
		fmt.Fprintf(&b, "\n  %6.3fs %s", float64(t.t)/1e9, t.kind)
		if t.conn >= 0 {
			fmt.Fprintf(&b, " conn %d", t.conn)
		}
		if t.a != nil {
			s := fmt.Sprintf("%q", w.show(t.a))
			if len(s) > 100 {
				s = s[:100] + "…"
			}
			b.WriteString(" " + s)
		}
		if t.pos != token.NoPos {
			b.WriteString(" at " + w.posStr(t.pos))
		}
	}
	for _, g := range w.gs {
		if !g.done {
			fmt.Fprintf(&b, "\n  goroutine %s waits in %s at %s", g.name, g.what, w.posStr(g.pos))
		}
	}
	if w.end != "" {
		b.WriteString("\n  end: " + w.end)
	}
	return b.String()
}

// seg cuts a stream at the given offsets.
func (w *World) seg(stream *Term, cuts []int) []*Term {
	var out []*Term
	n := int(w.StrLen(stream).n)
	last := 0
	for _, c := range append(append([]int{}, cuts...), n) {
		if c <= last || c > n {
			continue
		}
		out = append(out, w.SubStr(stream, w.Int(int64(last)), w.Int(int64(c))))
		last = c
	}
	return out
}

// conClient runs the client against the scripts that prep sets up.
func (s *Scenario) conClient(pre, dev, maxRuns int, race bool, prep func(cl *client), check func(cl *client)) {
	fn := s.c.connectFn()
	if fn == nil {
		return
	}
	var cl *client
	runs, complete := s.explore(WorldCfg{pre: pre, dev: dev, maxRuns: maxRuns, race: race, pkgs: []*ssa.Package{fn.Pkg}, start: func(w *World, st *State) (*ssa.Function, []*Term) {
		cl = &client{w: w, st: st}
		prep(cl)
		return fn, cl.args(fn)
	}, check: func(w *World) {
		if w.end == "abort" {
			s.undecided(w.fail)
			return
		}
		check(cl)
	}})
	s.r.Runs += runs
	if !complete {
		s.undecided(fmt.Sprintf("not every resolution of the schedule was analysed (%d were)", runs))
	}
}
