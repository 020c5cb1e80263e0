package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C12"] = c12 }

// nego: one negotiation
type nego struct {
	name   string
	reply  func(w *World) []Step
	binary int                    // 1: binary, 0: ASCII, -1: either (stated nowhere)
	text   func(w *World) []*Term // error texts that may be handed on, nil: none may
	any    bool                   // the error text is not compared
	offers []sub
	within int64 // time by which the decision must have been made
	deaf   bool  // the panel has gone away: what is written cannot be observed
}

func (s *Scenario) negoCheck(w *World, o nego, fn *ssa.Function) bool {
	if w.end == "panic" || w.end == "spin" {
		s.violate("negotiation", w.end, fnName(fn)+" does not complete: "+o.name+w.story())
		return false
	}
	for _, ob := range w.obls {
		s.never("never-panics", fmt.Sprintf("%s in %s", ob.kind, fnName(ob.fn)), w.posStr(ob.pos)+": "+ob.kind, ob.cond)
	}
	return true
}

// detector: the stand-alone detector decides about one connection
func (s *Scenario) detector(o nego, pre, runs int) {
	fn := s.c.need(modRoot, "AutoDetectIfPanelEncodingIsBinary")
	if fn == nil {
		return
	}
	if runs == 0 {
		runs = 60
	}
	n, complete := s.explore(WorldCfg{pre: pre, maxRuns: runs, pkgs: []*ssa.Package{fn.Pkg}, start: func(w *World, st *State) (*ssa.Function, []*Term) {
		sc := &Script{after: true, steps: o.reply(w)}
		cn := w.accept(sc)
		var args []*Term
		for _, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Interface); ok {
				args = append(args, cn.term)
			} else {
				args = append(args, w.Str("192.0.2.1:9923"))
			}
		}
		return fn, args
	}, check: func(w *World) {
		if w.end == "abort" {
			s.undecided(w.fail)
			return
		}
		if !s.negoCheck(w, o, fn) {
			return
		}
		bad := func(rule, key, msg string) { s.violate("detector: "+rule, key, o.name+": "+msg+w.story()) }
		g := w.gs[0]
		if !g.done {
			bad("decides", "never", "the detector does not return")
			return
		}
		if o.within > 0 && g.retT > o.within {
			bad("decides", "late", fmt.Sprintf("the detector returns after %.2f s", float64(g.retT)/1e9))
			return
		}
		var got int
		switch g.ret {
		case w.True:
			got = 1
		case w.False:
			got = 0
		default:
			s.undecided("the result is not decided: " + w.show(g.ret))
			return
		}
		if o.binary >= 0 && got != o.binary {
			bad("class", o.name, fmt.Sprintf("the panel is classified as %s", map[int]string{0: "ASCII", 1: "binary"}[got]))
			return
		}
		if !s.probeOnly(w, w.conns[0], got == 1, nil, o, bad) {
			return
		}
		if w.conns[0].closed {
			bad("class", "closed", "the connection is closed")
			return
		}
		s.ok()
	}})
	s.r.Runs += n
	if !complete {
		s.undecided(fmt.Sprintf("not every resolution of the schedule was analysed (%d were)", n))
	}
}

// accept makes a connection that exists from the start.
func (w *World) accept(sc *Script) *Conn {
	cn := &Conn{id: len(w.conns), sc: sc, rdl: -1, wdl: -1, closeT: -1, peerT: -1}
	w.connTerm(cn)
	w.conns = append(w.conns, cn)
	if !sc.after {
		w.startConn(cn)
	}
	return cn
}

// probeOnly: what is on the wire is the probe, the line feed that flushes it on an ASCII panel, and the traffic.
func (s *Scenario) probeOnly(w *World, cn *Conn, binary bool, traffic *Term, o nego, bad func(rule, key, msg string)) bool {
	out := w.written(cn)
	if len(cn.out) == 0 {
		bad("probe", "none", "no probe is written")
		return false
	}
	want := []*Term{w.probe()}
	if !binary {
		want = append(want, w.Str("\n"))
	}
	if traffic != nil {
		want = append(want, traffic)
	}
	all := w.Concat(want...)
	if out == all {
		return true
	}
	if o.deaf && out == w.probe() {
		return true
	}
	if p := w.probe(); w.SubStr(out, w.Int(0), w.StrLen(p)) != p {
		bad("probe", "content", "what is written first is not exactly one ping frame: "+w.show(out))
		return false
	}
	bad("after the probe", map[bool]string{true: "binary", false: "ASCII"}[binary], fmt.Sprintf("the panel receives %s instead of %s", w.show(out), w.show(all)))
	return false
}

// negotiate: the reconnecting client decides about one connection
func (s *Scenario) negotiate(o nego, pre, runs int) {
	fn := s.c.connectFn()
	if fn == nil {
		return
	}
	if runs == 0 {
		runs = 100
	}
	var subs [][]*Term
	s.conClient(pre, 0, runs, false, func(cl *client) {
		w := cl.w
		subs = nil
		w.scripts = []*Script{{after: true, steps: o.reply(w)}}
		w.maxDial = 1
		for i, sb := range o.offers {
			of, d := w.subOffer(i, sb)
			cl.offers = append(cl.offers, of)
			subs = append(subs, d)
		}
	}, func(cl *client) {
		w := cl.w
		if !s.negoCheck(w, o, fn) {
			return
		}
		bad := func(rule, key, msg string) { s.violate("client: "+rule, key, o.name+": "+msg+w.story()) }
		if len(w.conns) == 0 || len(cl.cbs) == 0 || !cl.cbs[0].connect {
			bad("decides", "never", "the connect callback is not made")
			return
		}
		cb := cl.cbs[0]
		if o.within > 0 && cb.t > o.within {
			bad("decides", "late", fmt.Sprintf("the connect callback is made after %.2f s", float64(cb.t)/1e9))
			return
		}
		var got int
		switch cb.bin {
		case w.True:
			got = 1
		case w.False:
			got = 0
		default:
			s.undecided("the binary flag is not decided: " + w.show(cb.bin))
			return
		}
		if o.binary >= 0 && got != o.binary {
			bad("class", o.name, fmt.Sprintf("the panel is classified as %s", map[int]string{0: "ASCII", 1: "binary"}[got]))
			return
		}
		if !o.any {
			ok := false
			texts := []*Term{w.Empty}
			if o.text != nil {
				texts = o.text(w)
			}
			for _, t := range texts {
				ok = ok || t == cb.text
			}
			if !ok {
				bad("error text", o.name, fmt.Sprintf("the connect callback gets %s instead of %s", w.show(cb.text), w.show(texts[0])))
				return
			}
		}
		if cb.conn != w.conns[0].term {
			bad("error text", "connection", "the connect callback does not get the connection")
			return
		}
		if got == 0 && cb.writes < 2 && !o.deaf {
			bad("after the probe", "order", "the connect callback is made before the line feed is written")
			return
		}
		cn := w.conns[0]
		taken := len(cl.offers) - len(cl.in.offers)
		var tr []*Term
		for i := 0; i < taken; i++ {
			tr = append(tr, w.wireOf(subs[i], got == 0))
		}
		var traffic *Term
		if len(tr) > 0 {
			traffic = w.Concat(tr...)
		}
		if cn.peerT >= 0 { // the panel went away: submissions may be lost, the probe may not be followed by anything else
			out := w.written(cn)
			pre := w.probe()
			if got == 0 && !o.deaf {
				pre = w.Concat(pre, w.Str("\n"))
			}
			if n := w.StrLen(out); n.k == KInt && n.n >= w.StrLen(pre).n && w.SubStr(out, w.Int(0), w.StrLen(pre)) == pre {
				s.ok()
				return
			}
			if !s.probeOnly(w, cn, got == 1, traffic, o, bad) {
				return
			}
			s.ok()
			return
		}
		if taken != len(subs) && w.end != "enough" {
			bad("after the probe", "traffic", "a submitted message is not taken")
			return
		}
		if !s.probeOnly(w, cn, got == 1, traffic, o, bad) {
			return
		}
		s.ok()
	})
}

func c12(c *Check) {
	pre, runs := 1, 3000
	if c.thorough() {
		pre, runs = 2, 60000
	}
	delays := []int64{0, ms, 10 * ms, 100 * ms, 500 * ms, 900 * ms, sec, 1001 * ms, 1250 * ms, 1500 * ms, 1750 * ms, 1900 * ms, 1990 * ms, 1999 * ms}
	const win = 2500 * ms
	lit := func(x string) func(w *World) *Term { return func(w *World) *Term { return w.Str(x) } }
	m := func(n int) subMsg { return subMsg{n: n, rows: 2} }
	early := []sub{{at: 0, msgs: []subMsg{m(5)}}, {at: 0, msgs: []subMsg{m(3), m(4)}}}
	type kind struct {
		name    string
		data    func(w *World) *Term
		client  int
		detect  int
		text    func(w *World) []*Term
		any     bool
		closeOK bool
	}
	kinds := []kind{{name: "acknowledge frame", data: func(w *World) *Term { return w.ack() }, client: 1, detect: 1}}
	for _, n := range []int{1, 2, 3, 27, 252, 256, 508, 764, 900, 995} {
		n := n
		kinds = append(kinds, kind{name: fmt.Sprintf("other frame of %d bytes", n), client: 1, detect: 1, data: func(w *World) *Term { return w.frame(w.payload(fmt.Sprintf("other%d", n), n, false)) }})
	}
	for _, f := range []string{"PING", "BSY", "RDY", "NACK", "HELLO"} {
		f := f
		kinds = append(kinds, kind{name: "frame with " + f, client: 1, detect: 1, data: func(w *World) *Term {
			v, ok := w.flowOpt("OutboundMessage_" + f)
			if !ok {
				v = w.flowConst("OutboundMessage_ACK")
			}
			return w.frame(w.flowPayload("flow"+f, v))
		}})
	}
	for _, x := range []string{"RDY\n", "RDY\r\n", "RDY\nmap=1:1\n", "RDY\nBSY\nRDY\n", "map=1:1\n", "map=1:1\r\n", "map=37:37\nmap=38:0\n", "map=0:0\nRDY\n", "RDY\nmap=1:1\n_model=RP_X\n_serial=1234\n"} {
		kinds = append(kinds, kind{name: fmt.Sprintf("%q", x), data: lit(x), client: 0, detect: 0})
	}
	for _, x := range []string{"BSY\n", "BSY\r\n", "ACK\n", "NACK\n", "A", "OK", "OK\n", "\n", "\r\n", "HWC#1=Down\n", "HWC#12=Press", "_model=SK_X\n_serial=77\n", "_serverModeLockToIP=10.0.0.1\n", "Hello, this is not a panel at all\r\n", "ErrorMsg\n", "ErrorMs=x\n", "errormsg=x\n", " ErrorMsg=x\n", "HTTP/1.1 400 Bad Request\r\nContent-Type: text/plain; charset=utf-8\r\nConnection: close\r\n\r\n400 Bad Request"} {
		kinds = append(kinds, kind{name: fmt.Sprintf("%q", x), data: lit(x), client: 0, detect: -1})
	}
	for _, n := range []int{0, 1, 5, 26, 100, 255, 489, 981} {
		for _, end := range []string{"", "\n", "\r\n", "\nmap=1:1\n", "\nErrorMsg=second\n", "\n\n"} {
			n, end := n, end
			if n+9+len(end) > 1000 {
				continue
			}
			sym := func(w *World) *Term {
				if n == 0 {
					return w.Empty
				}
				return w.SymStr(fmt.Sprintf("reason%d", n), &StrInfo{chars: "^\t\r\n\v\f", min: n, max: n})
			}
			kinds = append(kinds, kind{name: fmt.Sprintf("ErrorMsg= with %d characters%q", n, end), client: 0, detect: -1, data: func(w *World) *Term {
				return w.Concat(w.Str("ErrorMsg="), sym(w), w.Str(end))
			}, text: func(w *World) []*Term {
				if end == "\r\n" {
					return []*Term{sym(w), w.Concat(sym(w), w.Str("\r"))}
				}
				return []*Term{sym(w)}
			}})
		}
	}
	for _, k := range kinds {
		k := k
		mk := func(d int64, how string) nego {
			return nego{name: k.name + how, within: win, any: k.any, text: k.text, reply: func(w *World) []Step {
				st := []Step{{delay: d, data: k.data(w)}}
				switch how {
				case ", then closed":
					st = append(st, Step{close: true})
				case ", closed later":
					st = append(st, Step{delay: 300 * ms, close: true})
				case ", then reset":
					st = append(st, Step{reset: true})
				case ", then frames":
					st = append(st, Step{delay: 2500 * ms, data: w.frame(w.payload("later", 5, false))})
				}
				return st
			}}
		}
		c.scenario("reply "+k.name, func(s *Scenario) {
			for _, d := range delays {
				for _, how := range []string{"", ", then closed", ", closed later", ", then reset"} {
					o := mk(d, how)
					o.deaf = how == ", then reset"
					o.binary = k.detect
					s.detector(o, 0, 0)
					o.binary = k.client
					s.negotiate(o, 0, 0)
					o.offers = early
					s.negotiate(o, 0, 0)
				}
			}
		})
		c.scenario("reply "+k.name+", other schedules", func(s *Scenario) {
			o := mk(100*ms, "")
			o.binary, o.offers = k.client, early
			s.negotiate(o, pre, runs)
		})
	}
	silent := map[string][]Step{"silence": nil, "silence, text after the window": {{delay: 2600 * ms, data: nil}}, "silence, then closed": {{delay: 1500 * ms, close: true}}, "closed at once": {{close: true}}, "reset": {{delay: 100 * ms, reset: true}}, "closed after the window": {{delay: 3 * sec, close: true}}, "frame after the window": {{delay: 2600 * ms, data: nil}}}
	for name, steps := range silent {
		name, steps := name, steps
		c.scenario(name, func(s *Scenario) {
			for _, offers := range [][]sub{nil, early} {
				o := nego{name: name, within: win, binary: 0, offers: offers, deaf: name == "reset", reply: func(w *World) []Step {
					out := append([]Step{}, steps...)
					for i := range out {
						if !out[i].close && !out[i].reset {
							if name == "frame after the window" {
								out[i].data = w.ack()
							} else {
								out[i].data = w.Str("RDY\n")
							}
						}
					}
					return out
				}}
				s.negotiate(o, pre, runs)
				if offers == nil {
					s.detector(o, pre, runs)
				}
			}
		})
	}
}
