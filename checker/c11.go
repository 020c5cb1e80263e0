package main

import (
	"fmt"
)

func init() { props["C11"] = c11 }

// life: one run of the client's life
type life struct {
	name    string
	scripts func(w *World) []*Script
	last    func(w *World) *Script // every further connection
	cancel  int64                  // -1: never, -2: at any point
	offers  []sub
	noWG    bool
	noCB    bool
	config  bool
	period  [2]int64
	pre     int
	runs    int
	slow    int64
	horizon int64
	dials   int
	dev     int
	want    func(w *World) []*Term // complete deliveries, nil: not compared
	prefix  bool                   // deliveries may stop at the cancellation
	cbs     int                    // callbacks expected, 0: not compared
}

func (s *Scenario) lifeRun(o life) {
	if o.runs == 0 {
		o.runs = 200
	}
	s.conClient(o.pre, o.dev, o.runs, false, func(cl *client) {
		w := cl.w
		if o.horizon > 0 {
			w.horizon = o.horizon
		}
		w.maxDial = o.dials
		cl.noWG, cl.noCB, cl.config, cl.slow = o.noWG, o.noCB, o.config, o.slow
		cl.period = o.period
		if o.scripts != nil {
			w.scripts = o.scripts(w)
		}
		if o.last != nil {
			w.lastSc = o.last(w)
		}
		for i, sb := range o.offers {
			of, _ := w.subOffer(i, sb)
			cl.offers = append(cl.offers, of)
		}
		switch {
		case o.cancel == -2:
			cl.float = true
		case o.cancel >= 0:
			w.timed = append(w.timed, timedEv{o.cancel, func() { w.cancel(cl.ctx, "cancelled") }})
		}
	}, func(cl *client) { s.lifeCheck(cl, o) })
}

func (s *Scenario) lifeCheck(cl *client, o life) {
	w := cl.w
	ok := true
	bad := func(rule, key, msg string) {
		ok = false
		s.violate(rule, key, msg+w.story())
	}
	cancelled := w.cancelT >= 0
	if w.end == "panic" || w.end == "spin" {
		bad("lifecycle", w.end, "the client does not keep running")
		return
	}
	for _, ob := range w.obls {
		s.never("never-panics", fmt.Sprintf("%s in %s", ob.kind, fnName(ob.fn)), w.posStr(ob.pos)+": "+ob.kind, ob.cond)
	}
	// callbacks alternate; a cancelled disconnect comes after the cancellation and is the last
	for i, cb := range cl.cbs {
		if cb.connect != (i%2 == 0) {
			bad("callbacks", "alternation", "connect and disconnect callbacks do not alternate")
		}
		if !cb.connect {
			switch cb.canc {
			case w.True:
				if !cb.after {
					bad("callbacks", "cancelled before cancellation", "a disconnect is reported as cancelled although nothing was cancelled")
				}
				if i != len(cl.cbs)-1 {
					bad("callbacks", "callback after a cancelled disconnect", "callbacks follow a disconnect reported as cancelled")
				}
			case w.False:
			default:
				bad("callbacks", "flag", "the flag of the disconnect callback is not decided: "+w.show(cb.canc))
			}
		}
	}
	if o.cbs > 0 && !cancelled && !o.noCB && len(cl.cbs) != o.cbs {
		bad("callbacks", "number of callbacks", fmt.Sprintf("%d callbacks instead of %d", len(cl.cbs), o.cbs))
	}
	// wait group: zero only when nothing is left
	if cancelled {
		bound := w.cancelT + 30*sec + max(o.period[0], o.period[1])*sec*2
		ret := int64(-1)
		for _, e := range w.trace {
			if e.kind == "return" && e.n == 0 {
				ret = e.t
			}
		}
		switch {
		case ret < 0:
			bad("shutdown", "the call does not return", "the call does not return after the cancellation")
		case ret > bound:
			bad("shutdown", "the call returns late", fmt.Sprintf("the call returns %.1f s after the cancellation", float64(ret-w.cancelT)/1e9))
		}
		for _, g := range w.gs[1:] {
			if !g.done {
				bad("shutdown", "goroutine left behind: "+g.name, "goroutine "+g.name+" started at "+w.posStr(g.pos)+" never ends")
			}
		}
		for _, cn := range w.conns {
			if !cn.closed {
				bad("shutdown", "socket left open", fmt.Sprintf("connection %d is never closed", cn.id))
			}
		}
		if !o.noCB && len(cl.cbs)%2 != 0 {
			bad("callbacks", "no last disconnect", "the last connect is not followed by a disconnect")
		}
	} else {
		if w.gs[0].done {
			bad("lifecycle", "returned", "the call returned although nothing was cancelled")
		}
	}
	if cl.wg != nil {
		g := w.wgs[fmt.Sprint(cl.wg.id)]
		if cancelled && (g == nil || g.n != 0) {
			bad("shutdown", "wait group", "the wait group does not drain")
		}
		if g == nil {
			bad("shutdown", "wait group", "the wait group is not used")
		}
		for _, e := range w.trace {
			if e.kind == "wgzero" && e.n > 0 {
				bad("shutdown", "wait group drained early", fmt.Sprintf("the wait group reaches zero at %s while another goroutine of the call is still to finish", w.posStr(e.pos)))
			}
		}
	}
	// every socket given up is closed, and only one is open at a time
	open := map[int]bool{}
	for _, e := range w.trace {
		switch e.kind {
		case "connected":
			if len(open) > 0 {
				bad("lifecycle", "two connections at a time", "a connection is made while an earlier one is still open")
			}
			open[e.conn] = true
		case "close":
			delete(open, e.conn)
		}
	}
	// deliveries
	if o.want != nil {
		want := o.want(w)
		var got []*Term
		for _, d := range cl.got {
			got = append(got, d.msgs...)
		}
		for i, m := range got {
			if i >= len(want) || m != want[i] {
				bad("delivery", "delivered messages", fmt.Sprintf("message %d delivered is not the one expected (%d expected)", i+1, len(want)))
				break
			}
		}
		if ok && len(got) < len(want) && !(o.prefix && cancelled) {
			bad("delivery", "message lost", fmt.Sprintf("%d of %d messages were delivered", len(got), len(want)))
		}
	}
	// retry periods
	no, re := int64(3), int64(1)
	if o.config && o.period[0] != 0 {
		no = o.period[0]
	}
	if o.config && o.period[1] != 0 {
		re = o.period[1]
	}
	from, per, slack := int64(-1), int64(0), int64(0)
	for _, e := range w.trace {
		switch e.kind {
		case "dial":
			if from >= 0 && (w.cancelT < 0 || w.cancelT > from+per+slack) {
				if d := e.t - from; d < per || d > per+slack {
					bad("retry", "retry period", fmt.Sprintf("the client dials %.2f s after it lost or missed the panel, the period is %d s", float64(d)/1e9, per/sec))
				}
			}
			from = -1
		case "refused":
			from, per, slack = e.t, no*sec, sec
		case "lost":
			from, per, slack = e.t, re*sec, 3*sec
		}
	}
	if from >= 0 && !cancelled && w.end != "enough" && w.end != "horizon" {
		bad("retry", "no further attempt", "the client does not try again")
	}
	if ok {
		s.ok()
	}
}

func c11(c *Check) {
	bin := func(w *World, steps ...Step) *Script {
		return &Script{after: true, steps: append([]Step{{data: w.ack()}}, steps...)}
	}
	asc := func(w *World, steps ...Step) *Script {
		return &Script{after: true, steps: append([]Step{{data: w.Str("RDY\n")}}, steps...)}
	}
	fr := func(w *World, ascii bool, i, n int) *Term {
		_, x := w.itemTok(item{name: fmt.Sprintf("f%d", i), n: n}, ascii)
		return x
	}
	dp := func(w *World, ascii bool, i, n int) *Term {
		t, _ := w.itemTok(item{name: fmt.Sprintf("f%d", i), n: n}, ascii)
		return w.deepTok(t)
	}
	hello := func(w *World, ascii bool, steps ...Step) *Script {
		if ascii {
			return asc(w, steps...)
		}
		return bin(w, steps...)
	}
	pre, runs, dev0, dev1, devL := 1, 20000, 2, 2, 1
	if c.thorough() {
		pre, runs, dev0, dev1, devL = 2, 400000, 5, 3, 2
	}
	type env struct {
		name  string
		mk    func(w *World) []*Script
		last  func(w *World) *Script
		want  func(w *World) []*Term
		offer []sub
	}
	refuse := func(w *World) *Script { return &Script{refuse: true} }
	m := func(n int) subMsg { return subMsg{n: n, rows: 1} }
	envs := []env{
		{name: "panel absent", last: refuse},
		{name: "panel absent, messages submitted", last: refuse, offer: []sub{{at: 500 * ms, msgs: []subMsg{m(3)}}, {at: 3500 * ms, msgs: []subMsg{m(3)}}}},
		{name: "dial hangs", last: func(w *World) *Script { return &Script{hang: true} }},
		{name: "accepts but silent", last: func(w *World) *Script { return &Script{after: true} }},
		{name: "accepts and closes", last: func(w *World) *Script { return &Script{after: true, steps: []Step{{delay: 100 * ms, close: true}}} }},
		{name: "resets at once", last: func(w *World) *Script { return &Script{steps: []Step{{reset: true}}} }},
	}
	for _, ascii := range []bool{false, true} {
		tag := map[bool]string{false: "binary ", true: "ascii "}[ascii]
		envs = append(envs,
			env{name: tag + "idle", last: func(w *World) *Script { return hello(w, ascii) }},
			env{name: tag + "traffic", last: func(w *World) *Script {
				return hello(w, ascii, Step{delay: sec, data: fr(w, ascii, 0, 3)}, Step{delay: sec, data: fr(w, ascii, 1, 5)})
			}, want: func(w *World) []*Term { return []*Term{dp(w, ascii, 0, 3), dp(w, ascii, 1, 5)} }, offer: []sub{{at: sec, msgs: []subMsg{m(5), m(6)}}}},
			env{name: tag + "middle of a frame", last: func(w *World) *Script {
				return hello(w, ascii, Step{delay: sec, data: w.SubStr(fr(w, ascii, 0, 30), w.Int(0), w.Int(20))})
			}},
			env{name: tag + "in a header", last: func(w *World) *Script {
				return hello(w, ascii, Step{delay: sec, data: w.SubStr(fr(w, ascii, 0, 30), w.Int(0), w.Int(2))})
			}},
			env{name: tag + "panel lost, then absent", mk: func(w *World) []*Script {
				return []*Script{hello(w, ascii, Step{delay: sec, data: fr(w, ascii, 0, 3)}, Step{delay: 500 * ms, close: true})}
			}, last: refuse, want: func(w *World) []*Term { return []*Term{dp(w, ascii, 0, 3)} }},
			env{name: tag + "panel lost and back", mk: func(w *World) []*Script {
				return []*Script{hello(w, ascii, Step{delay: 500 * ms, close: true})}
			}, last: func(w *World) *Script { return hello(w, ascii, Step{delay: sec, data: fr(w, ascii, 0, 3)}) }, want: func(w *World) []*Term { return []*Term{dp(w, ascii, 0, 3)} }},
			env{name: tag + "panel reset and back", mk: func(w *World) []*Script {
				return []*Script{hello(w, ascii, Step{delay: 500 * ms, reset: true})}
			}, last: func(w *World) *Script { return hello(w, ascii) }},
			env{name: tag + "panel stops reading", last: func(w *World) *Script {
				x := hello(w, ascii)
				x.pauseW = [][2]int64{{500 * ms, 1 << 60}}
				return x
			}, offer: []sub{{at: sec, msgs: []subMsg{m(5)}}}},
		)
	}
	for _, en := range envs {
		c.scenario(en.name+": cancelled at any point", func(s *Scenario) {
			for _, v := range []life{{}, {noWG: true}, {noCB: true}, {config: true}, {config: true, period: [2]int64{7, 4}}} {
				v.cancel, v.scripts, v.last, v.want, v.prefix, v.offers, v.runs, v.horizon = -2, en.mk, en.last, en.want, true, en.offer, runs, 10*sec
				v.dials, v.dev = 3, dev0
				s.lifeRun(v)
			}
		})
		c.scenario(en.name+": cancelled at any point, other schedules", func(s *Scenario) {
			s.lifeRun(life{cancel: -2, scripts: en.mk, last: en.last, want: en.want, prefix: true, offers: en.offer, pre: pre, runs: runs, horizon: 9 * sec, dials: 2, dev: dev1})
		})
		c.scenario(en.name+": cancelled at chosen times", func(s *Scenario) {
			for t := int64(0); t <= 12*sec; t += 250 * ms {
				for _, d := range []int64{-1, 0, 1} {
					if t+d >= 0 {
						s.lifeRun(life{cancel: t + d, scripts: en.mk, last: en.last, want: en.want, prefix: true, offers: en.offer, config: true, period: [2]int64{0, 3}})
					}
				}
			}
		})
	}
	// the panel drops the connection
	type drop struct {
		cut    int // bytes of the stream that arrive, -1-k: k bytes of the reply to the probe
		reset  bool
		split  bool // one byte per segment
		gap    int64
		before int64 // delay before the stream
	}
	its := []item{{name: "p", n: 3}, {name: "q", n: 5}, {name: "r", n: 0}, {name: "s", n: 2}}
	build := func(w *World, ascii bool, id int, d *drop) (*Script, []*Term) {
		var ps, msgs []*Term
		var ends []int
		pos := 0
		for _, it := range its {
			it.name = fmt.Sprintf("%s%d", it.name, id)
			if ascii && it.n == 0 {
				it.n = 1
			}
			t, x := w.itemTok(it, ascii)
			ps, msgs = append(ps, x), append(msgs, w.deepTok(t))
			pos += int(w.StrLen(x).n)
			ends = append(ends, pos)
		}
		stream := w.Concat(ps...)
		reply := w.ack()
		if ascii {
			reply = w.Str("RDY\n")
		}
		sc := &Script{after: true}
		if d == nil {
			sc.steps = []Step{{data: reply}, {delay: sec, data: stream}}
			return sc, msgs
		}
		if d.cut < 0 {
			if k := -1 - d.cut; k > 0 {
				sc.steps = append(sc.steps, Step{delay: min(d.before, 1500*ms), data: w.SubStr(reply, w.Int(0), w.Int(int64(k)))})
			}
			msgs = nil
		} else {
			sc.steps = []Step{{data: reply}}
			var cuts []int
			if d.split {
				for i := 1; i < d.cut; i++ {
					cuts = append(cuts, i)
				}
			}
			if d.cut > 0 {
				for i, x := range w.seg(w.SubStr(stream, w.Int(0), w.Int(int64(d.cut))), cuts) {
					st := Step{delay: 10 * ms, data: x}
					if i == 0 {
						st.delay = d.before
					}
					sc.steps = append(sc.steps, st)
				}
			}
			n := 0
			for n < len(ends) && ends[n] <= d.cut {
				n++
			}
			msgs = msgs[:n]
		}
		sc.steps = append(sc.steps, Step{delay: d.gap, close: !d.reset, reset: d.reset})
		return sc, msgs
	}
	lossRun := func(s *Scenario, ascii bool, ds []drop, v life) {
		v.cancel, v.horizon = -1, 0
		if v.runs == 0 {
			v.dev, v.runs = devL, runs
		}
		v.scripts = func(w *World) (out []*Script) {
			for i := range ds {
				sc, _ := build(w, ascii, i, &ds[i])
				out = append(out, sc)
			}
			sc, _ := build(w, ascii, 99, nil)
			return append(out, sc)
		}
		v.want = func(w *World) (out []*Term) {
			for i := range ds {
				_, m := build(w, ascii, i, &ds[i])
				out = append(out, m...)
			}
			_, m := build(w, ascii, 99, nil)
			return append(out, m...)
		}
		v.cbs = 2*len(ds) + 1
		s.lifeRun(v)
	}
	for _, ascii := range []bool{false, true} {
		tag := map[bool]string{false: "binary: ", true: "ascii: "}[ascii]
		N, R := 0, 0
		size := func() {
			if fn := c.connectFn(); fn == nil {
				return
			}
			for _, it := range its {
				if ascii {
					N += max(it.n, 1) + 1
				} else {
					N += it.n + 4
				}
			}
			R = 4
			if !ascii {
				R = 4 + 2
			}
		}
		size()
		for _, reset := range []bool{false, true} {
			how := map[bool]string{false: "closed", true: "reset"}[reset]
			for part := 0; part < 3; part++ {
				c.scenario(fmt.Sprintf("%s%s at every offset, %d", tag, how, part), func(s *Scenario) {
					for k := -1 - R + part; k <= N; k += 3 {
						for _, gap := range []int64{0, 700 * ms} {
							for _, before := range []int64{ms, sec} {
								d := drop{cut: k, reset: reset, gap: gap, before: before}
								lossRun(s, ascii, []drop{d}, life{})
								d.split = true
								if k > 1 {
									lossRun(s, ascii, []drop{d}, life{})
								}
							}
						}
						d := drop{cut: k, reset: reset, before: 3 * sec}
						lossRun(s, ascii, []drop{d, d}, life{config: true, period: [2]int64{6, 4}})
						lossRun(s, ascii, []drop{d, {cut: N, before: ms, gap: 3 * sec}, d, {cut: N, before: ms}}, life{noWG: true, slow: 100 * ms})
						lossRun(s, ascii, []drop{d}, life{noCB: true, offers: []sub{{at: sec, msgs: []subMsg{m(4)}}, {at: 4 * sec, msgs: []subMsg{m(4), m(2)}}, {at: 6 * sec, msgs: []subMsg{m(4)}}}})
					}
				})
				c.scenario(fmt.Sprintf("%s%s, other schedules, %d", tag, how, part), func(s *Scenario) {
					for k := -1 - R + part; k <= N; k += 3 {
						lossRun(s, ascii, []drop{{cut: k, reset: reset, before: ms}}, life{pre: pre, dev: dev1, runs: runs, offers: []sub{{at: sec, msgs: []subMsg{m(4)}}, {at: 2 * sec, msgs: []subMsg{m(4)}}}})
					}
				})
			}
			c.scenario(tag+how+" again and again", func(s *Scenario) {
				for k := 0; k <= N; k += 3 {
					var ds []drop
					for i := 0; i < 12; i++ {
						ds = append(ds, drop{cut: (k + i*5) % (N + 1), reset: reset != (i%3 == 1), gap: int64(i%4) * 400 * ms, before: 20 * ms})
					}
					lossRun(s, ascii, ds, life{config: true, period: [2]int64{1, 2}, dev: 1, runs: runs})
				}
			})
		}
	}
	c.scenario("retry periods", func(s *Scenario) {
		for _, cfg := range []life{{}, {config: true}, {config: true, period: [2]int64{1, 1}}, {config: true, period: [2]int64{9, 0}}, {config: true, period: [2]int64{0, 9}}, {config: true, period: [2]int64{60, 45}}} {
			for n := 0; n <= 4; n++ {
				for loss := 0; loss <= 2; loss++ {
					v := cfg
					v.cancel = -1
					v.cbs = 2*loss + 1
					v.horizon = 900 * sec
					v.scripts = func(w *World) (out []*Script) {
						for i := 0; i <= loss; i++ {
							for j := 0; j < n; j++ {
								out = append(out, refuse(w))
							}
							d := &drop{cut: 9, before: ms, reset: i%2 == 1, gap: 200 * ms}
							if i == loss {
								d = nil
							}
							sc, _ := build(w, false, i, d)
							out = append(out, sc)
						}
						return
					}
					v.offers = []sub{{at: 100 * ms, msgs: []subMsg{m(3)}}, {at: 4 * sec, msgs: []subMsg{m(3)}}}
					s.lifeRun(v)
				}
			}
		}
	})
}
