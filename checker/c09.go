package main

import (
	"fmt"
)

func init() { props["C09"] = c09 }

// sub: one submitted list of messages
type sub struct {
	at   int64
	msgs []subMsg
	null bool
}
type subMsg struct {
	n    int   // marshalled length
	flow int64 // a message with nothing but a flow value
	zero bool  // the empty message
	rows int   // text lines the converter yields
}

// subOffer: the list as an offer, and what its messages must look like.
func (w *World) subOffer(id int, sb sub) (offer, []*Term) {
	mt := w.msgType("InboundMessage")
	var nodes []*StructN
	var deep []*Term
	for i, m := range sb.msgs {
		n := w.opaqueMsg(mt, fmt.Sprintf("sub%d.%d", id, i))
		if m.zero {
			n = w.zero(mt).(*StructN)
		} else if m.flow > 0 {
			n = w.flowMsg(mt, m.flow)
		}
		nodes = append(nodes, n)
		d := w.deepN(n, &State{g: w.True, mem: w.baseMem}, mt, 0)
		deep = append(deep, d)
		if m.n > 0 {
			w.pblen[d] = m.n
		}
		w.rowsOf[d] = m.rows
	}
	return offer{at: sb.at, id: id, v: func(st *State) *Term {
		if sb.null {
			return w.Nil
		}
		var out []Node
		for _, n := range nodes {
			o := w.newObjN("submitted", mt, n)
			out = append(out, w.Ptr(o.id))
		}
		return w.listSlice(out...)
	}}, deep
}

// wire: the bytes a list of messages must become.
func (w *World) wireOf(deep []*Term, ascii bool) *Term {
	var ps []*Term
	mt := w.msgType("InboundMessage")
	for _, d := range deep {
		if ascii {
			for _, l := range w.linesOf(d) {
				ps = append(ps, l, w.Str("\n"))
			}
			continue
		}
		b := w.pbOf(d, mt)
		ps = append(ps, w.le32(w.StrLen(b)), b)
	}
	return w.Concat(ps...)
}

func (w *World) written(cn *Conn) *Term {
	var ps []*Term
	for _, x := range cn.out {
		ps = append(ps, x.t)
	}
	return w.concatBytes(ps)
}

func (w *World) probe() *Term {
	b := w.Str(w.flowBytes(w.msgType("InboundMessage"), w.flowConst("InboundMessage_PING")))
	return w.Concat(w.le32(w.StrLen(b)), b)
}

type subRun struct {
	ascii bool
	subs  []sub
	reply func(w *World) []Step // what the panel sends after the answer to the probe
	pause [][2]int64
	slow  int64
	cap   int
	pre   int
	runs  int
	again []sub // submitted on a second connection
	lose  int64 // the panel drops the first connection after this time
}

func (s *Scenario) subRun(o subRun) {
	what := "binary"
	if o.ascii {
		what = "ascii"
	}
	if o.runs == 0 {
		o.runs = 60
	}
	var deep, deep2 []*Term
	s.conClient(o.pre, 0, o.runs, false, func(cl *client) {
		w := cl.w
		deep, deep2 = nil, nil
		cl.slow, cl.cap = o.slow, o.cap
		mk := func() *Script {
			sc := &Script{after: true, pauseW: o.pause}
			if o.ascii {
				sc.steps = append(sc.steps, Step{data: w.Str("RDY\n")})
			} else {
				sc.steps = append(sc.steps, Step{data: w.ack()})
			}
			return sc
		}
		sc := mk()
		if o.reply != nil {
			sc.steps = append(sc.steps, o.reply(w)...)
		}
		if o.lose > 0 {
			sc.steps = append(sc.steps, Step{delay: o.lose, close: true})
		}
		w.scripts = []*Script{sc, mk()}
		for i, sb := range o.subs {
			of, d := w.subOffer(i, sb)
			cl.offers = append(cl.offers, of)
			deep = append(deep, d...)
		}
		for i, sb := range o.again {
			of, d := w.subOffer(100+i, sb)
			cl.offers = append(cl.offers, of)
			deep2 = append(deep2, d...)
		}
	}, func(cl *client) {
		w := cl.w
		neg := w.probe()
		if o.ascii {
			neg = w.Concat(neg, w.Str("\n"))
		}
		all := [][]*Term{deep}
		if o.lose > 0 {
			all = append(all, deep2)
		}
		if w.end == "panic" || w.end == "spin" {
			s.violate("write", what+": "+w.end, "the client does not keep running"+w.story())
			return
		}
		if len(w.conns) < len(all) {
			s.violate("write", what+": connection", fmt.Sprintf("%d of %d connections were made%s", len(w.conns), len(all), w.story()))
			return
		}
		if len(cl.in.offers) > 0 {
			s.violate("write", what+": submission not taken", "a submitted list is never taken from the channel"+w.story())
			return
		}
		for i, d := range all {
			got, want := w.written(w.conns[i]), w.Concat(neg, w.wireOf(d, o.ascii))
			if got != want {
				s.violate("write", what+": bytes on the wire", fmt.Sprintf("connection %d received %.400q\n  instead of %.400q%s", i, w.show(got), w.show(want), w.story()))
				return
			}
		}
		s.ok()
	})
}

func c09(c *Check) {
	m := func(n int) subMsg { return subMsg{n: n, rows: 1} }
	for _, ascii := range []bool{false, true} {
		tag := "binary"
		if ascii {
			tag = "ascii"
		}
		// traffic from the panel
		traffic := func(w *World, k int, gap int64) []Step {
			var out []Step
			for i := 0; i < k; i++ {
				it := item{name: fmt.Sprintf("in%d", i), n: 3 + i%5}
				if i%4 == 3 && !ascii {
					it.kind = "ping"
				}
				_, x := w.itemTok(it, ascii)
				out = append(out, Step{delay: gap, data: x})
			}
			return out
		}
		c.scenario(tag+": lists of every shape", func(s *Scenario) {
			shapes := []sub{
				{msgs: nil}, {null: true}, {msgs: []subMsg{m(1)}}, {msgs: []subMsg{{n: 9, rows: 0}}}, {msgs: []subMsg{{n: 7, rows: 5}}},
				{msgs: []subMsg{m(2), {flow: 1, rows: 1}, {zero: true}}}, {msgs: []subMsg{{zero: true}, m(4)}}, {msgs: []subMsg{m(255), m(256), m(65535)}},
				{msgs: []subMsg{m(300000)}}, {msgs: []subMsg{m(70000), {n: 65536, rows: 40}}}, {msgs: []subMsg{m(499999), m(500000), m(1200000), m(3)}},
				{msgs: []subMsg{m(5), m(5), m(5), m(5), m(5), m(5), m(5), m(5), m(5), m(5), m(5), m(5), m(5), m(5), m(5), m(5), m(5), m(5), m(5), m(5)}},
			}
			for i, a := range shapes {
				for j, b := range shapes {
					for _, cap := range []int{0, 5} {
						x, y, z := a, b, shapes[(i+j)%len(shapes)]
						x.at, y.at, z.at = sec, sec, 4*sec
						s.subRun(subRun{ascii: ascii, subs: []sub{x, y, z}, cap: cap})
					}
				}
			}
		})
		c.scenario(tag+": sizes", func(s *Scenario) {
			for _, n := range []int{1, 2, 3, 10, 100, 127, 128, 250, 251, 252, 253, 255, 256, 257, 1000, 1020, 1024, 1460, 4091, 4092, 4096, 8192, 32768, 65531, 65532, 65535, 65536, 65537, 131072, 499995, 499999, 500000, 1 << 20, 1 << 24, 1<<24 + 1} {
				s.subRun(subRun{ascii: ascii, subs: []sub{{at: sec, msgs: []subMsg{m(n), m(4), m(n + 1)}}}})
			}
			if ascii {
				for _, k := range []int{0, 1, 2, 3, 17, 64, 100, 257} {
					s.subRun(subRun{ascii: ascii, subs: []sub{{at: sec, msgs: []subMsg{{n: 9, rows: k}, {n: 8, rows: 1}}}, {at: sec, msgs: []subMsg{{n: 9, rows: k}}}}})
				}
			}
		})
		c.scenario(tag+": long exchange", func(s *Scenario) {
			for _, slow := range []int64{0, 100 * ms, 900 * ms} {
				var subs []sub
				for i := 0; i < 30; i++ {
					subs = append(subs, sub{at: sec + int64(i)*333*ms, msgs: []subMsg{{n: 3 + i, rows: 1}}})
				}
				s.subRun(subRun{ascii: ascii, subs: subs, slow: slow, reply: func(w *World) []Step { return traffic(w, 40, 250*ms) }})
			}
		})
		c.scenario(tag+": long lists", func(s *Scenario) {
			for _, k := range []int{17, 33, 51, 65, 101, 129, 257, 513} {
				var long []subMsg
				for i := 0; i < k; i++ {
					long = append(long, subMsg{n: 3 + i%9, rows: 1 + i%2})
				}
				for _, cap := range []int{0, 4} {
					s.subRun(subRun{ascii: ascii, cap: cap, subs: []sub{{at: sec, msgs: long}, {at: sec, msgs: []subMsg{m(4)}}, {at: sec, msgs: []subMsg{{n: 5, rows: 3}}}}})
				}
			}
		})
		c.scenario(tag+": many submissions", func(s *Scenario) {
			for _, gap := range []int64{0, ms, 300 * ms, 5 * sec} {
				for _, cap := range []int{0, 1, 10, 100} {
					var subs []sub
					for i := 0; i < 20; i++ {
						sb := sub{at: sec + int64(i)*gap}
						for j := 0; j < i%4; j++ {
							sb.msgs = append(sb.msgs, subMsg{n: 3 + i*7 + j, rows: (i + j) % 3})
						}
						subs = append(subs, sb)
					}
					s.subRun(subRun{ascii: ascii, subs: subs, cap: cap})
				}
			}
		})
		c.scenario(tag+": the panel reads late", func(s *Scenario) {
			for _, p := range [][2]int64{{sec / 2, 2 * sec}, {sec / 2, 4 * sec}, {sec / 2, 15 * sec}, {sec / 2, 70 * sec}} {
				s.subRun(subRun{ascii: ascii, pause: [][2]int64{p}, subs: []sub{{at: sec, msgs: []subMsg{m(5), m(6)}}, {at: sec + 1, msgs: []subMsg{m(50000)}}, {at: 40 * sec, msgs: []subMsg{m(7)}}}})
			}
		})
		for k := range 4 {
			c.scenario(fmt.Sprintf("%s: traffic from the panel meanwhile, %d", tag, k), func(s *Scenario) {
				pre, runs := 1, 4000
				if c.thorough() {
					pre, runs = 2, 100000
				}
				subs := []sub{{at: sec, msgs: []subMsg{m(5), m(6)}}, {at: sec, msgs: []subMsg{m(7)}}}
				if k%2 == 1 {
					subs = []sub{{at: sec, msgs: []subMsg{m(5)}}, {at: sec + 500*ms, msgs: []subMsg{m(6), {flow: 2, rows: 1}}}}
				}
				s.subRun(subRun{ascii: ascii, subs: subs, pre: pre, runs: runs, slow: []int64{0, 700 * ms}[k/2], reply: func(w *World) []Step { return traffic(w, 4, 500*ms) }})
			})
		}
		c.scenario(tag+": after a reconnect", func(s *Scenario) {
			for _, lose := range []int64{3 * sec, 10 * sec} {
				s.subRun(subRun{ascii: ascii, subs: []sub{{at: sec, msgs: []subMsg{m(5), m(6)}}}, lose: lose, again: []sub{{at: lose + 9*sec, msgs: []subMsg{m(7)}}, {at: lose + 9*sec, msgs: []subMsg{m(8)}}}})
			}
		})
	}
}
