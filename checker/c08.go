package main

import "fmt"

func init() { props["C08"] = c08 }

// a message of a modelled panel
type item struct {
	name string
	n    int    // payload or line length
	kind string // "", "bad", "ping"
	eol  string // ASCII
	pad  string // ASCII: white space around the text
}

func (w *World) itemTok(it item, ascii bool) (t *tok, wire *Term) {
	if ascii {
		eol := it.eol
		if eol == "" {
			eol = "\n"
		}
		if it.n == 0 {
			return nil, w.Str(it.pad + eol)
		}
		t = w.textLine(it.name, it.n)
		return t, w.Concat(w.Str(it.pad), t.text, w.Str(eol))
	}
	if it.kind == "ping" {
		t = w.flowPayload(it.name, w.flowConst("OutboundMessage_PING"))
	} else {
		t = w.payload(it.name, it.n, it.kind == "bad")
	}
	return t, w.frame(t)
}

// delivery compares what was delivered with what was sent.
func (s *Scenario) delivery(cl *client, want []*Term, what string) bool {
	var got []*Term
	for _, d := range cl.got {
		got = append(got, d.msgs...)
	}
	key := what
	for i := range want {
		if i >= len(got) {
			s.violate("delivery", key+": message lost", fmt.Sprintf("message %d of %d was never delivered%s", i+1, len(want), cl.w.story()))
			return false
		}
		if got[i] != want[i] {
			s.violate("delivery", key+": message altered", fmt.Sprintf("message %d delivered differs from the one sent: %.300s\n  instead of %.300s%s", i+1, cl.w.show(got[i]), cl.w.show(want[i]), cl.w.story()))
			return false
		}
	}
	if len(got) > len(want) {
		s.violate("delivery", key+": message invented", fmt.Sprintf("%d messages delivered, %d sent%s", len(got), len(want), cl.w.story()))
		return false
	}
	// later activity must not change what was handed out
	for _, d := range cl.got {
		st := &State{g: cl.w.g, mem: cl.w.mem}
		for i, p := range d.ptrs {
			if cl.w.deep(p, st, cl.w.msgPtr("OutboundMessage")) != d.msgs[i] {
				s.violate("delivery", key+": message changed after delivery", "a delivered message is modified afterwards"+cl.w.story())
				return false
			}
		}
	}
	s.ok()
	return true
}

// connectedOnly: one connect callback, no disconnect, the connection is still open and read from.
func (s *Scenario) connectedOnly(cl *client, what string) {
	w := cl.w
	bad := ""
	switch {
	case len(cl.cbs) != 1 || !cl.cbs[0].connect:
		bad = fmt.Sprintf("%d callbacks instead of one connect", len(cl.cbs))
	case len(w.conns) != 1:
		bad = fmt.Sprintf("%d connections were made", len(w.conns))
	case w.conns[0].closed:
		bad = "the connection was closed"
	case w.gs[0].done:
		bad = "the call returned"
	case w.end != "quiet" && w.end != "horizon":
		bad = "analysis of the pass ended with " + w.end
	}
	if bad != "" {
		s.violate("stays-connected", what+": "+bad, bad+w.story())
		return
	}
	s.ok()
}

type segm struct {
	name string
	cuts []int
	gaps []int64 // delay before each segment after the first, last value repeated
}

func (g segm) steps(w *World, stream *Term, first int64) []Step {
	var out []Step
	for i, d := range w.seg(stream, g.cuts) {
		dl := first
		if i > 0 {
			dl = 0
			if len(g.gaps) > 0 {
				dl = g.gaps[min(i-1, len(g.gaps)-1)]
			}
		}
		out = append(out, Step{delay: dl, data: d})
	}
	return out
}

// strm: the panel answers the probe and then sends groups of items, each group cut as told, groups apart by idle.
type strm struct {
	ascii   bool
	hello   *Term
	silent  bool // no answer to the probe
	groups  [][]item
	cut     segm
	first   int64
	idle    int64
	slow    int64 // pace of the consumer
	cap     int
	traffic int // message lists submitted meanwhile
	pre     int
	runs    int
	horizon int64
	end     []Step
}

func (s *Scenario) streamRun(o strm) {
	what := "binary"
	if o.ascii {
		what = "ascii"
	}
	if o.runs == 0 {
		o.runs = 60
	}
	if o.first == 0 {
		o.first = sec
	}
	s.conClient(o.pre, 0, o.runs, false, func(cl *client) {
		w := cl.w
		if o.horizon > 0 {
			w.horizon = o.horizon
		}
		cl.slow = o.slow
		cl.cap = o.cap
		sc := &Script{after: true}
		first := o.first
		switch {
		case o.silent:
			first += 2 * sec
		case o.ascii:
			sc.steps = append(sc.steps, Step{data: w.Str("RDY\n")})
		default:
			sc.steps = append(sc.steps, Step{data: w.ack()})
		}
		for _, g := range o.groups {
			var ps []*Term
			for _, it := range g {
				_, x := w.itemTok(it, o.ascii)
				ps = append(ps, x)
			}
			sc.steps = append(sc.steps, o.cut.steps(w, w.Concat(ps...), first)...)
			first = o.idle
		}
		w.scripts = []*Script{sc}
		for i := 0; i < o.traffic; i++ {
			cl.offers = append(cl.offers, w.listOffer(i, sec+int64(i)*700*ms, []int{1, 2, 0, 3}[i%4]))
		}
	}, func(cl *client) {
		w := cl.w
		var want []*Term
		for _, g := range o.groups {
			for _, it := range g {
				if t, _ := w.itemTok(it, o.ascii); t != nil {
					want = append(want, w.deepTok(t))
				}
			}
		}
		if s.delivery(cl, want, what) {
			s.connectedOnly(cl, what)
		}
	})
}

// listOffer: a list of n messages about which nothing is known, submitted at time at.
func (w *World) listOffer(id int, at int64, n int) offer {
	return offer{at: at, id: id, v: func(st *State) *Term {
		if n < 0 {
			return w.Nil
		}
		mt := w.msgType("InboundMessage")
		var out []Node
		for i := 0; i < n; i++ {
			o := w.newObjN("submitted", mt, w.opaqueMsg(mt, fmt.Sprintf("sub%d.%d", id, i)))
			out = append(out, w.Ptr(o.id))
		}
		if n == 0 {
			return w.listSlice()
		}
		return w.listSlice(out...)
	}}
}

func bins(ns ...int) []item {
	var out []item
	for i, n := range ns {
		out = append(out, item{name: fmt.Sprintf("m%d(%d)", i, n), n: n})
	}
	return out
}

func lines(eol string, ns ...int) []item {
	var out []item
	for i, n := range ns {
		out = append(out, item{name: fmt.Sprintf("t%d(%d)", i, n), n: n, eol: eol})
	}
	return out
}

func sizeOf(it item, ascii bool) int {
	if ascii {
		return len(it.pad) + it.n + len(it.eol)
	}
	return 4 + it.n
}

func c08(c *Check) {
	type stream struct {
		name  string
		ascii bool
		items []item
	}
	short := []stream{
		{"short frames", false, bins(5, 3, 0, 1)},
		{"short lines LF", true, lines("\n", 3, 1, 4)},
		{"short lines CRLF", true, lines("\r\n", 3, 1, 4)},
		{"short lines mixed", true, append(append(lines("\r\n", 2), item{eol: "\n"}, item{eol: "\r\n"}), lines("\n", 2, 5)[1])},
	}
	total := func(its []item, ascii bool) int {
		n := 0
		for _, it := range its {
			n += sizeOf(it, ascii)
		}
		return n
	}
	every := func(n, k int) (out []int) {
		for i := k; i < n; i += k {
			out = append(out, i)
		}
		return
	}
	for _, st := range short {
		n := total(st.items, st.ascii)
		base := strm{ascii: st.ascii, groups: [][]item{st.items}}
		c.scenario(st.name+": whole, dribble", func(s *Scenario) {
			for _, g := range []segm{{"whole", nil, nil}, {"dribble", every(n, 1), []int64{ms}}, {"slow dribble", every(n, 1), []int64{45 * ms}}, {"at once in pieces", every(n, 1), []int64{0}}, {"pairs", every(n, 2), []int64{10 * ms}}} {
				for _, idle := range []int64{0, 1900 * ms, 2 * sec, 2100 * ms, 5 * sec, 100 * sec} {
					for _, slow := range []int64{0, 3 * sec} {
						o := base
						o.groups = [][]item{st.items, st.items, st.items}
						o.cut, o.idle, o.slow, o.horizon, o.first = g, idle, slow, 1000*sec, idle
						s.streamRun(o)
						o.traffic = 5
						s.streamRun(o)
						o.cap = 10
						s.streamRun(o)
					}
				}
			}
		})
		c.scenario(st.name+": long idle times", func(s *Scenario) {
			for _, idle := range []int64{2 * sec, 31 * sec, 61 * sec, 301 * sec, 3601 * sec, 24 * 3601 * sec} {
				o := base
				o.groups = [][]item{st.items, st.items[:1], st.items}
				o.idle, o.first, o.horizon = idle, idle, 10*idle+100*sec
				s.streamRun(o)
				o.traffic = 3
				s.streamRun(o)
				o.silent = st.ascii
				s.streamRun(o)
			}
		})
		c.scenario(st.name+": single cuts", func(s *Scenario) {
			for i := 1; i < n; i++ {
				for _, d := range []int64{0, ms, 900 * ms, 1900 * ms} {
					for _, silent := range []bool{false, true} {
						if silent && !st.ascii {
							continue
						}
						o := base
						o.groups = [][]item{st.items, st.items}
						o.silent = silent
						o.idle = 5 * sec
						o.cut = segm{"cut", []int{i}, []int64{d}}
						s.streamRun(o)
						o.traffic = 6
						s.streamRun(o)
						o.slow = 1500 * ms
						s.streamRun(o)
					}
				}
			}
		})
		c.scenario(st.name+": double cuts", func(s *Scenario) {
			for i := 1; i < n; i++ {
				for j := i + 1; j < n; j++ {
					for _, d := range []int64{0, ms, 950 * ms} {
						o := base
						o.cut = segm{"cut", []int{i, j}, []int64{d}}
						s.streamRun(o)
					}
				}
			}
		})
		if c.thorough() {
			c.scenario(st.name+": triple cuts", func(s *Scenario) {
				for i := 1; i < n; i++ {
					for j := i + 1; j < n; j++ {
						for k := j + 1; k < n; k++ {
							o := base
							o.cut = segm{"cut", []int{i, j, k}, []int64{600 * ms}}
							s.streamRun(o)
						}
					}
				}
			})
		}
		c.scenario(st.name+": other schedules", func(s *Scenario) {
			pre, runs := 1, 3000
			if c.thorough() {
				pre, runs = 2, 60000
			}
			for _, g := range []segm{{"whole", nil, nil}, {"cut", []int{2, 6}, []int64{0}}} {
				o := base
				o.groups = [][]item{st.items[:2]}
				o.cut, o.traffic, o.pre, o.runs, o.first = g, 2, pre, runs, sec
				s.streamRun(o)
			}
		})
	}
	// sizes
	sizes := []int{1, 2, 4, 10, 13, 255, 256, 994, 995, 996, 997, 999, 1000, 1001, 1003, 1004, 1005, 1024, 1456, 1460, 2048, 2570, 3338, 4092, 4095, 4096, 4097, 8192, 32767, 32768, 65531, 65535, 65536, 65537, 100000, 131072, 262144, 499995, 499996, 499998, 499999}
	for _, n := range sizes {
		c.scenario(fmt.Sprintf("frame of %d bytes", n), func(s *Scenario) {
			its := bins(3, n, 2)
			tot := total(its, false)
			a, b := 7, 7+4+n
			var cuts []segm
			for _, d := range []int64{0, 900 * ms} {
				cuts = append(cuts, segm{"whole", nil, nil}, segm{"header apart", []int{a, a + 4}, []int64{d}}, segm{"in header", []int{a + 1, a + 3}, []int64{d}},
					segm{"first byte", []int{a + 5}, []int64{d}}, segm{"last byte", []int{b - 1, b + 1}, []int64{d}}, segm{"middle", []int{a + 4 + n/2}, []int64{d}}, segm{"next header", []int{b, b + 2}, []int64{d}})
			}
			for _, k := range []int{1460, 1000, 4096, 65536, 1004, 999} {
				if k < tot {
					cuts = append(cuts, segm{"pieces", every(tot, k), []int64{ms}}, segm{"pieces", every(tot, k), []int64{0}})
				}
			}
			if n > 1000 {
				cuts = append(cuts, segm{"slow pieces", every(tot, n/3), []int64{600 * ms}})
			}
			for _, g := range cuts {
				s.streamRun(strm{groups: [][]item{its}, cut: g})
			}
			s.streamRun(strm{groups: [][]item{its, its}, idle: 10 * sec, slow: 3 * sec, traffic: 3})
		})
	}
	lsizes := []int{1, 79, 254, 255, 256, 998, 1000, 1001, 1022, 1024, 2046, 2048, 4093, 4094, 4095, 4096, 4097, 8191, 16384, 65533, 65534, 65535, 65536, 65537, 131072, 700000}
	for _, n := range lsizes {
		c.scenario(fmt.Sprintf("line of %d bytes", n), func(s *Scenario) {
			for _, eol := range []string{"\n", "\r\n"} {
				its := lines(eol, 3, n, 2)
				tot := total(its, true)
				a := 3 + len(eol)
				b := a + n + len(eol)
				var cuts []segm
				for _, d := range []int64{0, 2500 * ms} {
					cuts = append(cuts, segm{"whole", nil, nil}, segm{"line start", []int{a, a + 1}, []int64{d}}, segm{"before the line end", []int{b - len(eol)}, []int64{d}},
						segm{"last byte", []int{b - 1, b + 1}, []int64{d}}, segm{"middle", []int{a + n/2}, []int64{d}}, segm{"next line", []int{b}, []int64{d}})
				}
				for _, k := range []int{1460, 1000, 4096, 65536} {
					if k < tot {
						cuts = append(cuts, segm{"pieces", every(tot, k), []int64{ms}}, segm{"pieces", every(tot, k), []int64{0}})
					}
				}
				for _, g := range cuts {
					s.streamRun(strm{ascii: true, groups: [][]item{its}, cut: g})
				}
				s.streamRun(strm{ascii: true, groups: [][]item{its, its}, idle: 10 * sec, slow: 3 * sec, traffic: 3})
			}
		})
	}
	many := func(n int, ascii bool) []item {
		var out []item
		for i := 0; i < n; i++ {
			k := i*37%23 + i%2
			it := item{name: fmt.Sprintf("b%d", i), n: k}
			if ascii {
				it.n++
				it.eol = []string{"\n", "\r\n"}[i%3%2]
			}
			out = append(out, it)
		}
		return out
	}
	for _, ascii := range []bool{false, true} {
		c.scenario(fmt.Sprintf("burst of messages, ascii %v", ascii), func(s *Scenario) {
			its := many(300, ascii)
			tot := total(its, ascii)
			for _, g := range []segm{{"whole", nil, nil}, {"pieces", every(tot, 17), []int64{0}}, {"pieces", every(tot, 1460), []int64{ms}}, {"pieces", every(tot, 4096), []int64{ms}}} {
				s.streamRun(strm{ascii: ascii, groups: [][]item{its}, cut: g, horizon: 2000 * sec})
				s.streamRun(strm{ascii: ascii, groups: [][]item{its}, cut: g, horizon: 2000 * sec, slow: 100 * ms, traffic: 4})
			}
		})
	}
}
