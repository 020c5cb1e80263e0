package main

import (
	"fmt"
)

func init() { props["C10"] = c10 }

// brk: how one connection's stream ends
type brk struct {
	name   string
	good   int    // well-formed frames before it
	head   uint32 // oversize header
	over   bool
	more   int // bytes after the header
	n, cut int // a frame of n bytes that stops after cut bytes of it
	late   int64
	pieces bool
	slow   int64 // time between the pieces
	none   bool  // the connection stays intact
	gone   int   // the panel closes (1) or resets (2) the connection after the last byte
	weird  []item
}

const tolDrop = 2500 * ms

func (s *Scenario) brkRun(bs []brk, traffic int, pre, runs int) {
	if runs == 0 {
		runs = 60
	}
	goodIt := func(i, k int) item { return item{name: fmt.Sprintf("g%d.%d", i, k), n: 3 + k} }
	dev := 0
	if len(bs) > 1 {
		dev, runs = 2, max(runs, 3000)
	}
	s.conClient(pre, dev, runs, false, func(cl *client) {
		w := cl.w
		for i, b := range bs {
			sc := &Script{after: true, steps: []Step{{data: w.ack()}}}
			at := sec
			var ps []*Term
			for k := 0; k < b.good; k++ {
				_, x := w.itemTok(goodIt(i, k), false)
				ps = append(ps, x)
			}
			for _, it := range b.weird {
				it.name = fmt.Sprintf("%s.%d", it.name, i)
				_, x := w.itemTok(it, false)
				ps = append(ps, x)
			}
			if len(b.weird) > 0 {
				_, x := w.itemTok(goodIt(i, 10), false)
				_, y := w.itemTok(goodIt(i, 11), false)
				ps = append(ps, x, y)
			}
			var tail []*Term
			switch {
			case b.over:
				tail = append(tail, w.le32(w.Int(int64(b.head))))
				if b.more > 0 {
					tail = append(tail, w.SymStr(fmt.Sprintf("junk%d", i), &StrInfo{min: b.more, max: b.more}))
				}
			case b.none:
			default:
				t := w.payload(fmt.Sprintf("broken%d(%d)", i, b.n), b.n, false)
				tail = append(tail, w.SubStr(w.frame(t), w.Int(0), w.Int(int64(b.cut))))
			}
			if !b.pieces {
				ps = append(ps, tail...)
				if len(ps) > 0 {
					sc.steps = append(sc.steps, Step{delay: at, data: w.Concat(ps...)})
				}
			} else {
				if len(ps) > 0 {
					sc.steps = append(sc.steps, Step{delay: at, data: w.Concat(ps...)})
					at = ms
				}
				if tl := w.Concat(tail...); tl != w.Empty {
					for j, p := range w.seg(tl, []int{1, 2, 3, 4, 5}) {
						d := at
						if j > 0 {
							d = b.slow
						}
						sc.steps = append(sc.steps, Step{delay: d, data: p})
					}
				}
			}
			if b.gone > 0 {
				sc.steps = append(sc.steps, Step{delay: b.slow, close: b.gone == 1, reset: b.gone == 2})
			}
			if b.late > 0 && !b.none { // the rest arrives when it is too late
				t := w.payload(fmt.Sprintf("broken%d(%d)", i, b.n), b.n, false)
				rest := w.Concat(w.SubStr(w.frame(t), w.Int(int64(b.cut)), nil), w.frame(w.payload(fmt.Sprintf("late%d", i), 4, false)))
				sc.steps = append(sc.steps, Step{delay: b.late, data: rest})
			}
			w.scripts = append(w.scripts, sc)
		}
		fin := &Script{after: true, steps: []Step{{data: w.ack()}}}
		_, x := w.itemTok(goodIt(99, 0), false)
		fin.steps = append(fin.steps, Step{delay: sec, data: x})
		w.scripts = append(w.scripts, fin)
		for i := 0; i < traffic; i++ {
			cl.offers = append(cl.offers, w.listOffer(i, sec+int64(i)*700*ms, []int{1, 2, 0, 3}[i%4]))
		}
	}, func(cl *client) {
		w := cl.w
		// time of the last byte of every connection
		for _, o := range w.obls {
			s.never("never-panics", fmt.Sprintf("%s in %s", o.kind, fnName(o.fn)), w.posStr(o.pos)+": "+o.kind, o.cond)
		}
		bad := func(rule, key, msg string) { s.violate(rule, key, msg+w.story()) }
		if w.end == "panic" || w.end == "spin" {
			bad("contained", w.end, "the client does not keep running")
			return
		}
		var want []*Term // nil: optional
		var opt []bool
		add := func(it item, o bool) {
			t, _ := w.itemTok(it, false)
			want = append(want, w.deepTok(t))
			opt = append(opt, o)
		}
		exp := 1
		intact := false
		for i, b := range bs {
			for k := 0; k < b.good; k++ {
				add(goodIt(i, k), false)
			}
			for _, it := range b.weird {
				it.name = fmt.Sprintf("%s.%d", it.name, i)
				add(it, it.kind == "bad" || it.n == 0)
			}
			if len(b.weird) > 0 {
				add(goodIt(i, 10), false)
				add(goodIt(i, 11), false)
			}
			if b.none {
				intact = true
				break
			}
			exp++
		}
		if !intact {
			add(goodIt(99, 0), false)
		}
		// connections, drops and callbacks
		for i := 0; i < exp-1; i++ {
			if i >= len(w.conns) {
				bad("contained", "no reconnect", fmt.Sprintf("connection %d is never made", i+1))
				return
			}
			cn := w.conns[i]
			b := bs[i]
			last := int64(-1)
			for _, e := range w.trace {
				if e.kind == "arrived" && e.conn == i && (b.late == 0 || e.n < int64(len(cn.sc.steps)-1)) {
					last = e.t
				}
			}
			switch {
			case !cn.closed:
				bad("contained", "not dropped: "+b.name, "the connection is never dropped")
				return
			case cn.closeT-last > tolDrop:
				bad("contained", "dropped late: "+b.name, fmt.Sprintf("dropped %.1f s after the last byte", float64(cn.closeT-last)/1e9))
				return
			}
		}
		if len(w.conns) != exp {
			bad("contained", "connections", fmt.Sprintf("%d connections instead of %d", len(w.conns), exp))
			return
		}
		if w.conns[exp-1].closed {
			bad("contained", "healthy connection dropped", "the last connection was closed")
			return
		}
		if len(cl.cbs) != 2*exp-1 {
			bad("contained", "callbacks", fmt.Sprintf("%d callbacks instead of %d", len(cl.cbs), 2*exp-1))
			return
		}
		for i, cb := range cl.cbs {
			if cb.connect != (i%2 == 0) {
				bad("contained", "callbacks", "connect and disconnect do not alternate")
				return
			}
			if !cb.connect && cb.canc != w.False {
				bad("contained", "cancelled flag", "the drop is reported as a cancellation")
				return
			}
		}
		var got []*Term
		for _, d := range cl.got {
			got = append(got, d.msgs...)
		}
		if n := matchOpt(want, opt, got); n >= 0 {
			bad("contained", "delivery", fmt.Sprintf("what is delivered differs from the well-formed frames from message %d on (%d delivered)", n+1, len(got)))
			return
		}
		if w.maxAll > 1<<20 {
			bad("contained", "memory", fmt.Sprintf("a buffer of %d bytes is reserved", w.maxAll))
			return
		}
		s.ok()
	})
}

func c10(c *Check) {
	heads := []uint32{500000, 500001, 500002, 524288, 1 << 20, 0x00ffffff, 1 << 24, 0x7ffffffb, 0x7ffffffc, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0x80000005, 0xfffffff0, 0xfffffffb, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff, 0x0a594452, 0x3d70616d}
	over := func(h uint32, good, more int, pieces bool) brk {
		return brk{name: "length at or above the limit", head: h, over: true, good: good, more: more, pieces: pieces, slow: ms}
	}
	for good := 0; good <= 2; good++ {
		c.scenario(fmt.Sprintf("length at or above the limit after %d frames", good), func(s *Scenario) {
			for _, h := range heads {
				for _, more := range []int{0, 1, 9, 700000} {
					for _, p := range []bool{false, true} {
						s.brkRun([]brk{over(h, good, more, p)}, 0, 0, 0)
					}
				}
				s.brkRun([]brk{over(h, good, 3, false)}, 4, 0, 0)
			}
		})
		c.scenario(fmt.Sprintf("stall inside a frame after %d frames", good), func(s *Scenario) {
			for _, n := range []int{1, 5, 996, 1000, 65536, 499999} {
				for _, cut := range []int{1, 2, 3, 4, 5, n, n + 2, n + 3} {
					if cut >= n+4 {
						continue
					}
					where := "payload"
					if cut < 4 {
						where = "header"
					}
					for _, late := range []int64{0, 3 * sec, 50 * sec} {
						for _, p := range []bool{false, true} {
							for _, traffic := range []int{0, 4} {
								s.brkRun([]brk{{name: "stall in the " + where, good: good, n: n, cut: cut, late: late, pieces: p, slow: 300 * ms}}, traffic, 0, 0)
							}
						}
					}
				}
			}
		})
	}
	for good := 0; good <= 2; good++ {
		for gone := 1; gone <= 2; gone++ {
			c.scenario(fmt.Sprintf("frame cut off by a %s after %d frames", map[int]string{1: "close", 2: "reset"}[gone], good), func(s *Scenario) {
				for _, n := range []int{1, 5, 996, 1000, 65536, 499999} {
					for _, cut := range []int{1, 2, 3, 4, 5, n, n + 2, n + 3} {
						if cut >= n+4 {
							continue
						}
						for _, slow := range []int64{0, 300 * ms} {
							for _, p := range []bool{false, true} {
								s.brkRun([]brk{{name: "cut off", good: good, n: n, cut: cut, gone: gone, pieces: p, slow: slow}}, 0, 0, 0)
							}
							s.brkRun([]brk{{name: "cut off", good: good, n: n, cut: cut, gone: gone, slow: slow}}, 4, 0, 0)
						}
					}
				}
			})
		}
	}
	weird := map[string][]item{
		"empty":          {{name: "empty", n: 0}},
		"unreadable 1":   {{name: "bad1", n: 1, kind: "bad"}},
		"unreadable 10":  {{name: "bad10", n: 10, kind: "bad"}},
		"unreadable big": {{name: "bad499999", n: 499999, kind: "bad"}},
		"both":           {{name: "bad7", n: 7, kind: "bad"}, {name: "empty", n: 0}, {name: "mid", n: 6}, {name: "bad7b", n: 7, kind: "bad"}},
		"repeated":       {{name: "bad2", n: 2, kind: "bad"}, {name: "bad3", n: 3, kind: "bad"}, {name: "bad4", n: 4, kind: "bad"}, {name: "bad5", n: 5, kind: "bad"}, {name: "bad6", n: 6, kind: "bad"}},
		"empties":        {{name: "e1", n: 0}, {name: "e2", n: 0}, {name: "e3", n: 0}},
		"limit":          {{name: "big", n: 499999}},
	}
	for name, its := range weird {
		c.scenario("payload without a message: "+name, func(s *Scenario) {
			for good := 0; good <= 2; good++ {
				s.brkRun([]brk{{good: good, weird: its, none: true}}, 0, 0, 0)
				s.brkRun([]brk{{good: good, weird: its, none: true}}, 3, 0, 0)
				s.brkRun([]brk{{good: good, weird: its, n: 5, cut: 6, name: "stall in the payload"}, over(0xffffffff, 1, 0, false)}, 0, 0, 0)
			}
		})
	}
	kinds := []brk{over(500000, 1, 0, false), over(0xffffffff, 0, 4, true), {name: "stall in the header", good: 1, n: 5, cut: 2}, {name: "stall in the payload", good: 0, n: 5, cut: 4}, {name: "stall in the payload", good: 2, n: 500, cut: 300, late: 4 * sec}}
	c.scenario("combinations across reconnects", func(s *Scenario) {
		for _, a := range kinds {
			for _, b := range kinds {
				s.brkRun([]brk{a, b}, 0, 0, 0)
				for _, d := range kinds {
					s.brkRun([]brk{a, b, d}, 5, 0, 0)
				}
			}
		}
	})
	c.scenario("other schedules", func(s *Scenario) {
		pre, runs := 1, 4000
		if c.thorough() {
			pre, runs = 2, 100000
		}
		for _, a := range kinds {
			s.brkRun([]brk{a}, 2, pre, runs)
		}
	})
}

// matchOpt: is got the wanted list, where each optional entry stands for at most one message of any content?
// Returns -1 or the first position of got that cannot be explained.
func matchOpt(want []*Term, opt []bool, got []*Term) int {
	cur := map[int]bool{0: true}
	far := 0
	for i := range want {
		next := map[int]bool{}
		for j := range cur {
			if opt[i] {
				next[j] = true
			}
			if j < len(got) && (opt[i] || got[j] == want[i]) {
				next[j+1] = true
				far = max(far, j+1)
			}
		}
		cur = next
	}
	if cur[len(got)] {
		return -1
	}
	return far
}
