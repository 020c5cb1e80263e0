package main

import "fmt"

func c19(c *Check) {
	c.expl = "the high-level client (Connect, its goroutines, dispatch, bindings, state) analysed in place together with a driver application and an environment automaton: scripted panels in both protocol modes; handler calls, bytes on the wire, getters and memory accesses compared with what the panel's messages demand, on schedules with a bounded number of preemptions"
	c.rules = []string{
		"dispatch: the sequence of handler calls is exactly the one the messages received demand (component id, press state, edge, value; values symbolic)",
		"ping: as many acknowledges as pings; output: every feedback message reaches the panel once and in order",
		"state: every getter returns the latest information received at the time of the call",
		"connect: succeeds exactly when model, serial, topology JSON and SVG arrive within the window; returns an error otherwise",
		"live: nothing spins, panics or blocks for ever; race: no two unordered accesses to the same memory",
		"broken frames: no event after an over-limit or stalled frame is dispatched",
	}
	pre := 1
	if c.thorough() {
		pre = 2
	}
	for _, ascii := range []bool{false, true} {
		mode := "binary"
		if ascii {
			mode = "ascii"
		}
		run := func(name string, o gscn) {
			o.ascii = ascii
			if o.connect == 0 && o.what != "" { // what is left to happen is the end of the goroutines
				o.runs, o.some = 100, true
			}
			if o.what == "" {
				o.what = "the panel sends model, serial, topology JSON and SVG at once"
				o.connect = 1
			}
			c.scenario(mode+": "+name, func(s *Scenario) { s.gorwp(o) })
		}
		all := []act{{100 * ms, 1, 1}, {100 * ms, 2, 2}, {100 * ms, 3, 3}, {100 * ms, 4, 4}, {100 * ms, 5, 5}, {100 * ms, 1, 6}, {100 * ms, 2, 6}, {100 * ms, 3, 6}, {100 * ms, 4, 6}, {100 * ms, 5, 6}}
		var evs []pev
		for _, e := range []int64{0, 1, 2, 4, 8, 16} {
			evs = append(evs, pev{1, "b", true, e}, pev{1, "b", false, e})
		}
		for id := uint32(1); id <= 8; id++ {
			for _, k := range []string{"b", "p", "a", "s", ""} {
				evs = append(evs, pev{id, k, id%2 == 0, int64(id % 3)})
			}
		}
		var multi []pmsg
		for i, e := range evs {
			multi = append(multi, pmsg{name: fmt.Sprintf("e%d", i), events: []pev{e}})
		}
		run("every kind of event", gscn{acts: all, steps: []pstep{{at: sec, msgs: multi}}})
		run("every kind of event, one segment", gscn{acts: all, steps: []pstep{{at: sec, msgs: multi, one: true}}})
		run("every kind of event, spread", gscn{acts: all, steps: []pstep{{at: sec, msgs: multi, pause: 7 * ms}}})
		var bytes []int
		for i := 1; i < 30*len(multi); i++ {
			bytes = append(bytes, i)
		}
		run("every kind of event, byte by byte", gscn{acts: all, steps: []pstep{{at: sec, msgs: multi[:24], cuts: bytes, pause: ms}}})
		for cut := 5; cut < 12; cut++ { // nothing follows: what was taken for the payload decides
			m := []pmsg{{name: "cut", events: []pev{{1, "b", true, 1}, {2, "p", true, 0}}}}
			if ascii {
				m = []pmsg{{name: "cut", events: []pev{{1, "b", true, 1}}}}
			}
			run(fmt.Sprintf("an event cut at byte %d", cut), gscn{acts: all, steps: []pstep{{at: sec, msgs: m, cuts: []int{cut}, pause: 5 * ms}}, horizon: 3 * sec})
		}
		if !ascii {
			run("many events in one message", gscn{acts: all, steps: []pstep{{at: sec, msgs: []pmsg{{name: "many", events: evs}}}}})
			run("events of several kinds", gscn{acts: all, steps: []pstep{{at: sec, msgs: []pmsg{{name: "m1", events: []pev{{6, "bpas", true, 4}, {6, "ps", true, 1}, {7, "bpas", true, 1}, {1, "bpas", false, 2}}}}}}})
		}
		// schedules
		few := []pmsg{{name: "a", events: []pev{{1, "b", true, 1}}}, {name: "b", events: []pev{{2, "p", false, 0}}}, {name: "p", flow: 1}, {name: "c", events: []pev{{1, "b", false, 1}}}}
		run("other schedules", gscn{acts: all[:2], steps: []pstep{{at: 300 * ms, msgs: few}}, pre: pre, dev: pre, runs: 20000, horizon: 1500 * ms})

		// pings
		var pings, mixed []pmsg
		for i := 0; i < 30; i++ {
			p := pmsg{name: fmt.Sprintf("p%d", i), flow: 1}
			pings = append(pings, p)
			mixed = append(mixed, p, pmsg{name: fmt.Sprintf("x%d", i), events: []pev{{1, "b", i%2 == 0, 0}}})
		}
		run("one ping", gscn{steps: []pstep{{at: 300 * ms, msgs: pings[:1]}}, pre: pre, dev: pre + 1, runs: 20000, horizon: 2 * sec})
		run("pings", gscn{steps: []pstep{{at: 300 * ms, msgs: pings, one: true}}})
		run("pings and acknowledges", gscn{acts: all, steps: []pstep{{at: 300 * ms, msgs: append([]pmsg{{name: "a1", flow: 2}, {name: "a2", flow: 2}}, mixed...), pause: 3 * ms}, {at: 600 * ms, msgs: []pmsg{{name: "n", flow: 3}, {name: "a3", flow: 2}}}}})

		// bursts whose handlers send feedback
		n := 300
		if c.thorough() {
			n = 1000
		}
		for op, k := range map[int]int{6: 1, 7: 3, 8: 14} {
			var burst []pmsg
			var evs []pev
			for i := 0; i < n/k; i++ {
				ev := pev{1, "b", i%2 == 0, 0}
				evs = append(evs, ev)
				burst = append(burst, pmsg{name: fmt.Sprintf("e%d", i), events: []pev{ev}})
				if i%20 == 7 {
					burst = append(burst, pmsg{name: fmt.Sprintf("p%d", i), flow: 1})
				}
			}
			acts := []act{{100 * ms, op, 1}}
			run(fmt.Sprintf("burst, %d messages per event", k), gscn{acts: acts, steps: []pstep{{at: 300 * ms, msgs: burst, one: true}}, runs: 3, dev: 1, some: true})
			run(fmt.Sprintf("burst with time between, %d messages per event", k), gscn{acts: acts, steps: []pstep{{at: 300 * ms, msgs: burst, pause: 10 * ms}}, runs: 3, dev: 1, some: true})
			if !ascii {
				run(fmt.Sprintf("burst in one message, %d messages per event", k), gscn{acts: acts, steps: []pstep{{at: 300 * ms, msgs: []pmsg{{name: "all", events: evs}}}}, runs: 3, dev: 1, some: true})
			}
			var sm []pmsg
			for i := 0; i < map[int]int{1: 13, 3: 6, 14: 2}[k]; i++ {
				sm = append(sm, burst[i])
			}
			run(fmt.Sprintf("small burst, other schedules, %d messages per event", k), gscn{acts: acts, steps: []pstep{{at: 300 * ms, msgs: sm, one: true}}, pre: 1, dev: 1, runs: 20000, horizon: 1500 * ms})
			// at the time of the client's own ping
			run(fmt.Sprintf("burst while the client pings, %d messages per event", k), gscn{acts: append(acts, act{999 * ms, 11, 0}, act{sec, 11, 0}), steps: []pstep{{at: 500 * ms, msgs: burst[:14], one: true}, {at: 1500 * ms, msgs: burst[14:16]}}, runs: 40, dev: 1, some: true})
		}
		run("feedback of every kind of handler", gscn{acts: []act{{100 * ms, 16, 1}}, steps: []pstep{{at: 300 * ms, msgs: []pmsg{{name: "e1", events: []pev{{1, "p", false, 0}}}, {name: "e2", events: []pev{{1, "a", false, 0}}}, {name: "e3", events: []pev{{1, "s", false, 0}}}, {name: "e4", events: []pev{{1, "b", true, 0}}}}}}})

		// handlers bound while events flow
		var flow []pmsg
		for i := 0; i < 8; i++ {
			flow = append(flow, pmsg{name: fmt.Sprintf("f%d", i), events: []pev{{1, "b", i%2 == 0, 0}}})
		}
		for op, kind := range map[int]string{1: "b", 2: "p", 3: "a", 4: "s", 5: "b"} {
			fl := append(append([]pmsg{}, flow[:3]...), pmsg{name: "late1", events: []pev{{2, kind, true, 0}}}, flow[3], pmsg{name: "late2", events: []pev{{2, kind, false, 0}}})
			after := []pmsg{{name: "late3", events: []pev{{2, kind, true, 1}}}, flow[4]}
			_ = after
			run("handler bound while events flow: "+kindName[op], gscn{acts: []act{{100 * ms, 1, 1}, {300 * ms, op, 2}, {300 * ms, op, 3}}, races: []int{2},
				steps: []pstep{{at: 300 * ms, msgs: fl, one: true}}, pre: pre, dev: pre, runs: 20000, horizon: 1500 * ms})
		}
		run("handler bound by a handler", gscn{acts: []act{{100 * ms, 9, 1}}, steps: []pstep{{at: 300 * ms, msgs: []pmsg{flow[0], {name: "n1", events: []pev{{2, "b", true, 0}}}, {name: "n2", events: []pev{{2, "p", true, 0}}}, {name: "n3", events: []pev{{2, "a", true, 0}}}, {name: "n4", events: []pev{{2, "s", true, 0}}}, flow[1]}}}, pre: 1, dev: 1, runs: 20000, horizon: 1500 * ms})
		run("handler replaced", gscn{acts: []act{{100 * ms, 2, 1}, {500 * ms, 14, 1}}, steps: []pstep{{at: 300 * ms, msgs: []pmsg{{name: "r1", events: []pev{{1, "p", true, 0}}}}}, {at: 700 * ms, msgs: []pmsg{{name: "r2", events: []pev{{1, "p", true, 0}}}}}}})
		run("handler replaces itself", gscn{acts: []act{{100 * ms, 15, 1}}, steps: []pstep{{at: 300 * ms, msgs: []pmsg{{name: "r1", events: []pev{{1, "p", true, 0}}}, {name: "r2", events: []pev{{1, "p", true, 0}}}}}}})

		// the state
		poll := func(t int64) act { return act{t, 10, 0} }
		states := []pstep{
			{at: 200 * ms, msgs: []pmsg{{name: "s1", info: "n"}}},
			{at: 300 * ms, msgs: []pmsg{{name: "s2", info: "m"}, {name: "s3", avail: [][2]int64{{1, 1}, {2, 0}, {70, 5}}}}},
			{at: 400 * ms, msgs: []pmsg{{name: "s4", topo: "j"}, {name: "s5", info: "s"}}},
			{at: 500 * ms, msgs: []pmsg{{name: "s6", topo: "g"}, {name: "s7", avail: [][2]int64{{2, 3}, {1, 0}}}}},
			{at: 600 * ms, msgs: []pmsg{{name: "s8", info: "n"}, {name: "s9", topo: "j"}, {name: "s10", noInfo: true}, {name: "s11", info: "n"}, {name: "s12", topo: "j"}}},
		}
		if !ascii {
			states = append(states, pstep{at: 700 * ms, msgs: []pmsg{{name: "s13", info: "msn", topo: "jg", avail: [][2]int64{{4, 4}}, events: []pev{{1, "b", true, 0}}, flow: 1}}})
		}
		run("state", gscn{acts: append([]act{{50 * ms, 13, 1}}, poll(100*ms), poll(250*ms), poll(350*ms), poll(450*ms), poll(550*ms), poll(650*ms), poll(900*ms)), steps: states})
		race := []pstep{{at: 300 * ms, msgs: []pmsg{{name: "q1", info: "n"}, {name: "q2", topo: "j"}, {name: "q3", avail: [][2]int64{{1, 1}}}, {name: "q4", topo: "g"}}}}
		run("state read while it changes", gscn{acts: []act{poll(250 * ms), poll(300 * ms), poll(600 * ms)}, steps: race, blur: 300 * ms, pre: pre, dev: pre, runs: 20000, horizon: 1500 * ms})
		for k := 17; k <= 21; k++ {
			one := func(t int64) act { return act{t, k, 0} }
			run(fmt.Sprintf("state read while it changes, getter %d alone", k-16), gscn{acts: []act{one(250 * ms), one(300 * ms), one(600 * ms)}, steps: race, blur: 300 * ms, horizon: 1500 * ms})
		}
		run("state read by a handler", gscn{acts: []act{{100 * ms, 13, 1}}, steps: []pstep{{at: 300 * ms, msgs: []pmsg{{name: "q1", info: "n"}, flow[0], {name: "q2", topo: "j"}, flow[1], {name: "q3", info: "ms"}, flow[2]}, pause: ms}}})

		// initialisation
		item := func(k string) pmsg {
			if k == "j" || k == "g" {
				return pmsg{name: "i" + k, topo: k}
			}
			return pmsg{name: "i" + k, info: k}
		}
		for mask := 0; mask < 16; mask++ {
			var ms1 []pmsg
			miss := ""
			for i, k := range []string{"m", "s", "j", "g"} {
				if mask&(1<<i) != 0 {
					ms1 = append(ms1, item(k))
				} else {
					miss += map[string]string{"m": " model", "s": " serial", "j": " topology JSON", "g": " SVG"}[k]
				}
			}
			if mask == 15 {
				for p, ord := range [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}} {
					var x []pmsg
					for _, i := range ord {
						x = append(x, ms1[i])
					}
					run(fmt.Sprintf("initialisation in order %d", p), gscn{early: []pstep{{msgs: x}}, connect: 1, what: "the panel has sent everything", horizon: 5 * sec})
					run(fmt.Sprintf("initialisation in order %d, slowly", p), gscn{runs: 300, some: true, early: []pstep{{msgs: x, pause: 450 * ms}}, connect: 1, what: "the panel has sent everything within 1.4 s", horizon: 5 * sec})
					run(fmt.Sprintf("initialisation in order %d, too slowly", p), gscn{early: []pstep{{msgs: x, pause: 700 * ms}}, connect: 0, what: "the last item comes after 2.1 s", horizon: 5 * sec})
				}
				continue
			}
			run("initialisation without"+miss, gscn{early: []pstep{{msgs: ms1}}, connect: 0, what: "the panel does not send:" + miss, horizon: 5 * sec})
			if len(ms1) == 3 {
				run("initialisation without"+miss+", which comes late", gscn{early: []pstep{{msgs: ms1}, {at: 2200 * ms, msgs: initMsgs}}, connect: 0, what: "one item comes after 2.2 s", horizon: 5 * sec})
				run("initialisation with a late item:"+miss, gscn{early: []pstep{{msgs: ms1}, {at: 1400 * ms, msgs: initMsgs}}, connect: 1, what: "everything has arrived after 1.9 s", horizon: 5 * sec})
				run("initialisation without"+miss+", connection lost", gscn{early: []pstep{{msgs: ms1}, {at: 500 * ms, close: true}}, connect: 0, what: "the panel does not send:" + miss, horizon: 5 * sec})
				run("initialisation without"+miss+", cancelled", gscn{early: []pstep{{msgs: ms1}}, cancel: sec, connect: 0, what: "the panel does not send:" + miss, horizon: 5 * sec})
			}
		}
		run("refused", gscn{refuse: true, connect: 0, what: "the connection is refused"})
		run("a name only", gscn{early: []pstep{{msgs: []pmsg{{name: "h", info: "n"}, {name: "e", noInfo: true}}}}, connect: 0, what: "the panel sends a name only", horizon: 5 * sec})
		run("reset at once", gscn{early: []pstep{{reset: true}}, connect: 0, what: "the panel resets the connection", horizon: 5 * sec})

		// the connection ends
		run("events before the end", gscn{acts: []act{{100 * ms, 6, 1}}, steps: []pstep{{at: 300 * ms, msgs: flow, one: true, close: true}}, pre: 1, dev: 1, runs: 20000, horizon: 2 * sec})
		run("many events before the end", gscn{acts: []act{{100 * ms, 8, 1}}, steps: []pstep{{at: 300 * ms, msgs: mixed, one: true, close: true}}, runs: 40, dev: 1, some: true, horizon: 4 * sec})

		// broken frames
		if ascii {
			continue
		}
		good := []pmsg{{name: "g1", events: []pev{{1, "b", true, 0}}}, {name: "g2", info: "n"}}
		tail := func(w *World) *Term {
			var ps []*Term
			for i := 0; i < 3; i++ {
				x, _ := w.pmsgWire(pmsg{name: fmt.Sprintf("after%d", i), events: []pev{{1, "b", true, 0}}}, false)
				ps = append(ps, x)
			}
			return w.Concat(ps...)
		}
		for _, h := range []uint32{500000, 500001, 0x7fffffff, 0x80000000, 0xffffffff, 0x01000000} {
			h := h
			over := func(w *World) *Term { return w.Concat(w.le32(w.Int(int64(h))), tail(w)) }
			for _, first := range []bool{true, false} {
				gm := good
				if first {
					gm = nil
				}
				run(fmt.Sprintf("header %#x after %d messages", h, len(gm)), gscn{acts: []act{{100 * ms, 1, 1}}, steps: []pstep{{at: 300 * ms, msgs: gm, raw: over, one: true}, {at: 600 * ms, msgs: []pmsg{{name: "z1", events: []pev{{1, "b", true, 0}}}}}}, cut: 500 * ms})
				run(fmt.Sprintf("header %#x after %d messages, spread", h, len(gm)), gscn{acts: []act{{100 * ms, 1, 1}}, steps: []pstep{{at: 300 * ms, msgs: gm, raw: over, pause: ms}, {at: 600 * ms, msgs: []pmsg{{name: "z1", events: []pev{{1, "b", true, 0}}}}}}, cut: 500 * ms})
			}
		}
		for _, cut := range []int{1, 2, 3, 4, 5, 14, 23} {
			cut := cut
			for _, first := range []bool{true, false} {
				gm := good
				if first {
					gm = nil
				}
				part := func(w *World) *Term {
					x, _ := w.pmsgWire(pmsg{name: "broken", events: []pev{{1, "b", true, 0}}}, false)
					return w.SubStr(x, w.Int(0), w.Int(int64(cut)))
				}
				// the rest of a frame that is continued too late belongs to it, what follows as well
				late := func(w *World) *Term {
					x, _ := w.pmsgWire(pmsg{name: "broken", events: []pev{{1, "b", true, 0}}}, false)
					return w.Concat(w.SubStr(x, w.Int(int64(cut)), nil), tail(w))
				}
				run(fmt.Sprintf("frame stalled after %d bytes, %d messages before", cut, len(gm)), gscn{acts: []act{{100 * ms, 1, 1}}, steps: []pstep{{at: 300 * ms, msgs: gm, raw: part, one: true}, {at: 3 * sec, raw: late}}, cut: 500 * ms, horizon: 7 * sec})
				run(fmt.Sprintf("frame stalled after %d bytes, new frames instead, %d messages before", cut, len(gm)), gscn{acts: []act{{100 * ms, 1, 1}}, steps: []pstep{{at: 300 * ms, msgs: gm, raw: part, one: true}, {at: 3 * sec, raw: tail}}, cut: 500 * ms, horizon: 7 * sec})
				run(fmt.Sprintf("frame cut off after %d bytes, %d messages before", cut, len(gm)), gscn{acts: []act{{100 * ms, 1, 1}}, steps: []pstep{{at: 300 * ms, msgs: gm, raw: part, one: true, close: true}}, cut: 500 * ms, horizon: 7 * sec})
			}
		}
	}
}
