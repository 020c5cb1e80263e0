package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C19"] = c19 }

// pev: one event of a modelled panel; val names the symbolic value
type pev struct {
	id      uint32
	kinds   string // any of b p a s: binary pulsed absolute speed
	pressed bool
	edge    int64
}

// pmsg: one message of a modelled panel
type pmsg struct {
	name   string
	events []pev
	info   string // any of m s n: model, serial, name
	topo   string // any of j g: topology JSON, SVG
	avail  [][2]int64
	flow   int64
	noInfo bool // an empty PanelInfo
}

// pstep: what the panel sends at a time after the connection is up
type pstep struct {
	at    int64
	msgs  []pmsg
	one   bool  // everything in one segment (default: one segment per message)
	cuts  []int // segmentation of the step's bytes
	pause int64 // time between the segments
	raw   func(w *World) *Term
	close bool
	reset bool
}

type act struct {
	at int64
	op int
	id int
}

type gobs struct {
	t       int64
	kind    int // 1 binary, 2-4 values, 5 trigger, 14 second pulsed handler
	id      *Term
	a, b    *Term
	trigger *Term
}

type gpoll struct {
	t                   int64
	name, serial, model *Term
	top                 *Term
	init                *Term
	avail               map[int64]int64
	availOK             bool
}

type gscn struct {
	ascii   bool
	early   []pstep // relative to the first request; nil: all four items at once
	steps   []pstep // relative to the first request as well
	acts    []act
	connect int   // 1 succeeds, 0 fails, -1 either
	within  int64 // latest end of Connect
	cancel  int64 // the caller cancels at this time
	refuse  bool
	mute    bool  // no reply to the probe
	races   []int // ids whose events may or may not be seen (bound while they flow)
	free    int   // number of trailing events that may or may not be dispatched
	cut     int64 // events of messages sent after this time must not be dispatched
	pre     int
	dev     int
	runs    int
	horizon int64
	what    string
	some    bool  // the schedules need not be exhausted
	blur    int64 // polls at this time see any intermediate state
}

type grun struct {
	w       *World
	connT   int64
	conn    int // -1 not returned, 0, 1
	rp      *Term
	obs     []gobs
	polls   []gpoll
	ctx     *wctx
	sent    []sentMsg
	startAt int64
}
type sentMsg struct {
	at int64 // relative to the first request
	m  pmsg
	st *StructN
}

func (w *World) setFields(t types.Type, fs map[string]Node) *StructN {
	u := t.Underlying().(*types.Struct)
	n := &StructN{f: append([]Node{}, w.zero(t).(*StructN).f...)}
	for k, v := range fs {
		found := false
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == k {
				n.f[i], found = v, true
			}
		}
		if !found {
			panic("no field " + k)
		}
	}
	return n
}

func (w *World) newPtr(name string, t types.Type, n Node) *Term {
	o := w.newObjN(name, t, n)
	return w.Ptr(o.id)
}

func (w *World) evVal(m pmsg, i int, k byte) *Term {
	nm := fmt.Sprintf("value %s.%d%c", m.name, i, k)
	switch k {
	case 'a':
		return w.Sym(nm, SInt, 32, false)
	}
	return w.Sym(nm, SInt, 32, true)
}

func (w *World) infoVal(m pmsg, k byte) *Term {
	return w.SymStr(fmt.Sprintf("%s of %s", map[byte]string{'m': "model", 's': "serial", 'n': "name", 'j': "topology", 'g': "svg"}[k], m.name), &StrInfo{min: 1, max: -1, chars: "^ \t\r\n\v\f"})
}

// message builds the decoded form of a panel message.
func (w *World) message(m pmsg) *StructN {
	mt := w.msgType("OutboundMessage")
	f := map[string]Node{}
	if m.flow != 0 {
		f["FlowMessage"] = w.IntT(m.flow, 32, true)
	}
	if m.info != "" || m.noInfo {
		x := map[string]Node{}
		for i := range m.info {
			x[map[byte]string{'m': "Model", 's': "Serial", 'n': "Name"}[m.info[i]]] = w.infoVal(m, m.info[i])
		}
		t := w.msgType("PanelInfo")
		f["PanelInfo"] = w.newPtr("info", t, w.setFields(t, x))
	}
	if m.topo != "" {
		x := map[string]Node{}
		for i := range m.topo {
			x[map[byte]string{'j': "Json", 'g': "Svgbase"}[m.topo[i]]] = w.infoVal(m, m.topo[i])
		}
		t := w.msgType("PanelTopology")
		f["PanelTopology"] = w.newPtr("topology message", t, w.setFields(t, x))
	}
	if m.avail != nil {
		mn := &MapN{}
		for _, kv := range m.avail {
			mn.ents = append(mn.ents, MapEnt{k: w.IntT(kv[0], 32, false), v: w.IntT(kv[1], 32, false), g: w.True})
		}
		o := w.newObjN("availability message", nil, mn)
		f["HWCavailability"] = w.mk(&Term{k: KMap, n: int64(o.id)})
	}
	if m.events != nil {
		et := w.msgType("HWCEvent")
		var es []Node
		for i, ev := range m.events {
			x := map[string]Node{"HWCID": w.IntT(int64(ev.id), 32, false)}
			for _, k := range []byte(ev.kinds) {
				switch k {
				case 'b':
					t := w.msgType("BinaryEvent")
					x["Binary"] = w.newPtr("binary", t, w.setFields(t, map[string]Node{"Pressed": w.Bool(ev.pressed), "Edge": w.IntT(ev.edge, 32, true)}))
				case 'p':
					t := w.msgType("PulsedEvent")
					x["Pulsed"] = w.newPtr("pulsed", t, w.setFields(t, map[string]Node{"Value": w.evVal(m, i, k)}))
				case 'a':
					t := w.msgType("AbsoluteEvent")
					x["Absolute"] = w.newPtr("absolute", t, w.setFields(t, map[string]Node{"Value": w.evVal(m, i, k)}))
				case 's':
					t := w.msgType("SpeedEvent")
					x["Speed"] = w.newPtr("speed", t, w.setFields(t, map[string]Node{"Value": w.evVal(m, i, k)}))
				}
			}
			es = append(es, w.newPtr(fmt.Sprintf("event %s.%d", m.name, i), et, w.setFields(et, x)))
		}
		f["Events"] = w.listSlice(es...)
	}
	return w.setFields(mt, f)
}

// wireOf registers a message and returns what goes over the wire.
func (w *World) pmsgWire(m pmsg, ascii bool) (*Term, *StructN) {
	n := w.message(m)
	if ascii {
		if m.flow != 0 {
			txt := map[int64]string{1: "ping", 2: "ack", 3: "nack"}[m.flow]
			w.tokens[w.Str(txt)] = &tok{name: m.name, kind: "line", text: w.Str(txt), node: n}
			return w.Str(txt + "\n"), n
		}
		t := w.textLine(m.name, 9)
		t.node = n
		return w.Concat(t.text, w.Str("\n")), n
	}
	if m.flow != 0 && m.info == "" && m.topo == "" && m.events == nil && m.avail == nil {
		return w.frame(w.flowPayload(m.name, m.flow)), n
	}
	t := w.payload(m.name, 20, false)
	t.node = n
	return w.frame(t), n
}

var initMsgs = []pmsg{{name: "hello", info: "ms"}, {name: "topology", topo: "jg"}}

func (s *Scenario) gorwp(o gscn) {
	fn := s.c.need("rpspec", "GorwpApp")
	pk := s.c.pkg(modRoot + "/gorwp")
	if fn == nil || pk == nil {
		return
	}
	if o.runs == 0 {
		o.runs = 4000
	}
	if o.early == nil {
		o.early = []pstep{{msgs: initMsgs}}
	}
	if o.within == 0 {
		o.within = 3500 * ms
	}
	var r *grun
	runs, complete := s.explore(WorldCfg{pre: o.pre, dev: o.dev, maxRuns: o.runs, race: true, pkgs: []*ssa.Package{pk, fn.Pkg}, start: func(w *World, st *State) (*ssa.Function, []*Term) {
		w.noTorn = true
		r = &grun{w: w, conn: -1}
		return fn, s.gorwpSetup(o, r, fn)
	}, check: func(w *World) {
		if w.end == "abort" {
			s.undecided(w.fail)
			return
		}
		s.gorwpCheck(o, r)
	}})
	s.r.Runs += runs
	if !complete && !o.some {
		s.undecided(fmt.Sprintf("not every resolution of the schedule was analysed (%d were)", runs))
	}
}

func (s *Scenario) gorwpSetup(o gscn, r *grun, fn *ssa.Function) []*Term {
	w := r.w
	sc := &Script{after: true, refuse: o.refuse}
	if o.mute {
	} else if o.ascii {
		sc.steps = append(sc.steps, Step{data: w.Str("RDY\n")})
	} else {
		sc.steps = append(sc.steps, Step{data: w.ack()})
	}
	// the remaining steps follow the reply at the given times
	last := int64(0)
	wait := int64(500 * ms) // the detector may spend time after the reply; the panel answers requests only
	add := func(t int64, st Step) {
		t += wait
		st.delay = max(0, t-last)
		last = max(last, t)
		sc.steps = append(sc.steps, st)
	}
	for _, p := range append(append([]pstep{}, o.early...), o.steps...) {
		var all []*Term
		for i, m := range p.msgs {
			x, n := w.pmsgWire(m, o.ascii)
			at := p.at
			if !p.one && p.cuts == nil {
				at += int64(i) * p.pause
			}
			r.sent = append(r.sent, sentMsg{at, m, n})
			all = append(all, x)
		}
		if p.raw != nil {
			all = append(all, p.raw(w))
		}
		var segs []*Term
		switch {
		case p.cuts != nil:
			segs = w.seg(w.Concat(all...), p.cuts)
		case p.one:
			segs = []*Term{w.Concat(all...)}
		default:
			segs = all
		}
		for i, x := range segs {
			add(p.at+int64(i)*p.pause, Step{data: x})
		}
		if p.close || p.reset {
			add(p.at, Step{close: p.close, reset: p.reset})
		}
	}
	r.startAt = wait
	w.scripts = []*Script{sc}
	w.horizon = last + 3*sec
	if o.horizon > 0 {
		w.horizon = o.horizon
	}
	r.ctx = w.newCtx(nil)
	r.ctx.user = true
	var args []*Term
	ai := 0
	for _, p := range fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Basic:
			args = append(args, w.Str("192.0.2.1:9923"))
		case *types.Interface:
			args = append(args, r.ctx.term)
		case *types.Chan:
			ch := w.newChan("actions", 0, t)
			for _, a := range o.acts {
				v := int64(a.op*1000 + a.id)
				ai++
				ch.offers = append(ch.offers, offer{at: wait + a.at, id: ai, v: func(*State) *Term { return w.Int(v) }})
			}
			w.horizon = max(w.horizon, wait+2*sec)
			if n := len(o.acts); n > 0 {
				w.horizon = max(w.horizon, wait+o.acts[n-1].at+2*sec)
			}
			args = append(args, ch.term)
		case *types.Signature:
			args = append(args, w.envFunc(p.Name(), r.handler(p.Name())))
		}
	}
	if o.cancel > 0 {
		w.timed = append(w.timed, timedEv{at: w.now + o.cancel, f: func() { w.cancel(r.ctx, "cancelled") }})
	}
	return args
}

func (r *grun) handler(name string) func(c *CallCtx) *Term {
	w := r.w
	return func(c *CallCtx) *Term {
		w.point(c.st)
		switch name {
		case "cancel":
			w.cancel(r.ctx, "cancelled")
		case "connected":
			r.connT, r.conn, r.rp = w.now, 0, c.args[0]
			if c.args[1].k != KBool {
				panic("world: outcome of Connect not decided")
			}
			r.conn = int(c.args[1].n)
			w.ev("connected", -1, 0, c.args[1], nil, c.pos)
		case "onBinary":
			r.obs = append(r.obs, gobs{t: w.now, kind: 1, id: c.args[0], a: c.args[1], b: c.args[2]})
			w.ev("handler", -1, 0, c.args[0], nil, c.pos)
		case "onValue":
			r.obs = append(r.obs, gobs{t: w.now, kind: int(c.args[0].n), id: c.args[1], a: c.args[2]})
			w.ev("handler", -1, 0, c.args[1], nil, c.pos)
		case "onTrigger":
			r.obs = append(r.obs, gobs{t: w.now, kind: 5, id: c.args[0], trigger: w.deep(c.args[1], c.st, w.msgPtr("HWCEvent"))})
			w.ev("handler", -1, 0, c.args[0], nil, c.pos)
		case "onState":
			p := gpoll{t: w.now, name: c.args[0], serial: c.args[1], model: c.args[2], init: c.args[4], top: w.Nil}
			if c.args[3] != w.Nil {
				p.top = w.deep(c.args[3], c.st, c.sig.Params().At(3).Type())
			}
			p.avail, p.availOK = r.avail(c.st)
			r.polls = append(r.polls, p)
			w.ev("poll", -1, 0, nil, nil, c.pos)
		default:
			panic("unknown callback " + name)
		}
		return nil
	}
}

// avail reads the availability table of the state.
func (r *grun) avail(st *State) (map[int64]int64, bool) {
	w := r.w
	if r.rp == nil || r.rp.k != KPtr {
		return nil, false
	}
	var find func(n Node, t types.Type, depth int) (map[int64]int64, bool)
	find = func(n Node, t types.Type, depth int) (map[int64]int64, bool) {
		u, ok := t.Underlying().(*types.Struct)
		sn, ok2 := n.(*StructN)
		if !ok || !ok2 || depth > 3 {
			return nil, false
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if m, ok := ft.Underlying().(*types.Map); ok && types.Identical(m.Key(), types.Typ[types.Uint32]) && types.Identical(m.Elem(), types.Typ[types.Uint32]) {
				out := map[int64]int64{}
				t := w.nodeTerm(w.force(sn.f[i]))
				if t == w.Nil {
					return out, true
				}
				for _, it := range w.mapItems(t, st, m).items {
					kv, ok := it.v.(*StructN)
					if !ok || it.g != w.True {
						return nil, false
					}
					k, v := w.nodeTerm(kv.f[0]), w.nodeTerm(kv.f[1])
					if k.k != KInt || v.k != KInt {
						return nil, false
					}
					out[k.n] = v.n
				}
				return out, true
			}
			if a, ok := find(w.force(sn.f[i]), ft, depth+1); ok {
				return a, true
			}
		}
		return nil, false
	}
	pt := w.s.c.pkg(modRoot + "/gorwp").Type("RawPanel")
	return find(w.loadLeaf(r.rp, st), pt.Type(), 0)
}

// wantObs: one handler call the panel's messages demand
type wantObs struct {
	gobs
	m     pmsg
	i     int
	maybe bool
}

func (s *Scenario) gorwpCheck(o gscn, r *grun) {
	w := r.w
	bad := func(rule, key, msg string) { s.violate(rule, key, msg+w.story()) }
	for _, ob := range w.obls {
		s.never("never-panics", fmt.Sprintf("%s in %s", ob.kind, fnName(ob.fn)), w.posStr(ob.pos)+": "+ob.kind, ob.cond)
	}
	if w.end == "panic" || w.end == "spin" {
		bad("live", w.end, "the client does not keep running")
		return
	}
	if w.torn != "" {
		bad("frame", "torn payload", "what is decoded is not a payload as the panel sent it: "+w.torn)
		return
	}
	var ks []string
	for k := range w.races {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x := w.races[k]
		key := x
		if i := strings.Index(x, " at "); i > 0 {
			key = x[:i]
		}
		s.violate("race", key, x+w.story())
		return
	}
	if r.conn < 0 {
		bad("connect", "Connect does not return", fmt.Sprintf("Connect has not returned after %.1fs", float64(w.now)/1e9))
		return
	}
	if o.connect >= 0 && r.conn != o.connect {
		bad("connect", fmt.Sprintf("outcome %d", r.conn), fmt.Sprintf("Connect %s, but %s", map[int]string{0: "fails", 1: "succeeds"}[r.conn], o.what))
		return
	}
	if r.connT > o.within {
		bad("connect", "too late", fmt.Sprintf("Connect returns after %.3fs", float64(r.connT)/1e9))
		return
	}
	s.ok()
	if r.conn == 0 {
		return
	}

	// the handlers bound at any time
	type bound struct {
		at   int64
		kind int
		id   uint32
	}
	var binds []bound
	for _, a := range o.acts {
		for _, k := range map[int][]int{1: {1}, 2: {2}, 3: {3}, 4: {4}, 5: {5}, 6: {1}, 7: {1}, 8: {1}, 9: {1}, 13: {1}, 14: {14}, 15: {2}, 16: {2, 3, 4, 5}}[a.op] {
			binds = append(binds, bound{a.at, k, uint32(a.id)})
		}
	}
	handler := func(kind int, id uint32, at int64) int { // kind called, 0: none
		k := 0
		for _, b := range binds {
			if b.at <= at && b.id == id && (b.kind == kind || kind == 2 && b.kind == 14) {
				k = b.kind
			}
		}
		return k
	}
	var want []wantObs
	fb := 0
	for _, sm := range r.sent {
		if o.cut > 0 && sm.at > o.cut {
			continue
		}
		for i, ev := range sm.m.events {
			id := w.IntT(int64(ev.id), 32, false)
			maybe := false
			for _, x := range o.races {
				maybe = maybe || uint32(x) == ev.id
			}
			put := func(g gobs, kind int) {
				k := handler(kind, ev.id, sm.at)
				if maybe {
					k = kind
				}
				if k > 0 {
					g.kind = k
					g.id = id
					want = append(want, wantObs{g, sm.m, i, maybe})
				}
			}
			put(gobs{}, 5)
			if strings.Contains(ev.kinds, "b") {
				p := int64(0)
				if ev.pressed {
					p = 1
				}
				put(gobs{a: w.IntT(p, 8, false), b: w.IntT(ev.edge, 8, false)}, 1)
			}
			for j, k := range []byte("pas") {
				if strings.IndexByte(ev.kinds, k) >= 0 {
					put(gobs{a: w.conv(w.evVal(sm.m, i, k), 64, true)}, 2+j)
				}
			}
			for _, a := range o.acts { // a handler that replaces itself
				if a.op == 15 && uint32(a.id) == ev.id {
					binds = append(binds, bound{sm.at, 14, ev.id})
				}
			}
			for _, a := range o.acts {
				if a.op == 9 && uint32(a.id) == ev.id && a.at <= sm.at {
					for k := 1; k <= 5; k++ {
						binds = append(binds, bound{sm.at, k, ev.id + 1})
					}
				}
			}
		}
	}
	st := &State{g: w.g, mem: w.mem}
	same := func(g gobs, x wantObs) bool {
		if g.kind != x.kind || g.id != x.id {
			return false
		}
		if g.kind == 5 {
			for _, sm := range r.sent {
				if sm.m.name == x.m.name {
					l := w.deepN(sm.st, st, w.msgType("OutboundMessage"), 0)
					return w.deepElem(sm.st, st, x.i) == g.trigger && l != nil
				}
			}
			return false
		}
		return g.a == x.a && g.b == x.b
	}
	i := 0
	free := len(want) - o.free
	for n, g := range r.obs {
		j := i
		for j < len(want) && !same(g, want[j]) && (want[j].maybe || j >= free) {
			j++
		}
		if j >= len(want) || !same(g, want[j]) {
			exp := "no call"
			if i < len(want) {
				exp = w.showWant(want[i])
			}
			bad("dispatch", "handler call", fmt.Sprintf("call %d of the handlers is %s; expected: %s", n+1, w.showObs(g), exp))
			return
		}
		i = j + 1
	}
	for ; i < len(want); i++ {
		if !want[i].maybe && i < free {
			bad("dispatch", "handler not called", fmt.Sprintf("%d handler calls of at least %d were made; missing: %s", len(r.obs), len(want), w.showWant(want[i])))
			return
		}
	}
	s.ok()

	// what reached the panel
	own := 0
	for _, a := range o.acts {
		if a.op == 11 {
			own++
		}
	}
	for _, g := range r.obs {
		op := 0
		for _, a := range o.acts {
			if int64(a.id) == g.id.n && (a.op >= 6 && a.op <= 8 && g.kind == 1 || a.op == 16 && g.kind > 1) {
				op = a.op
			}
		}
		fb += map[int]int{6: 1, 7: 3, 8: 14, 16: 1}[op]
	}
	acks := 0
	ended := false
	for _, p := range append(append([]pstep{}, o.early...), o.steps...) {
		ended = ended || p.close || p.reset || p.raw != nil
		for _, m := range p.msgs {
			if m.flow == w.flowConst("OutboundMessage_PING") && (o.cut == 0 || p.at <= o.cut) {
				acks++
			}
		}
	}
	if o.cancel > 0 {
		ended = true
	}
	for _, a := range o.acts {
		ended = ended || a.op == 12
	}
	if !ended && len(w.conns) > 0 {
		if w.conns[0].closed {
			bad("live", "connection closed", "the client closes the connection")
			return
		}
		s.replies(o, r, fb, own, acks, bad)
	}

	// the state
	for _, p := range r.polls {
		if o.blur > 0 && p.t == r.startAt+o.blur {
			continue
		}
		s.stateAt(o, r, p, bad)
	}
}

// replies: exactly one acknowledge per ping and every feedback message exactly once, in order.
func (s *Scenario) replies(o gscn, r *grun, fb, own, acks int, bad func(rule, key, msg string)) {
	w := r.w
	var ps []*Term
	for _, x := range w.conns[0].out {
		ps = append(ps, x.t)
	}
	stream := w.Concat(ps...)
	mt := w.msgType("InboundMessage")
	enc := func(n *StructN) *Term {
		d := w.deepN(n, &State{g: w.True, mem: w.mem}, mt, 0)
		if o.ascii {
			var ls []*Term
			for _, l := range w.linesOf(d) {
				ls = append(ls, l, w.Str("\n"))
			}
			return w.Concat(ls...)
		}
		b := w.pbOf(d, mt)
		return w.Concat(w.le32(w.StrLen(b)), b)
	}
	probe := w.probe()
	if o.ascii {
		probe = w.Concat(probe, w.Str("\n"))
	}
	ct := w.msgType("Command")
	ping := enc(w.flowMsg(mt, w.flowConst("InboundMessage_PING")))
	ack := enc(w.flowMsg(mt, w.flowConst("InboundMessage_ACK")))
	hb := w.msgType("HeartBeatTimer")
	hello := enc(w.setFields(mt, map[string]Node{"Command": w.newPtr("cmd", ct, w.setFields(ct, map[string]Node{
		"SendPanelInfo": w.True, "SendPanelTopology": w.True, "ReportHWCavailability": w.True,
		"SetHeartBeatTimer": w.newPtr("hb", hb, w.setFields(hb, map[string]Node{"Value": w.IntT(3000, 32, false)}))}))}))
	fbe := func(n int) *Term {
		t := w.msgType("HWCState")
		p := w.newPtr("state", t, w.setFields(t, map[string]Node{"HWCIDs": w.listSlice(w.IntT(int64(n), 32, false))}))
		return enc(w.setFields(mt, map[string]Node{"States": w.listSlice(p)}))
	}
	eat := func(x *Term) bool {
		n, l := w.StrLen(x), w.StrLen(stream)
		if n.k != KInt || l.k != KInt {
			panic("length of what was written is not known")
		}
		if n.n == 0 || n.n > l.n || w.SubStr(stream, w.Int(0), n) != x {
			return false
		}
		stream = w.SubStr(stream, n, nil)
		return true
	}
	if !eat(probe) {
		s.ok() // the negotiation is judged elsewhere
		return
	}
	nAck, nFb, nOwn := 0, 0, 0
	next, mine := fbe(1), fbe(5000)
	for stream != w.Empty {
		switch {
		case eat(next):
			nFb++
			next = fbe(nFb + 1)
		case eat(mine):
			nOwn++
		case eat(ack):
			nAck++
		case eat(ping), eat(hello):
		default:
			bad("output", "bytes for the panel", fmt.Sprintf("after %d feedback messages and %d acknowledges the panel receives %.300q, which is none of the messages due", nFb, nAck, w.show(stream)))
			return
		}
	}
	if nAck != acks {
		bad("ping", "acknowledge", fmt.Sprintf("the panel pings %d times and receives %d acknowledges", acks, nAck))
		return
	}
	if nFb != fb || nOwn != own {
		bad("output", "feedback lost", fmt.Sprintf("%d of %d feedback messages and %d of %d others reach the panel", nFb, fb, nOwn, own))
		return
	}
	s.ok()
}

func (s *Scenario) stateAt(o gscn, r *grun, p gpoll, bad func(rule, key, msg string)) {
	w := r.w
	name, serial, model, top := w.Empty, w.Empty, w.Empty, w.Nil
	av := map[int64]int64{}
	for _, sm := range r.sent {
		if sm.at+r.startAt > p.t || o.cut > 0 && sm.at > o.cut {
			continue
		}
		for _, k := range []byte(sm.m.info) {
			v := w.infoVal(sm.m, k)
			switch k {
			case 'm':
				model = v
			case 's':
				serial = v
			case 'n':
				name = v
			}
		}
		if strings.Contains(sm.m.topo, "j") {
			tt := s.c.pkg(topoPath).Type("Topology").Type()
			top = w.deep(w.newPtr("topology", tt, w.opaqueMsg(tt, "json:"+w.show(w.infoVal(sm.m, 'j')))), &State{g: w.True, mem: w.mem}, types.NewPointer(tt))
		}
		for _, kv := range sm.m.avail {
			av[kv[0]] = kv[1]
		}
	}
	cmp := func(what string, got, want *Term) bool {
		if got != want {
			bad("state", what, fmt.Sprintf("at %.3fs the %s is %.200s; the latest received is %.200s", float64(p.t)/1e9, what, w.show(got), w.show(want)))
			return false
		}
		return true
	}
	if !cmp("name", p.name, name) || !cmp("serial", p.serial, serial) || !cmp("model", p.model, model) || !cmp("topology", p.top, top) {
		return
	}
	if p.availOK && fmt.Sprint(p.avail) != fmt.Sprint(av) {
		bad("state", "availability", fmt.Sprintf("at %.3fs the availability is %v; the latest received is %v", float64(p.t)/1e9, p.avail, av))
		return
	}
	s.ok()
}

// deepElem: the value of the i-th event of a message.
func (w *World) deepElem(m *StructN, st *State, i int) *Term {
	mt := w.msgType("OutboundMessage").Underlying().(*types.Struct)
	for k := 0; k < mt.NumFields(); k++ {
		if mt.Field(k).Name() == "Events" {
			n, _ := w.sliceNode(w.nodeTerm(m.f[k]), st)
			return w.deep(w.nodeTerm(w.force(n.(*ListN).items[i].v)), st, w.msgPtr("HWCEvent"))
		}
	}
	return nil
}

var kindName = map[int]string{1: "binary", 2: "pulsed", 3: "absolute", 4: "intensity", 5: "trigger", 14: "second pulsed"}

func (w *World) showObs(g gobs) string {
	x := fmt.Sprintf("%s handler of %s", kindName[g.kind], w.show(g.id))
	for _, t := range []*Term{g.a, g.b, g.trigger} {
		if t != nil {
			x += " " + fmt.Sprintf("%.200s", w.show(t))
		}
	}
	return x
}
func (w *World) showWant(x wantObs) string {
	return w.showObs(x.gobs) + fmt.Sprintf(" (event %d of message %s)", x.i+1, x.m.name)
}

func init() {
	wm("encoding/json.Unmarshal", func(w *World, c *CallCtx) *Term {
		data := w.bytesTerm(c.args[0], c.st)
		if c.args[1].k != KIface || c.args[1].args[0].k != KPtr {
			panic("world: JSON into an unknown target")
		}
		t := c.args[1].x.(types.Type).Underlying().(*types.Pointer).Elem()
		p := c.args[1].args[0]
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			w.accPtr(p, true, c.pos)
			q := w.nodeTerm(w.loadLeaf(p, c.st))
			t = pt.Elem()
			if q == w.Nil {
				q = w.newPtr("json", t, w.zero(t))
				w.storeLeaf(p, q, c.st, w.True)
			}
			if q.k != KPtr {
				panic("world: JSON into an unknown target")
			}
			p = q
		}
		if _, ok := t.Underlying().(*types.Struct); !ok {
			panic("world: JSON into a value of type " + t.String())
		}
		w.accPtr(p, true, c.pos)
		if tk := w.tokens[data]; tk != nil && tk.kind == "badjson" {
			return w.err("malformed")
		}
		old := w.deepN(w.loadLeaf(p, c.st), c.st, t, 0)
		nm := "json:" + w.show(data)
		if old != w.deepN(w.zero(t), c.st, t, 0) {
			nm += " merged into " + w.show(old)
		}
		w.storeLeaf(p, w.opaqueMsg(t, nm), c.st, w.True)
		return w.Nil
	})
}
