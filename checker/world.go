package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A World is the environment automaton a concurrent entry point is composed with: abstract connections, channels,
// timers, locks and goroutines. Message contents are opaque terms. One pass of the analysis follows one resolution of
// the environment's and the scheduler's choices; explore enumerates them.

type killT struct{}

type G struct {
	foreign bool // started by a library
	id      int
	name    string
	resume  chan struct{}
	fin     chan struct{}
	done    bool
	started bool
	cond    func() bool // blocked until cond holds
	wake    int64       // or until this time (-1: none)
	what    string      // what it is blocked in
	pos     token.Pos
	stack   []*ssa.Function
	waits   []ccase
	got     *crecv
	vc      map[int]int
	after   func()
	ret     *Term // result
	retT    int64
}

type ccase struct {
	ch   *WChan
	send bool
	val  *Term
	pos  token.Pos
}
type crecv struct {
	idx int
	val *Term
	ok  bool
}

type WChan struct {
	name    string
	term    *Term
	typ     types.Type
	cap     int
	buf     []cval
	closed  bool
	closeVC map[int]int
	// environment ends
	offers  []offer            // values the environment offers to receivers
	accept  func() int64       // time at which the environment takes the next value (nil: never)
	taken   func(v *Term)      // called with a value the environment took
	pending map[*G]map[int]int // clocks of completed receivers
}
type cval struct {
	v  *Term
	vc map[int]int
}
type offer struct {
	at int64
	v  func(st *State) *Term
	id int
}

type wtimer struct {
	at, period int64
	on         bool
	ch         *WChan
	fn         *Term
	obj        int
}

type Step struct {
	delay int64
	data  *Term
	close bool // the panel closes
	reset bool
}
type Script struct {
	refuse bool
	hang   bool // the dial is refused only after a while
	after  bool // steps start when the first bytes have been written
	steps  []Step
	stallW bool       // the panel stops reading once it has sent its last step
	pauseW [][2]int64 // the panel does not read between these times after the start
}

type Conn struct {
	id      int
	sc      *Script
	term    *Term
	at      int64 // time of the next step
	next    int
	started bool
	startT  int64
	in      []*Term
	n       int
	eof     bool
	rst     bool
	closed  bool
	rdl     int64
	wdl     int64
	rdlSet  int64
	out     []wr
	closeT  int64
	peerT   int64
	reads   int
}
type wr struct {
	g *G
	t *Term
	n int64
}

type TEv struct {
	kind string
	t    int64
	g    int
	conn int
	n    int64
	a    *Term
	b    *Term
	pos  token.Pos
	seq  int
}

type choice struct {
	n, k int
	what string
}

type bufRd struct {
	src  *Term
	buf  []*Term
	n    int
	err  *Term
	max  int
	tok  *Term
	line bool
	last *Term
}

type acc struct {
	w     int
	wclk  int
	wpos  token.Pos
	rd    map[int]int
	rpos  map[int]token.Pos
	wname string
}

type World struct {
	*Eng
	s       *Scenario
	prefix  []int
	choices []choice
	gs      []*G
	cur     *G
	mem     *pmap
	g       *Term
	now     int64
	horizon int64
	maxDial int // uncancelled passes end at this number of attempts
	dead    bool
	end     string
	doneCh  chan struct{}
	trace   []TEv
	conns   []*Conn
	scripts []*Script
	lastSc  *Script // script of every further connection
	chans   map[*Term]*WChan
	timers  []*wtimer
	tObj    map[int]*wtimer
	locks   map[string]*wlock
	wgs     map[string]*wgrp
	onces   map[string]bool
	funcs   map[string]func(c *CallCtx) *Term
	ctxs    map[*Term]*wctx
	pre     int   // remaining preemptions
	floatC  *wctx // may be cancelled at any scheduling point
	cancelT int64
	idle    int // points since time last moved
	npoints int
	errs    map[*Term]string
	tokens  map[*Term]*tok
	toks    map[string]*tok
	rd      map[int]*bufRd
	bw      map[int]*bufWr
	races   map[string]string
	noTorn  bool   // what is decoded is a payload as it was sent, or none of it
	torn    string // what was decoded otherwise
	access  map[string]*acc
	checkRC bool
	maxAll  int64
	fail    string
	lines   func(msg *Term) int
	pblen   map[*Term]int
	rowsOf  map[*Term]int // text lines of a submitted message
	steps0  int
	timed   []timedEv
	start   map[int]func()
	localM  map[string]wModel
	atoms   map[*Term]*Term
	refused int
	mons    []func()
	obl0    int
	obj0    int
	syncVC  map[string]map[int]int
}
type timedEv struct {
	at int64
	f  func()
}
type tok struct {
	name string
	kind string // "msg", "bad", "line"
	node *StructN
	text *Term
}
type wlock struct {
	owner *G
	rd    map[*G]int
	vc    map[int]int
	rvc   map[int]int
}
type wgrp struct {
	n   int64
	vc  map[int]int
	pos token.Pos
}
type wctx struct {
	term   *Term
	done   *WChan
	parent *wctx
	kids   []*wctx
	at     int64
	cause  string
	user   bool
	after  []*ctxFunc
}

const (
	ms  = int64(time.Millisecond)
	sec = int64(time.Second)
)

var worldBase int64 = 1_000_000_000_000_000_000

// ---- exploration

type WorldCfg struct {
	pre     int
	maxRuns int
	dev     int // at most this many choices other than the first one (0: any number)
	race    bool
	pkgs    []*ssa.Package
	start   func(w *World, st *State) (*ssa.Function, []*Term)
	check   func(w *World)
}

// explore analyses the entry point once per resolution of the choices.
func (s *Scenario) explore(cfg WorldCfg) (runs int, complete bool) {
	if cfg.maxRuns == 0 {
		cfg.maxRuns = 4000
	}
	var prefix []int
	for {
		e := s.Eng
		if e.nterm > 100_000 {
			e = s.renew()
		}
		if !e.worldReady {
			s.worldModels()
			e.bytesMake = true
			e.noListLoop = true
			e.worldReady = true
			for _, p := range cfg.pkgs {
				e.InitPkg(p)
			}
		}
		if time.Now().After(e.deadline) {
			return runs, false
		}
		w := &World{Eng: e, s: s, prefix: prefix, chans: map[*Term]*WChan{}, tObj: map[int]*wtimer{}, locks: map[string]*wlock{}, wgs: map[string]*wgrp{},
			onces: map[string]bool{}, funcs: map[string]func(c *CallCtx) *Term{}, ctxs: map[*Term]*wctx{}, errs: map[*Term]string{}, tokens: map[*Term]*tok{},
			toks: map[string]*tok{}, rd: map[int]*bufRd{}, bw: map[int]*bufWr{}, races: map[string]string{}, access: map[string]*acc{}, doneCh: make(chan struct{}, 1), pblen: map[*Term]int{}, rowsOf: map[*Term]int{},
			syncVC: map[string]map[int]int{}, atoms: map[*Term]*Term{}, localM: map[string]wModel{}, cancelT: -1}
		w.pre = cfg.pre
		w.checkRC = cfg.race
		w.horizon = 120 * sec
		e.world = w
		e.steps = 0
		e.maxSteps = 4_000_000
		e.events = nil
		e.obls = nil
		w.obj0 = len(e.objs)
		st := &State{g: e.True, mem: e.baseMem}
		w.initGlobals(st)
		fn, args := cfg.start(w, st)
		w.mem, w.g = st.mem, st.g
		w.run(fn, args)
		runs++
		cfg.check(w)
		e.world = nil
		for o := w.obj0; o < len(e.objs); o++ {
			if !e.objs[o].lazy && e.objs[o].x == nil { // free the contents
				e.objs[o].cache = nil
			}
		}
		if s.c.enough() {
			return runs, true
		}
		// next resolution
		k := len(w.choices) - 1
		devs := 0
		for _, c := range w.choices {
			if c.k > 0 {
				devs++
			}
		}
		for ; k >= 0; k-- {
			c := w.choices[k]
			if c.k > 0 {
				devs--
			}
			if c.k+1 < c.n && (cfg.dev == 0 || devs < cfg.dev) {
				break
			}
		}
		if k < 0 {
			return runs, true
		}
		if runs >= cfg.maxRuns {
			return runs, false
		}
		prefix = prefix[:0:0]
		for _, c := range w.choices[:k] {
			prefix = append(prefix, c.k)
		}
		prefix = append(prefix, w.choices[k].k+1)
	}
}

// renew starts over with an empty term table; the passes of an exploration do not depend on each other.
func (s *Scenario) renew() *Eng {
	o := s.Eng
	n := NewInterp(s.c.prog)
	n.deadline, n.maxTerms, n.visited, n.notes, n.fnInfo = o.deadline, o.maxTerms, o.visited, o.notes, o.fnInfo
	s.Eng = n
	return n
}

func (w *World) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	k := 0
	if len(w.choices) < len(w.prefix) {
		k = w.prefix[len(w.choices)]
		if k >= n {
			k = n - 1
		}
	}
	w.choices = append(w.choices, choice{n, k, what})
	return k
}

func (w *World) run(fn *ssa.Function, args []*Term) {
	g := w.spawn("main", fn, nil, args, fn.Pos())
	w.cur = g
	g.started = true
	go w.host(g, fn, nil, args)
	g.resume <- struct{}{}
	<-w.doneCh
	w.dead = true
	for _, g := range w.gs {
		if !g.done && g.started {
			w.stack = g.stack
			g.resume <- struct{}{}
			<-g.fin
		}
	}
}

func (w *World) spawn(name string, fn *ssa.Function, binds, args []*Term, pos token.Pos) *G {
	g := &G{id: len(w.gs), name: name, resume: make(chan struct{}), fin: make(chan struct{}, 1), wake: -1, pos: pos, vc: map[int]int{}}
	g.vc[g.id] = 1
	w.gs = append(w.gs, g)
	return g
}

// stop ends the pass from inside a goroutine that has not finished.
func (w *World) stop(end string) {
	g := w.cur
	w.end = end
	g.stack = w.stack
	w.doneCh <- struct{}{}
	<-g.resume
	panic(killT{})
}

func (w *World) host(g *G, fn *ssa.Function, binds, args []*Term) {
	mine := false // this goroutine ended the pass
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(killT); ok {
				g.fin <- struct{}{}
				return
			}
			msg := fmt.Sprint("analysis gave up: ", x)
			if os.Getenv("RPSTACK") != "" {
				msg += "\n" + string(debug.Stack())
			}
			for i := len(w.stack) - 1; i >= 0; i-- {
				msg += "\n in " + w.stack[i].String()
			}
			w.fail = msg
			w.end = "abort"
			mine = true
		}
		g.done = true
		if mine {
			w.doneCh <- struct{}{}
		}
	}()
	<-g.resume
	if w.dead {
		panic(killT{})
	}
	w.stack = nil
	st := &State{g: w.g, mem: w.mem}
	r, out := w.callFn(fn, args, binds, st, nil, g.pos)
	if out != nil && out.g != w.False {
		w.mem, w.g = out.mem, out.g
		g.ret, g.retT = r, w.now
		w.ev("return", -1, int64(g.id), r, nil, g.pos)
	} else {
		w.ev("noreturn", -1, int64(g.id), nil, nil, g.pos)
		w.end = "panic"
		mine = true
		return
	}
	g.done = true
	if g.after != nil {
		g.after()
	}
	mine = w.switchAway(g, true)
}

func (w *World) ev(kind string, conn int, n int64, a, b *Term, pos token.Pos) {
	id := -1
	if w.cur != nil {
		id = w.cur.id
	}
	w.trace = append(w.trace, TEv{kind: kind, t: w.now, g: id, conn: conn, n: n, a: a, b: b, pos: pos, seq: len(w.trace)})
}

func (w *World) runnable(g *G) bool {
	if g.done {
		return false
	}
	if g.cond == nil && g.wake < 0 {
		return true
	}
	if g.wake >= 0 && w.now >= g.wake {
		return true
	}
	return g.cond != nil && g.cond()
}

// switchAway hands the processor to another goroutine and returns when g runs again. A finished g returns
// at once; true: nothing is left to run.
func (w *World) switchAway(g *G, fin bool) bool {
	for {
		var rs []*G
		for _, o := range w.gs {
			if w.runnable(o) {
				rs = append(rs, o)
			}
		}
		if w.floatC != nil && w.cancelT < 0 {
			if w.choose(2, "cancel before waiting") == 1 {
				w.cancel(w.floatC, "cancelled")
				continue
			}
		}
		if len(rs) > 0 {
			o := rs[w.choose(len(rs), "next goroutine")]
			w.handTo(g, o, fin)
			return false
		}
		if !w.advance() {
			all := true
			for _, o := range w.gs {
				if !o.done {
					all = false
				}
			}
			end := "quiet"
			if all {
				end = "done"
			}
			if w.now >= w.horizon {
				end = "horizon"
			}
			if fin {
				w.end = end
				return true
			}
			w.stop(end)
		}
	}
}

func (w *World) handTo(g, o *G, fin bool) {
	if o == g {
		return
	}
	g.stack = w.stack
	w.cur = o
	if !o.started {
		o.started = true
		go w.start[o.id]()
	}
	w.stack = o.stack
	o.resume <- struct{}{}
	if fin {
		return
	}
	w.park(g)
}

func (w *World) park(g *G) {
	<-g.resume
	if w.dead {
		panic(killT{})
	}
	w.stack = g.stack
	w.cur = g
}

// point is a scheduling point before an operation other goroutines can observe.
func (w *World) point(st *State) {
	if w.dead {
		panic(killT{})
	}
	w.npoints++
	w.idle++
	g := w.cur
	w.mem, w.g = st.mem, st.g
	if w.idle > 600 {
		w.stop("spin")
	}
	if w.steps > w.maxSteps {
		panic(abortT{"step limit"})
	}
	if w.floatC != nil && w.cancelT < 0 {
		if w.choose(2, "cancel") == 1 {
			w.cancel(w.floatC, "cancelled")
		}
	}
	if w.pre > 0 {
		var rs []*G
		for _, o := range w.gs {
			if o != g && w.runnable(o) {
				rs = append(rs, o)
			}
		}
		if len(rs) > 0 {
			if k := w.choose(len(rs)+1, "preempt"); k > 0 {
				w.pre--
				g.cond, g.wake = nil, -1
				w.handTo(g, rs[k-1], false)
			}
		}
	}
	st.mem, st.g = w.mem, w.g
}

// block waits until cond holds or the time wake (>=0) has come.
func (w *World) block(st *State, what string, pos token.Pos, wake int64, cond func() bool) {
	g := w.cur
	for !(cond != nil && cond()) && !(wake >= 0 && w.now >= wake) {
		w.mem, w.g = st.mem, st.g
		if cond == nil {
			cond = func() bool { return false }
		}
		g.cond, g.wake, g.what, g.pos = cond, wake, what, pos
		w.switchAway(g, false)
		g.cond, g.wake = nil, -1
		st.mem, st.g = w.mem, w.g
	}
}

// advance moves the clock to the next thing that happens; false: nothing ever will.
func (w *World) advance() bool {
	next := int64(-1)
	up := func(t int64) {
		if t > w.now && (next < 0 || t < next) {
			next = t
		}
	}
	for _, g := range w.gs {
		if !g.done && g.wake >= 0 {
			up(g.wake)
		}
	}
	for _, t := range w.timers {
		if t.on {
			up(t.at)
		}
	}
	for _, c := range w.conns {
		if c.started && c.next < len(c.sc.steps) {
			up(c.at)
		}
	}
	for _, t := range w.timed {
		up(t.at)
	}
	for _, ch := range w.chans {
		if len(ch.offers) > 0 {
			up(ch.offers[0].at)
		}
		if ch.accept != nil {
			up(ch.accept())
		}
	}
	for _, c := range w.conns {
		if !c.closed {
			up(c.rdl)
			up(c.wdl)
			for _, p := range c.sc.pauseW {
				up(c.startT + p[1])
			}
		}
	}
	for _, c := range w.ctxs {
		if c.at >= 0 && !c.done.closed {
			up(c.at)
		}
	}
	if next < 0 {
		return false
	}
	if next > w.horizon {
		w.now = w.horizon
		return false
	}
	w.now = next
	w.idle = 0
	w.settle()
	return true
}

// settle lets everything happen that is due now.
func (w *World) settle() {
	for i := 0; i < len(w.timed); i++ {
		if t := w.timed[i]; t.at <= w.now {
			w.timed = append(w.timed[:i:i], w.timed[i+1:]...)
			i--
			t.f()
		}
	}
	for _, c := range w.conns {
		for c.started && c.next < len(c.sc.steps) && c.at <= w.now {
			s := c.sc.steps[c.next]
			c.next++
			if s.data != nil {
				c.push(w, s.data)
				w.ev("arrived", c.id, int64(c.next-1), s.data, nil, token.NoPos)
			}
			if s.close {
				c.eof = true
				c.peerT = w.now
				w.ev("lost", c.id, 0, nil, nil, token.NoPos)
			}
			if s.reset {
				c.rst = true
				c.peerT = w.now
				w.ev("lost", c.id, 1, nil, nil, token.NoPos)
			}
			if c.next < len(c.sc.steps) {
				c.at = w.now + c.sc.steps[c.next].delay
			}
		}
	}
	for _, t := range w.timers {
		if t.on && t.at <= w.now {
			if t.ch != nil {
				if len(t.ch.buf) < 1 {
					t.ch.buf = append(t.ch.buf, cval{v: w.timeT(w.now)})
				}
			} else if t.fn != nil {
				w.spawnT(t.fn, nil, token.NoPos, nil)
			}
			if t.period > 0 {
				t.at += t.period
				for t.at <= w.now {
					t.at += t.period
				}
			} else {
				t.on = false
			}
		}
	}
	var cs []*wctx
	for _, c := range w.ctxs {
		if c.at >= 0 && c.at <= w.now && !c.done.closed {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].term.id < cs[j].term.id })
	for _, c := range cs {
		w.cancel(c, "deadline")
	}
}

func (c *Conn) push(w *World, t *Term) {
	n := w.StrLen(t)
	if n.k != KInt {
		panic("world: data of unknown length")
	}
	c.in = append(c.in, w.parts(t)...)
	c.n += int(n.n)
}

// take removes the first n bytes of a list of parts.
func (w *World) take(in []*Term, n int) (*Term, []*Term) {
	var out []*Term
	for n > 0 && len(in) > 0 {
		l := int(w.StrLen(in[0]).n)
		if l <= n {
			out = append(out, in[0])
			in = in[1:]
			n -= l
			continue
		}
		out = append(out, w.SubStr(in[0], w.Int(0), w.Int(int64(n))))
		rest := w.SubStr(in[0], w.Int(int64(n)), nil)
		in = append([]*Term{rest}, in[1:]...)
		n = 0
	}
	return w.concatBytes(out), in
}

// ---- time

func (w *World) timeT(t int64) *Term {
	return w.Tup(w.IntT(0, 64, false), w.Int(worldBase+t), w.Nil)
}
func (w *World) timeVal(t *Term) (int64, bool) { // ok=false: zero time
	if t.k == KTup && len(t.args) >= 2 && t.args[1].k == KInt {
		if t.args[1].n == 0 {
			return 0, false
		}
		return t.args[1].n - worldBase, true
	}
	panic("world: time of unknown value")
}
func (w *World) dur(t *Term) int64 {
	if t.k != KInt {
		panic("world: duration of unknown value")
	}
	return t.n
}

// ---- contexts

func (w *World) newCtx(parent *wctx) *wctx {
	c := &wctx{at: -1, parent: parent}
	o := w.newObjN("context", nil, w.Nil)
	c.term = w.Iface(ctxDyn, w.Ptr(o.id))
	c.done = w.newChan("context.Done", 0, nil)
	w.ctxs[c.term] = c
	if parent != nil {
		parent.kids = append(parent.kids, c)
		if parent.done.closed {
			w.cancel(c, parent.cause)
		}
	}
	return c
}

var ctxDyn = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, nil, "modelledContext", nil), types.NewStruct(nil, nil), nil))
var connDyn = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, nil, "modelledConn", nil), types.NewStruct(nil, nil), nil))
var addrDyn = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, nil, "modelledAddr", nil), types.NewStruct(nil, nil), nil))
var errDyn = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, nil, "modelledError", nil), types.NewStruct(nil, nil), nil))

func (w *World) cancel(c *wctx, cause string) {
	if c.done.closed {
		return
	}
	c.cause = cause
	c.done.closed = true
	if w.cur != nil && c != w.floatC {
		c.done.closeVC = copyVC(w.cur.vc)
	}
	if c.user || c == w.floatC {
		if w.cancelT < 0 {
			w.cancelT = w.now
			w.horizon = max(w.horizon, w.now+120*sec) // what follows is seen to its end
		}
		w.ev("cancel", -1, 0, nil, nil, token.NoPos)
	}
	w.runAfter(c)
	for _, k := range c.kids {
		w.cancel(k, cause)
	}
}

// ---- channels

func (w *World) newChan(name string, cap int, typ types.Type) *WChan {
	o := w.newObjN(name, typ, w.Nil)
	t := w.mk(&Term{k: KChan, n: int64(o.id)})
	c := &WChan{name: name, term: t, cap: cap, typ: typ}
	w.chans[t] = c
	return c
}

func (w *World) chanOf(t *Term) *WChan {
	if t == w.Nil {
		return nil
	}
	c := w.chans[t]
	if c == nil {
		panic("world: operation on unknown channel " + w.show(t))
	}
	return c
}

func copyVC(v map[int]int) map[int]int {
	m := make(map[int]int, len(v))
	for k, x := range v {
		m[k] = x
	}
	return m
}
func joinVC(a, b map[int]int) {
	for k, x := range b {
		if x > a[k] {
			a[k] = x
		}
	}
}

// partner: a goroutine parked in the opposite operation.
func (w *World) partner(ch *WChan, send bool) (*G, int) {
	for _, g := range w.gs {
		if g.done || g.got != nil || g == w.cur {
			continue
		}
		for i, c := range g.waits {
			if c.ch == ch && c.send == send {
				return g, i
			}
		}
	}
	return nil, -1
}

func (w *World) ready(c ccase) bool {
	ch := c.ch
	if ch == nil {
		return false
	}
	if c.send {
		if ch.closed || len(ch.buf) < ch.cap {
			return true
		}
		if ch.accept != nil {
			if a := ch.accept(); a >= 0 && a <= w.now {
				return true
			}
		}
		g, _ := w.partner(ch, false)
		return g != nil
	}
	if len(ch.buf) > 0 || ch.closed {
		return true
	}
	if len(ch.offers) > 0 && ch.offers[0].at <= w.now {
		return true
	}
	g, _ := w.partner(ch, true)
	return g != nil
}

func (w *World) tick(g *G) { g.vc[g.id]++ }

// perform carries out a ready case.
func (w *World) perform(c ccase, st *State, fr *Frame) crecv {
	ch, g := c.ch, w.cur
	if c.send {
		if ch.closed {
			w.obls = append(w.obls, &Obl{"send on closed channel", c.pos, st.g, nil})
			w.ev("panic", -1, 0, nil, nil, c.pos)
			w.stop("panic")
		}
		if o, i := w.partner(ch, false); o != nil {
			joinVC(o.vc, g.vc)
			joinVC(g.vc, o.vc)
			w.tick(g)
			o.got = &crecv{i, c.val, true}
			return crecv{}
		}
		if ch.accept != nil {
			w.idle = 0
			if ch.taken != nil {
				ch.taken(c.val)
			}
			return crecv{}
		}
		ch.buf = append(ch.buf, cval{c.val, copyVC(g.vc)})
		w.tick(g)
		return crecv{}
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		joinVC(g.vc, v.vc)
		if o, i := w.partner(ch, true); o != nil {
			ch.buf = append(ch.buf, cval{o.waits[i].val, copyVC(o.vc)})
			w.tick(o)
			o.got = &crecv{i, nil, true}
		}
		return crecv{0, v.v, true}
	}
	if o, i := w.partner(ch, true); o != nil {
		joinVC(g.vc, o.vc)
		joinVC(o.vc, g.vc)
		w.tick(o)
		w.tick(g)
		o.got = &crecv{i, nil, true}
		return crecv{0, o.waits[i].val, true}
	}
	if len(ch.offers) > 0 && ch.offers[0].at <= w.now {
		o := ch.offers[0]
		ch.offers = ch.offers[1:]
		v := o.v(st)
		w.ev("taken", -1, int64(o.id), v, nil, c.pos)
		return crecv{0, v, true}
	}
	// closed
	joinVC(g.vc, ch.closeVC)
	return crecv{0, nil, false}
}

// chanOp carries out one of the cases; -1: none was ready and block is false.
func (w *World) chanOp(st *State, cases []ccase, block bool, fr *Frame, pos token.Pos) crecv {
	w.point(st)
	g := w.cur
	for {
		var rs []int
		for i, c := range cases {
			if w.ready(c) {
				rs = append(rs, i)
			}
		}
		if len(rs) > 0 {
			i := rs[w.choose(len(rs), "select")]
			r := w.perform(cases[i], st, fr)
			r.idx = i
			w.mem, w.g = st.mem, st.g
			return r
		}
		if !block {
			return crecv{idx: -1}
		}
		g.waits, g.got = cases, nil
		w.block(st, "channel", pos, -1, func() bool {
			if g.got != nil {
				return true
			}
			for _, c := range cases {
				if w.ready(c) {
					return true
				}
			}
			return false
		})
		r := g.got
		g.waits, g.got = nil, nil
		if r != nil {
			return *r
		}
	}
}

// ---- data races (vector clocks)

func (w *World) syncIn(g *G, key string) { joinVC(g.vc, w.syncVC[key]) }
func (w *World) syncOut(g *G, key string) {
	m := w.syncVC[key]
	if m == nil {
		m = map[int]int{}
		w.syncVC[key] = m
	}
	joinVC(m, g.vc)
	w.tick(g)
}

func (w *World) accessed(obj int, path string, write bool, pos token.Pos) {
	if !w.checkRC || w.cur == nil || w.dead {
		return
	}
	g := w.cur
	key := fmt.Sprintf("%d/%s", obj, path)
	a := w.access[key]
	if a == nil {
		a = &acc{w: -1, rd: map[int]int{}, rpos: map[int]token.Pos{}}
		w.access[key] = a
	}
	race := func(op token.Pos, what string) {
		nm := w.objs[obj].name
		x, y := w.posStr(op), w.posStr(pos)
		if x > y {
			x, y = y, x
		}
		w.races[x+" | "+y] = fmt.Sprintf("%s of %s%s at %s and access at %s are not ordered", what, nm, path, x, y)
	}
	if a.w >= 0 && a.w != g.id && g.vc[a.w] < a.wclk {
		race(a.wpos, "write")
	}
	if write {
		for r, c := range a.rd {
			if r != g.id && g.vc[r] < c {
				race(a.rpos[r], "read")
			}
		}
		a.w, a.wclk, a.wpos = g.id, g.vc[g.id], pos
		a.rd = map[int]int{}
	} else {
		a.rd[g.id] = g.vc[g.id]
		a.rpos[g.id] = pos
	}
}

func (w *World) accPtr(p *Term, write bool, pos token.Pos) {
	if p.k != KPtr {
		return
	}
	o := w.objs[p.n]
	if o.x != nil && o.lazy {
		return
	}
	path := ""
	for _, a := range p.args {
		if a.k == KInt {
			path += fmt.Sprintf(".%d", a.n)
		} else {
			path += ".?"
		}
	}
	w.accessed(int(p.n), path, write, pos)
}

// ---- goroutines

func (w *World) spawnT(fnv *Term, args []*Term, pos token.Pos, fr *Frame) *G {
	if fnv.k != KFunc {
		panic("world: go of unknown function " + w.show(fnv))
	}
	var fn *ssa.Function
	binds := fnv.args
	if strings.HasPrefix(fnv.s, "invoke:") {
		recv := fnv.args[0]
		if recv.k != KIface {
			panic("world: go of unknown method " + fnv.s)
		}
		nm := fnv.s[strings.LastIndex(fnv.s, ".")+1:]
		for i := 0; ; i++ {
			ms := w.prog.MethodSets.MethodSet(recv.x.(types.Type))
			if i >= ms.Len() {
				break
			}
			if ms.At(i).Obj().Name() == nm {
				fn = w.prog.MethodValue(ms.At(i))
			}
		}
		args = append([]*Term{recv.args[0]}, args...)
		binds = nil
	} else if f, ok := fnv.x.(*ssa.Function); ok {
		fn = f
	}
	if fn == nil || len(fn.Blocks) == 0 {
		if f := w.funcs[fnv.s]; f != nil {
			f(&CallCtx{})
			return nil
		}
		panic("world: go of a function without body: " + fnv.s)
	}
	g := w.spawn(fn.String(), fn, binds, args, pos)
	if w.cur != nil {
		joinVC(g.vc, w.cur.vc)
		w.tick(w.cur)
	}
	if w.start == nil {
		w.start = map[int]func(){}
	}
	w.start[g.id] = func() { w.host(g, fn, binds, args) }
	w.ev("go", -1, int64(g.id), nil, nil, pos)
	return g
}
