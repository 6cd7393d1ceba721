package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// ---- goroutines

type G struct {
	id      int
	st      *State
	wake    chan struct{}
	name    string
	depth   int
	blocked string // reason while blocked
	dead    bool
	started bool
	vc      []uint32
	harness bool
	// channel hand-off
	xval Value
	xok  bool
	xsel int
	pos  string
}

func (st *State) newG(name string) *G {
	g := &G{id: len(st.gs), st: st, wake: make(chan struct{}, 1), name: name}
	st.gs = append(st.gs, g)
	g.vc = make([]uint32, g.id+1)
	g.vc[g.id] = 1
	return g
}

func (st *State) spawn(parent *G, d *deferred, pos string) {
	name := "?"
	if d.fn != nil {
		name = d.fn.name
	}
	g := st.newG(name)
	g.pos = pos
	if parent != nil {
		g.join(parent.vc)
		parent.tick()
	}
	if d.fn == nil && d.bi == nil {
		nilPanic(pos)
	}
	g.harness = d.fn != nil && d.fn.fn != nil && d.fn.fn.harness
	st.runq = append(st.runq, g)
	st.wg.Add(1)
	go func() {
		defer st.wg.Done()
		<-g.wake
		defer func() {
			r := recover()
			g.dead = true
			switch r := r.(type) {
			case nil:
				// normal exit: hand the baton on
				func() {
					defer func() {
						if r := recover(); r != nil {
							st.mainErr(r)
						}
					}()
					st.next(nil)
				}()
			case killSig:
			default:
				st.mainErr(r)
			}
		}()
		if st.killing {
			panic(killSig{})
		}
		if d.bi != nil {
			d.bi(g, nil, d.args)
		} else {
			g.callClosure(d.fn, d.args, nil, nil, d.pos)
		}
	}()
	if parent != nil {
		st.schedPoint(parent, "go")
	}
}

// mainErr aborts the path from a non-main goroutine: r is delivered to main.
func (st *State) mainErr(r interface{}) {
	st.abort = r
	m := st.gs[0]
	st.curG = m
	m.wake <- struct{}{}
}

// next picks another goroutine to run and hands it the baton. If self is
// non-nil it then waits to be woken.
func (st *State) next(self *G) {
	n := st.pick()
	if n == self {
		st.curG = self
		return
	}
	st.curG = n
	n.wake <- struct{}{}
	if self != nil {
		st.wait(self)
	}
}

func (st *State) wait(g *G) {
	<-g.wake
	if st.killing {
		panic(killSig{})
	}
	if g.id == 0 && st.abort != nil {
		r := st.abort
		st.abort = nil
		panic(r)
	}
}

// pick chooses the next runnable goroutine (the current one is blocked or done).
func (st *State) pick() *G {
	if len(st.runq) == 0 {
		if len(st.timers) > 0 {
			// nothing else can run: time passes
			return st.fireTimer()
		}
		if st.settler != nil {
			s := st.settler
			st.settler = nil
			return s
		}
		panic(&deadlock{st.describeBlocked()})
	}
	k := 0
	if st.explore && len(st.runq) > 1 && st.budget > 0 {
		k = st.choice("sched", len(st.runq))
		if k > 0 {
			st.budget--
		}
	}
	if st.lifo {
		k = len(st.runq) - 1 - k
	}
	g := st.runq[k]
	st.runq = append(st.runq[:k:k], st.runq[k+1:]...)
	st.traceSched(g)
	return g
}

func (st *State) traceSched(g *G) {
	if st.explore {
		st.schedTrace = append(st.schedTrace, g.id)
	}
}

// ---- time: virtual, it passes when nothing else can run

type sleeper struct {
	at int64
	g  *G
}

type timerState struct {
	gen    int
	active bool
	f      *Closure
	arg    Value
	fired  int
}

func (st *State) fireTimer() *G {
	t := st.timers[0]
	st.timers = st.timers[1:]
	if t.at > st.now {
		st.now = t.at
	}
	t.g.blocked = ""
	return t.g
}

func (g *G) sleepUntil(at int64, pos string) {
	st := g.st
	i := len(st.timers)
	for i > 0 && st.timers[i-1].at > at {
		i--
	}
	st.timers = append(st.timers, nil)
	copy(st.timers[i+1:], st.timers[i:])
	st.timers[i] = &sleeper{at, g}
	g.block("sleep", pos)
}

func (g *G) startTimer(t Ptr, ts *timerState, at, period int64, pos string) {
	ts.gen++
	ts.active = true
	gen := ts.gen
	cl := &Closure{name: "timer", native: func(g2 *G, _ []Value) Value {
		for {
			g2.sleepUntil(at, pos)
			if ts.gen != gen {
				return nil
			}
			ts.fired++
			if period <= 0 || ts.fired > 3 {
				ts.active = false
			}
			g2.callClosure(ts.f, []Value{ts.arg, uint64(0), uint64(0)}, nil, nil, pos)
			if !ts.active {
				return nil
			}
			at += period
		}
	}}
	g.st.spawn(g, &deferred{fn: cl}, pos)
}

type deadlock struct{ what string }

func (st *State) describeBlocked() string {
	s := ""
	for _, g := range st.gs {
		if !g.dead && g.blocked != "" {
			s += fmt.Sprintf("[g%d %s: %s] ", g.id, g.name, g.blocked)
		}
	}
	return s
}

// schedPoint is a potential preemption before a visible operation.
func (st *State) schedPoint(g *G, why string) {
	if !st.explore || st.budget <= 0 || len(st.runq) == 0 || g.depth < 0 {
		return
	}
	k := st.choice("sched", 1+len(st.runq))
	if k == 0 {
		return
	}
	st.budget--
	n := st.runq[k-1]
	st.runq = append(st.runq[:k-1:k-1], st.runq[k:]...)
	st.runq = append(st.runq, g)
	st.traceSched(n)
	st.curG = n
	n.wake <- struct{}{}
	st.wait(g)
}

// yield lets every other runnable goroutine go first (deterministic).
func (st *State) yield(g *G) {
	if len(st.runq) == 0 {
		return
	}
	st.runq = append(st.runq, g)
	st.next(g)
}

// block parks g until another goroutine readies it.
func (g *G) block(why, pos string) {
	g.blocked = why
	if pos != "" {
		g.blocked += " at " + pos
	}
	g.st.next(g)
	g.blocked = ""
}

func (st *State) ready(g *G) {
	g.blocked = ""
	st.runq = append(st.runq, g)
}

// settle runs every other goroutine until all are blocked.
func (st *State) settle(g *G) {
	if st.settler != nil {
		unsup("nested settle")
	}
	if len(st.runq) == 0 {
		return
	}
	st.settler = g
	g.blocked = "settle"
	st.next(g)
	g.blocked = ""
	// everything that ran is ordered before what follows
	for _, o := range st.gs {
		g.join(o.vc)
	}
}

func (st *State) killAll() {
	st.killing = true
	for _, g := range st.gs[1:] {
		if !g.dead {
			g.wake <- struct{}{}
		}
	}
	st.wg.Wait()
}

// ---- happens-before

func (g *G) join(vc []uint32) {
	for len(g.vc) < len(vc) {
		g.vc = append(g.vc, 0)
	}
	for i, x := range vc {
		if x > g.vc[i] {
			g.vc[i] = x
		}
	}
}

func (g *G) tick() { g.vc[g.id]++ }

func (g *G) snapshot() []uint32 { return append([]uint32(nil), g.vc...) }

func joinVC(a, b []uint32) []uint32 {
	r := append([]uint32(nil), a...)
	for len(r) < len(b) {
		r = append(r, 0)
	}
	for i, x := range b {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}

type shKey struct {
	o   interface{}
	off int
}

type shAcc struct {
	g      int
	clk    uint32
	atomic bool
	pos    string
}

type shadow struct {
	w     shAcc
	hasW  bool
	reads []shAcc
}

func (g *G) ordered(a shAcc) bool {
	return a.g == g.id || (a.g < len(g.vc) && a.clk <= g.vc[a.g])
}

func (st *State) access(fr *frame, o *Obj, off int, write bool, pos string) {
	if !st.race || o == nil {
		return
	}
	st.raceAccess(fr, shKey{o, off}, write, false, pos)
}

func (st *State) accessMap(fr *frame, m *MapV, write bool, pos string) {
	if !st.race || m == nil {
		return
	}
	st.raceAccess(fr, shKey{m, 0}, write, false, pos)
}

func (st *State) accessRange(fr *frame, s Slice, en int, write bool, pos string) {
	if !st.race || s.o == nil {
		return
	}
	for i := 0; i < s.len*en; i++ {
		st.raceAccess(fr, shKey{s.o, s.off + i}, write, false, pos)
	}
}

func (st *State) raceAccess(fr *frame, k shKey, write, atomic bool, pos string) {
	if fr == nil || fr.fn.harness {
		return
	}
	g := fr.g
	sh := st.shadow[k]
	if sh == nil {
		sh = &shadow{}
		st.shadow[k] = sh
	}
	report := func(a shAcc, kind string) {
		if st.races == nil {
			st.races = map[string]string{}
		}
		x := a.pos + " / " + pos
		if pos < a.pos {
			x = pos + " / " + a.pos
		}
		if _, ok := st.races[x]; !ok {
			st.races[x] = fmt.Sprintf("data race (%s) between %s (g%d %s) and %s (g%d %s)", kind, a.pos, a.g, st.gs[a.g].name, pos, g.id, g.name)
		}
	}
	if sh.hasW && !g.ordered(sh.w) && !(atomic && sh.w.atomic) {
		kind := "write-read"
		if write {
			kind = "write-write"
		}
		report(sh.w, kind)
	}
	me := shAcc{g.id, g.vc[g.id], atomic, pos}
	if write {
		for _, a := range sh.reads {
			if !g.ordered(a) && !(atomic && a.atomic) {
				report(a, "read-write")
			}
		}
		sh.w, sh.hasW = me, true
		sh.reads = sh.reads[:0]
		return
	}
	for i := range sh.reads {
		if sh.reads[i].g == g.id {
			sh.reads[i] = me
			return
		}
	}
	sh.reads = append(sh.reads, me)
}

// ---- channels

type waiter struct {
	g    *G
	val  Value // value to send
	ch   *ChanV
	idx  int   // select case index
	done *bool // shared by the cases of one select
	vc   []uint32
}

type ChanV struct {
	id     int
	cap    int
	buf    []Value
	bufvc  [][]uint32
	closed bool
	closVC []uint32
	recvq  []*waiter
	sendq  []*waiter
	recvVC [][]uint32 // clocks of receives (for buffered capacity edges), latest only
	name   string
}

func (st *State) newChan(n int, pos string) *ChanV {
	if n < 0 {
		rtPanic(pos, "makechan: size out of range")
	}
	st.nextID++
	return &ChanV{id: st.nextID, cap: n}
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.done == nil || !*w.done {
			if w.done != nil {
				*w.done = true
			}
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if w.done == nil || !*w.done {
			return true
		}
	}
	return false
}

func (c *ChanV) canSend() bool {
	return c != nil && (c.closed || hasWaiter(c.recvq) || len(c.buf) < c.cap)
}
func (c *ChanV) canRecv() bool { return c != nil && (len(c.buf) > 0 || hasWaiter(c.sendq) || c.closed) }

// doSend performs a send known not to block.
func (g *G) doSend(c *ChanV, v Value, pos string) {
	if c.closed {
		panic(&goPanic{val: Iface{rtypeOf(strType), "send on closed channel"}, pos: pos, rt: true})
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.g.xval, w.g.xok, w.g.xsel = v, true, w.idx
		w.g.join(g.vc)
		g.join(w.vc)
		g.tick()
		w.g.tick()
		g.st.ready(w.g)
		return
	}
	c.buf = append(c.buf, v)
	c.bufvc = append(c.bufvc, g.snapshot())
	if len(c.recvVC) > 0 {
		g.join(c.recvVC[0])
		c.recvVC = c.recvVC[1:]
	}
	g.tick()
}

func (g *G) doRecv(c *ChanV) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		g.join(c.bufvc[0])
		c.buf, c.bufvc = c.buf[1:], c.bufvc[1:]
		c.recvVC = append(c.recvVC, g.snapshot())
		g.tick()
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			c.bufvc = append(c.bufvc, w.vc)
			w.g.xok, w.g.xsel = true, w.idx
			w.g.join(c.recvVC[0])
			c.recvVC = c.recvVC[1:]
			g.st.ready(w.g)
		}
		return v, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		w.g.xok, w.g.xsel = true, w.idx
		g.join(w.vc)
		w.g.join(g.vc)
		g.tick()
		w.g.tick()
		g.st.ready(w.g)
		return w.val, true
	}
	// closed
	g.join(c.closVC)
	return nil, false
}

func (g *G) chanSend(c *ChanV, v Value, pos string) {
	g.st.schedPoint(g, "send")
	if c == nil {
		g.block("send on nil channel", pos)
		return
	}
	if c.canSend() {
		g.doSend(c, v, pos)
		return
	}
	w := &waiter{g: g, val: v, ch: c, vc: g.snapshot()}
	g.tick()
	c.sendq = append(c.sendq, w)
	g.xok = false
	g.block("chan send", pos)
	if !g.xok {
		panic(&goPanic{val: Iface{rtypeOf(strType), "send on closed channel"}, pos: pos, rt: true})
	}
}

func (g *G) chanRecv(c *ChanV, pos string) (Value, bool) {
	g.st.schedPoint(g, "recv")
	if c == nil {
		g.block("receive from nil channel", pos)
		return nil, false
	}
	if c.canRecv() {
		return g.doRecv(c)
	}
	c.recvq = append(c.recvq, &waiter{g: g, ch: c, vc: g.snapshot()})
	g.tick()
	g.block("chan receive", pos)
	return g.xval, g.xok
}

func (g *G) chanClose(c *ChanV, pos string) {
	g.st.schedPoint(g, "close")
	if c == nil {
		rtPanic(pos, "close of nil channel")
	}
	if c.closed {
		rtPanic(pos, "close of closed channel")
	}
	c.closed = true
	c.closVC = g.snapshot()
	g.tick()
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.g.xval, w.g.xok, w.g.xsel = nil, false, w.idx
		w.g.join(c.closVC)
		g.st.ready(w.g)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.g.xok, w.g.xsel = false, w.idx
		g.st.ready(w.g)
	}
}

func (c *compiler) selectInstr(in *ssa.Select, pos string) func(fr *frame) {
	type sc struct {
		send bool
		ch   opnd
		val  opnd
		zero Value
	}
	var cases []sc
	for _, s := range in.States {
		x := sc{send: s.Send != nil, ch: c.op(s.Chan)}
		if s.Send != nil {
			x.val = c.op(s.Send)
		} else {
			x.zero = layoutOf(chanElem(s.Chan.Type())).zero()
		}
		cases = append(cases, x)
	}
	d := c.reg(in)
	blocking := in.Blocking
	return func(fr *frame) {
		g := fr.g
		g.st.schedPoint(g, "select")
		chs := make([]*ChanV, len(cases))
		vals := make([]Value, len(cases))
		var rdy []int
		for i, s := range cases {
			chs[i] = s.ch.get(fr).(*ChanV)
			if s.send {
				vals[i] = s.val.get(fr)
				if chs[i].canSend() {
					rdy = append(rdy, i)
				}
			} else if chs[i].canRecv() {
				rdy = append(rdy, i)
			}
		}
		finish := func(idx int, v Value, ok bool) {
			t := Tuple{uint64(int64(idx)), ok}
			for i, s := range cases {
				if s.send {
					continue
				}
				if i == idx && ok {
					t = append(t, v)
				} else {
					t = append(t, s.zero)
				}
			}
			fr.regs[d] = t
		}
		if len(rdy) > 0 {
			k := rdy[0]
			if len(rdy) > 1 {
				k = rdy[g.st.choice("select", len(rdy))]
			}
			if cases[k].send {
				g.doSend(chs[k], vals[k], pos)
				finish(k, nil, false)
			} else {
				v, ok := g.doRecv(chs[k])
				finish(k, v, ok)
			}
			return
		}
		if !blocking {
			finish(-1, nil, false)
			return
		}
		done := false
		vc := g.snapshot()
		g.tick()
		for i, s := range cases {
			if chs[i] == nil {
				continue
			}
			w := &waiter{g: g, val: vals[i], ch: chs[i], idx: i, done: &done, vc: vc}
			if s.send {
				chs[i].sendq = append(chs[i].sendq, w)
			} else {
				chs[i].recvq = append(chs[i].recvq, w)
			}
		}
		g.block("select", pos)
		k := g.xsel
		if cases[k].send {
			if !g.xok {
				panic(&goPanic{val: Iface{rtypeOf(strType), "send on closed channel"}, pos: pos, rt: true})
			}
			finish(k, nil, false)
		} else {
			finish(k, g.xval, g.xok)
		}
	}
}

// ---- mutexes and wait groups

type mutexState struct {
	writer  *G
	readers int
	waitq   []*mwait
	vc      []uint32 // released by writers
	rvc     []uint32 // released by readers
}

type mwait struct {
	g     *G
	write bool
}

func (st *State) mutex(p Ptr) *mutexState {
	m := st.mutexes[p]
	if m == nil {
		m = &mutexState{}
		st.mutexes[p] = m
	}
	return m
}

func (g *G) lock(p Ptr, write bool, pos string) {
	if p.o == nil {
		nilPanic(pos)
	}
	g.st.schedPoint(g, "lock")
	m := g.st.mutex(p)
	free := m.writer == nil && (m.readers == 0 || !write)
	if free && !write {
		for _, w := range m.waitq { // a waiting writer blocks new readers
			if w.write {
				free = false
			}
		}
	}
	if !free {
		m.waitq = append(m.waitq, &mwait{g, write})
		if write {
			g.block("mutex lock", pos)
		} else {
			g.block("rwmutex rlock", pos)
		}
		// ownership was transferred by unlock
	} else if write {
		m.writer = g
	} else {
		m.readers++
	}
	g.join(m.vc)
	if write {
		g.join(m.rvc)
	}
}

func (g *G) tryLock(p Ptr, write bool) bool {
	g.st.schedPoint(g, "trylock")
	m := g.st.mutex(p)
	if m.writer != nil || len(m.waitq) > 0 || (write && m.readers > 0) {
		return false
	}
	if write {
		m.writer = g
		g.join(m.rvc)
	} else {
		m.readers++
	}
	g.join(m.vc)
	return true
}

func (g *G) unlock(p Ptr, write bool, pos string) {
	if p.o == nil {
		nilPanic(pos)
	}
	m := g.st.mutex(p)
	if write {
		if m.writer == nil {
			panic(&goPanic{val: Iface{rtypeOf(strType), "fatal error: sync: unlock of unlocked mutex"}, pos: pos, rt: true})
		}
		m.writer = nil
		m.vc = joinVC(m.vc, g.vc)
	} else {
		if m.readers == 0 {
			panic(&goPanic{val: Iface{rtypeOf(strType), "fatal error: sync: RUnlock of unlocked RWMutex"}, pos: pos, rt: true})
		}
		m.readers--
		m.rvc = joinVC(m.rvc, g.vc)
	}
	g.tick()
	// grant
	for len(m.waitq) > 0 {
		w := m.waitq[0]
		if w.write {
			if m.writer != nil || m.readers > 0 {
				break
			}
			m.writer = w.g
			m.waitq = m.waitq[1:]
			g.st.ready(w.g)
			break
		}
		if m.writer != nil {
			break
		}
		m.readers++
		m.waitq = m.waitq[1:]
		g.st.ready(w.g)
	}
	g.st.schedPoint(g, "unlock")
}

type wgState struct {
	use   *Obj
	n     int
	waitq []*G
	vc    []uint32
}

// wgAccess treats the first Add and the Waits of a WaitGroup as accesses: an Add
// which is not ordered before a Wait may not be waited for.
func (g *G) wgAccess(fr *frame, w *wgState, wait bool, pos string) {
	if !g.st.race {
		return
	}
	if w.use == nil {
		w.use = &Obj{}
	}
	g.st.raceAccess(fr, shKey{w.use, 0}, wait, wait, pos+" (WaitGroup)")
}

func (g *G) wgAdd(fr *frame, p Ptr, d int, pos string) {
	g.st.schedPoint(g, "wg")
	w := g.st.wgs[p]
	if w == nil {
		w = &wgState{}
		g.st.wgs[p] = w
	}
	if w.n == 0 && d > 0 {
		g.wgAccess(fr, w, false, pos)
	}
	w.n += d
	if w.n < 0 {
		panic(&goPanic{val: Iface{rtypeOf(strType), "sync: negative WaitGroup counter"}, pos: pos, rt: true})
	}
	w.vc = joinVC(w.vc, g.vc)
	g.tick()
	if w.n == 0 {
		for _, x := range w.waitq {
			x.join(w.vc)
			g.st.ready(x)
		}
		w.waitq = nil
	}
}

func (g *G) wgWait(fr *frame, p Ptr, pos string) {
	g.st.schedPoint(g, "wgwait")
	w := g.st.wgs[p]
	if w == nil {
		w = &wgState{}
		g.st.wgs[p] = w
	}
	if w.n == 0 {
		g.join(w.vc)
		g.wgAccess(fr, w, true, pos)
		return
	}
	g.wgAccess(fr, w, true, pos)
	w.waitq = append(w.waitq, g)
	g.block("waitgroup", pos)
}

type condState struct{ waitq []*G }

// atomic accesses: acquire+release on the location
func (g *G) atomicOp(fr *frame, p Ptr, write bool, pos string) {
	if p.o == nil {
		nilPanic(pos)
	}
	g.st.schedPoint(g, "atomic")
	if g.st.race {
		g.st.raceAccess(fr, shKey{p.o, p.off}, write, true, pos)
	}
	vc := g.st.atomics[p]
	g.join(vc)
	if write {
		g.st.atomics[p] = joinVC(vc, g.vc)
		g.tick()
	}
}
