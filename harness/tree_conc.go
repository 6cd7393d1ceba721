package notify

// Concurrent use of a tree: schedules are explored from vExplore on.

// zcspy is a recording watcher that may refuse to remove watches, and lets
// other goroutines run in the middle of a request.
type zcspy struct {
	zspy
}

func (w *zcspy) Watch(p string, e Event) error {
	vYield()
	return w.zspy.Watch(p, e)
}

func (w *zcspy) Rewatch(p string, old, e Event) error {
	vYield()
	if w.stuck {
		return errInjected
	}
	return w.zspy.Rewatch(p, old, e)
}

func (w *zcspy) Unwatch(p string) error {
	vYield()
	if w.stuck {
		return errInjected
	}
	return w.zspy.Unwatch(p)
}

func zcnew(nch, buf, inbuf, recbuf int) (*zworld, *zcspy) {
	w := &zcspy{zspy: zspy{m: map[string]Event{}}}
	z := &zworld{w: &w.zspy}
	z.in = make(chan EventInfo, inbuf)
	if vParam("native", 0) == 1 {
		z.rw = &zrspy{zspy: z.w, r: map[string]bool{}}
		z.t = newRecursiveTree(z.rw, z.in)
	} else {
		z.t = newNonrecursiveTree(w, z.in, make(chan EventInfo, recbuf))
	}
	for i := 0; i < nch; i++ {
		z.ch[i] = make(chan EventInfo, buf)
	}
	vSettle()
	return z, w
}

func zgo(done chan bool, f func()) {
	go func() {
		f()
		done <- true
	}()
}

// zearly lets the events which have been sent be dispatched, up to what the
// schedule puts off.
func zearly() {
	vYield()
	vYield()
	vYield()
}

// HC03: Stop concurrent with events that are being dispatched.
func HC03() {
	z, w := zcnew(2, 8, 4, 4)
	z.universe(4)
	if vChoose("small", 2) == 1 {
		z.ch[0] = make(chan EventInfo, 1)
	}
	paths := []string{"/w/r", "/w/r/x"}
	rec0 := vChoose("rec0", 2) == 1
	e0, e1 := zset("eset0"), zset("eset1")
	must(z.watch(0, "/w/r", rec0, e0))
	z.reg(0, "/w/r", e0, rec0)
	if vChoose("twice", 2) == 1 {
		must(z.watch(0, "/w/r/x", false, e0))
		z.reg(0, "/w/r/x", e0, false)
	}
	p1 := paths[vChoose("path1", 2)]
	rec1 := vChoose("rec1", 2) == 1
	must(z.watch(1, p1, rec1, e1))
	z.reg(1, p1, e1, rec1)
	vTrace("Watch", rec0, uint32(e0), p1, rec1, uint32(e1))
	w.stuck = vChoose("stuck", 2) == 1
	done := make(chan bool, 4)
	kind := zkind("ev")
	files := []string{"/w/r/g", "/w/r/x/g"}
	vRace(true)
	vExplore(vParam("sched", 3))
	n := vParam("events", 2)
	zgo(done, func() {
		for i := 0; i < n; i++ {
			ev := &zev{p: files[i], e: kind, dir: false, sys: new(int)}
			z.in <- ev
		}
	})
	if vParam("early", 0) == 1 {
		zearly()
	}
	z.t.Stop(z.ch[0])
	// whatever was delivered so far is all there is
	got := len(z.ch[0])
	vYield()
	vYield()
	vSettle()
	<-done
	vExplore(0)
	vSettle()
	vAssert(len(z.ch[0]) == got, "C03: an event was delivered after Stop returned")
	z.drain(0)
	vSettle()
	vAssert(len(z.ch[0]) == 0, "C03: an event was delivered after Stop returned")
	// the other channel has all of its events, exactly
	exp := 0
	for _, f := range files[:n] {
		want, _ := z.wants(1, f, kind)
		if want {
			exp++
		}
	}
	vAssert(z.drain(1) == exp, "C03: Stop of one channel disturbed the delivery to another")
	z.regs[0] = nil
	// later events neither
	for _, f := range []string{"/w/r/g", "/w/r/x/g", "/w/r", "/w/r/x", "/w/r/x/y/g"} {
		ev := &zev{p: f, e: kind, sys: new(int)}
		z.in <- ev
		vSettle()
		vAssert(len(z.ch[0]) == 0, "C03: an event was delivered after Stop returned")
		want, _ := z.wants(1, f, kind)
		vAssert((len(z.ch[1]) > 0) == want, "C03: Stop of one channel disturbed the delivery to another")
		z.drain(1)
	}
	select {
	case _, ok := <-z.ch[0]:
		vAssert(ok, "C03: Stop closed the channel")
	default:
	}
	vReach("stopped")
}

// HC09: one channel never reads.
func HC09() {
	z, _ := zcnew(2, 4, vChoose("inbuf", 2), vChoose("recbuf", 2))
	z.universe(4)
	z.ch[0] = make(chan EventInfo, vChoose("buf0", 2)) // nobody reads
	e0, e1 := zset("eset0"), zset("eset1")
	rec0, rec1 := vChoose("rec0", 2) == 1, vChoose("rec1", 2) == 1
	must(z.watch(0, "/w/r", rec0, e0))
	z.reg(0, "/w/r", e0, rec0)
	must(z.watch(1, "/w/r", rec1, e1))
	z.reg(1, "/w/r", e1, rec1)
	vTrace("Watch", rec0, uint32(e0), rec1, uint32(e1))
	kind := zkind("ev")
	evs := []zev{{p: "/w/r/n", e: Create, dir: true}, {p: "/w/r/o", e: Create, dir: true}, {p: "/w/r/g", e: kind}}
	done := make(chan bool, 8)
	z.mk("/w/r/n", zDir)
	z.mk("/w/r/n/m", zDir)
	z.mk("/w/r/o", zDir)
	vRace(true)
	vExplore(vParam("sched", 2))
	zgo(done, func() {
		for _, x := range evs {
			z.in <- &zev{p: x.p, e: x.e, dir: x.dir, sys: new(int)}
		}
	})
	vSettle()
	vAssert(len(done) == 1, "C09: reporting an event is stuck behind a slow receiver")
	<-done
	vExplore(0)
	vAssert(vBlocked() == 0, "C09: a dispatch is stuck")
	exp := 0
	for _, x := range evs {
		want, _ := z.wants(1, x.p, x.e)
		if want {
			exp++
		}
	}
	vAssert(z.drain(1) == exp, "C09: a ready receiver lost or got twice an event because another one is full")
	vAssert(len(z.ch[0]) <= cap(z.ch[0]), "C09: impossible")
	z.refreshDirs()
	z.checkCoverage(true, true)
	vRace(false)
	// later calls go through
	zgo(done, func() { must(z.watch(1, "/w/r/x", false, e0)) })
	vSettle()
	vAssert(len(done) == 1, "C09: Watch is stuck")
	<-done
	z.reg(1, "/w/r/x", e0, false)
	z.in <- &zev{p: "/w/r/x/g", e: kind, sys: new(int)}
	vSettle()
	want, _ := z.wants(1, "/w/r/x/g", kind)
	vAssert((z.drain(1) > 0) == want, "C09: delivery stopped")
	// once the receiver makes room it is served again
	z.drain(0)
	zgo(done, func() { z.stop(0) })
	vSettle()
	vAssert(len(done) == 1, "C09: Stop is stuck")
	<-done
	z.in <- &zev{p: "/w/r/n/m/g", e: kind, sys: new(int)}
	vSettle()
	want, _ = z.wants(1, "/w/r/n/m/g", kind)
	vAssert((z.drain(1) > 0) == want, "C09: delivery stopped")
	vAssert(vBlocked() == 0, "C09: a dispatch is stuck")
	vReach("slow")
}

// HC09recv: a receiver waiting on an unbuffered channel is served even though
// another one is not.
func HC09recv() {
	z, _ := zcnew(2, 0, 1, 1)
	z.universe(4)
	e0, e1 := zset("eset0"), zset("eset1")
	rec := vChoose("rec", 2) == 1
	must(z.watch(0, "/w/r", rec, e0))
	must(z.watch(1, "/w/r", rec, e1))
	z.reg(1, "/w/r", e1, rec)
	n := 0
	go func() {
		for range z.ch[1] {
			n++
		}
	}()
	vSettle()
	kind := zkind("ev")
	exp := 0
	for i := 0; i < 3; i++ {
		z.in <- &zev{p: "/w/r/g", e: kind, sys: new(int)}
		vSettle()
		want, _ := z.wants(1, "/w/r/g", kind)
		if want {
			exp++
		}
		vAssert(n == exp, "C09: a ready receiver lost or got twice an event because another one is full")
	}
	vAssert(vBlocked() == 0, "C09: a dispatch is stuck")
	vReach("received")
}

type zcall struct {
	op, c int
	p     string
	rec   bool
	e     Event
}

// zscen are the pairs of calls explored by default.
var zscen = [][2]zcall{
	{{0, 1, "/w/r/x", false, 0}, {1, 0, "", false, 0}}, // Watch next to Stop of another channel
	{{0, 1, "/w/r", true, 0}, {1, 0, "", false, 0}},
	{{0, 0, "/w/r/x", true, 0}, {0, 1, "/w/r", true, 0}},
	{{0, 0, "/w/r", true, 0}, {1, 0, "", false, 0}},
	{{0, 0, "/w/r/x", false, 0}, {0, 1, "/w/r/x", false, 0}}, // two watches
	{{0, 0, "/w/r/x", false, 0}, {1, 0, "", false, 0}},       // Watch next to Stop of the same channel
	{{0, 1, "/w/r", false, 0}, {0, 1, "/w/r", true, 0}},
	{{1, 0, "", false, 0}, {1, 0, "", false, 0}}, // two stops
}

// HC10: two API calls and an event at the same time, after a sequential
// prefix.
func HC10() {
	z, _ := zcnew(2, 16, 2, 2)
	z.universe(4)
	z.w.strict = true
	paths := []string{"/w/r", "/w/r/x"}
	e0 := zset("eset0")
	rec0 := vChoose("rec0", 2) == 1
	p0 := paths[vChoose("path0", 2)]
	must(z.watch(0, p0, rec0, e0))
	z.reg(0, p0, e0, rec0)
	vTrace("Watch", 0, p0, rec0, uint32(e0))
	var calls [2]zcall
	if vParam("all", 0) == 1 {
		for i := range calls {
			k := &calls[i]
			k.op = vChoose("op", 2)
			k.c = vChoose("chan", 2)
			if k.op == 0 {
				k.p = paths[vChoose("path", 2)]
				k.rec = vChoose("rec", 2) == 1
			}
		}
	} else {
		calls = zscen[vChoose("scenario", len(zscen)>>uint(vParam("scen", 0)))]
	}
	for i := range calls {
		k := &calls[i]
		if k.op == 0 {
			k.e = zset("eset")
			vTrace("|| Watch", k.c, k.p, k.rec, uint32(k.e))
		} else {
			vTrace("|| Stop", k.c)
		}
	}
	if calls[0].op > calls[1].op || calls[0].op == calls[1].op && calls[0].c > calls[1].c {
		vEnd() // the calls are interchangeable
	}
	mk := vParam("onlymk", 0) == 1 || vChoose("mkdir", vParam("mkdir", 2)) == 1
	kind := zkind("ev")
	evp := "/w/r/x/g"
	if !mk {
		evp = []string{evp, "/w/r/x"}[vChoose("evpath", vParam("evpaths", 2))]
	}
	done := make(chan bool, 4)
	sched := vParam("sched", 2)
	if vChoose("newest", vParam("newest", 2)) == 1 {
		vNewest(true)
		sched = vParam("nsched", sched)
	}
	vRace(true)
	vExplore(sched)
	early := vParam("early", 0) == 1
	if early {
		z.in <- &zev{p: evp, e: kind, sys: new(int)}
		vYield()
		vYield()
	}
	for i := range calls {
		k := calls[i]
		zgo(done, func() {
			if k.op == 0 {
				must(z.watch(k.c, k.p, k.rec, k.e))
			} else {
				z.t.Stop(z.ch[k.c])
			}
		})
	}
	if early {
	} else if mk {
		vYield()
		z.mk("/w/r/x/n", zDir)
		z.w.anew = "/w/r/x/n"
		if vTake(z.w.m["/w/r/x"]&Create != 0) {
			z.in <- &zev{p: "/w/r/x/n", e: Create, dir: true, sys: new(int)}
		}
	} else {
		z.in <- &zev{p: evp, e: kind, sys: new(int)}
	}
	<-done
	<-done
	vSettle()
	vExplore(0)
	vNewest(false)
	vSettle()
	vRace(false)
	vAssert(vBlocked() == 0, "C10: stuck")
	z.refreshDirs()
	// what may have been seen during the calls: the union
	if !mk {
		full := *z
		for c := range z.regs {
			full.regs[c] = append([]zreg(nil), z.regs[c]...)
		}
		for _, k := range calls {
			if k.op == 0 {
				full.reg(k.c, k.p, k.e, k.rec)
			}
		}
		for c := 0; c < 2; c++ {
			any, _ := full.wants(c, evp, kind)
			vAssert(vImplies(len(z.ch[c]) > 0, any), "C10: a channel received an event that neither the state before nor after allows")
		}
		// a channel untouched by the calls sees the event for certain
		for c := 0; c < 2; c++ {
			stopped := false
			for _, k := range calls {
				if k.op == 1 && k.c == c {
					stopped = true
				}
			}
			want, _ := z.wants(c, evp, kind)
			if !stopped {
				vAssert(vImplies(want, len(z.ch[c]) > 0), "C10: an event was lost to a channel listening before and after")
			}
		}
	}
	// final state: one of the two orders
	before := [znchan][]zreg{}
	for c := range z.regs {
		before[c] = append([]zreg(nil), z.regs[c]...)
	}
	got := z.probeAll(kind)
	ok := false
	for order := 0; order < 2; order++ {
		for c := range before {
			z.regs[c] = append([]zreg(nil), before[c]...)
		}
		for i := 0; i < 2; i++ {
			k := calls[(i+order)%2]
			if k.op == 0 {
				z.reg(k.c, k.p, k.e, k.rec)
			} else {
				z.regs[k.c] = nil
			}
		}
		ok = vOr(ok, z.consistent(kind, got))
	}
	vAssert(ok, "C10: the outcome matches no sequential order of the calls")
	z.t.Stop(z.ch[0])
	z.t.Stop(z.ch[1])
	vAssert(len(z.w.m) == 0, "C10: an OS watch remains after every channel was stopped")
	vReach("joined")
}

var zprobes = []string{"/w/r/g", "/w/r/x/g", "/w/r/x/y/g"}

// probeAll records who receives an event of the kind where.
func (z *zworld) probeAll(kind Event) (r [2][3]bool) {
	z.drain(0)
	z.drain(1)
	for i, p := range zprobes {
		z.in <- &zev{p: p, e: kind, sys: new(int)}
		vSettle()
		for c := range r {
			r[c][i] = z.drain(c) > 0
		}
	}
	return
}

// consistent compares watches and deliveries with the reference registrations.
func (z *zworld) consistent(kind Event, got [2][3]bool) bool {
	ok := true
	if z.rw != nil {
		live, spare, nested := z.recCovered()
		ok = vAnd(live, vAnd(spare, nested))
	}
	for _, d := range z.dirs {
		if z.rw != nil {
			break
		}
		lo, may := z.needed(d, true)
		cur, has := z.w.m[d]
		ok = vAnd(ok, cur&lo == lo)
		if has && !may {
			ok = false
		}
	}
	for i, p := range zprobes {
		for c := range got {
			want, _ := z.wants(c, p, kind)
			ok = vAnd(ok, got[c][i] == want)
		}
	}
	return ok
}
