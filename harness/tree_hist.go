package notify

// HTreeDelivery: K API calls on a fixed layout, then one event of arbitrary
// kind on one of several paths. (C01, C02)
func zTreeDelivery(c01, c02 bool) {
	z := znew(2, 8)
	ps := z.universe(vParam("paths", 4))
	vMapOrder(vParam("maporder", 0))
	z.history(vParam("k", 2), vParam("nch", 2), ps, nil)
	kind := zkind("ev")
	for _, p := range zevpaths {
		ev := &zev{p: p, e: kind}
		vTrace("event", ev.p, uint32(ev.e))
		z.emit(ev)
		z.checkDelivery(ev, c01, c02)
		vAssert(vBlocked() == 0, "C01: dispatch is stuck")
	}
	vReach("dispatched")
}

func HC01() { zTreeDelivery(true, false) }
func HC02() { zTreeDelivery(false, true) }

// HC04/HC05/HC06: K API calls; coverage is checked after every call.
func zTreeCoverage(c04, c05, c06 bool) {
	z := znew(2, 8)
	z.w.strict = c06
	ps := z.universe(vParam("paths", 4))
	vMapOrder(vParam("maporder", 0))
	z.history(vParam("k", 3), vParam("nch", 2), ps, nil)
	z.checkCoverage(c04, c05)
	vReach("end")
	if c05 {
		for c := range z.ch {
			if z.ch[c] != nil {
				z.stop(c)
			}
		}
		vAssert(len(z.w.m) == 0, "C05: an OS watch remains after every channel was stopped")
	}
}

func HC04() { zTreeCoverage(true, false, false) }
func HC05() { zTreeCoverage(false, true, false) }
func HC06() { zTreeCoverage(false, false, true) }

// HC02path: events on paths of arbitrary bytes.
func HC02path() {
	z := znew(2, 8)
	z.universe(4)
	e0, e1 := zset("e0"), zset("e1")
	p0, p1 := "/w/r", "/w/r/x"
	rec0, rec1 := vChoose("rec0", 2) == 1, vChoose("rec1", 2) == 1
	must(z.watch(0, p0, rec0, e0))
	z.reg(0, p0, e0, rec0)
	must(z.watch(1, p1, rec1, e1))
	z.reg(1, p1, e1, rec1)
	n := vParam("n", 7)
	m := 1 + vChoose("len", n)
	s := vStr("path", m)
	// clean paths only
	for i := 0; i < m; i++ {
		vAssume(s[i] != 0)
		if i == 0 || i == m-1 {
			vAssume(s[i] != '/')
		} else {
			vAssume(!(s[i] == '/' && s[i-1] == '/'))
		}
	}
	ev := &zev{p: "/w/" + s, e: zkind("ev")}
	vTrace("event", ev.p, uint32(ev.e))
	z.emit(ev)
	z.checkDelivery(ev, true, true)
	vReach("dispatched")
}

// HC03seq: K calls, then Stop of one of the channels: it is silent from then
// on, and the others are not affected.
func HC03seq() {
	z := znew(2, 8)
	ps := z.universe(vParam("paths", 4))
	z.history(vParam("k", 2), 2, ps, nil)
	c := vChoose("laststop", 2)
	if len(z.regs[c]) == 0 {
		vEnd()
	}
	z.stop(c)
	vTrace("Stop", c)
	kind := zkind("ev")
	for _, p := range zevpaths {
		ev := &zev{p: p, e: kind}
		vTrace("event", ev.p, uint32(ev.e))
		z.emit(ev)
		vAssert(len(z.ch[c]) == 0, "C03: an event was delivered after Stop returned")
		for o := range z.ch {
			if z.ch[o] == nil {
				continue
			}
			want, _ := z.wants(o, p, kind)
			vAssert((len(z.ch[o]) > 0) == want, "C03: Stop of one channel disturbed the delivery to another")
			for len(z.ch[o]) > 0 {
				_, ok := <-z.ch[o]
				vAssert(ok, "C03: Stop closed a channel")
			}
		}
	}
	select {
	case _, ok := <-z.ch[c]:
		vAssert(ok, "C03: Stop closed the channel")
	default:
	}
	vReach("dispatched")
}
