package notify

// The tree for platforms with native recursion, driven with a recording
// watcher.

// HC17: K API calls; the watch list covers every registration.
func HC17() {
	z := znew(vParam("nch", 2), 8)
	rw := z.rw
	rw.strict = vParam("strict", 0) == 1
	ps := z.universe(vParam("paths", 4))
	vMapOrder(vParam("maporder", 0))
	z.history(vParam("k", 3), vParam("nch", 2), ps, nil)
	if !rw.strict {
		z.checkRecCoverage()
	}
	vReach("end")
	for c := range z.ch {
		if z.ch[c] != nil {
			z.stop(c)
		}
	}
	if !rw.strict {
		vAssert(len(rw.m) == 0, "C17: an OS watch remains after every channel was stopped")
	}
}

// HC16: K API calls, then one event of arbitrary kind on each of several paths.
func HC16() {
	z := znew(vParam("nch", 2), 8)
	ps := z.universe(vParam("paths", 4))
	vMapOrder(vParam("maporder", 0))
	z.history(vParam("k", 2), vParam("nch", 2), ps, nil)
	kind := zkind("ev")
	for _, p := range zevpaths {
		ev := &zev{p: p, e: kind}
		vTrace("event", ev.p, uint32(ev.e))
		z.emit(ev)
		z.checkDelivery(ev, true, true)
		vAssert(vBlocked() == 0, "C01: dispatch is stuck")
	}
	vReach("dispatched")
}

// HC08nat: a Watch refused by a natively recursive OS leaves everything as it
// was, and a retry works.
func HC08nat() {
	z := znew(2, 8)
	rw := z.rw
	ps := z.universe(vParam("paths", 4))
	z.history(vParam("k", 2), 2, ps, nil)
	z.w.faulty = true
	c := vChoose("failchan", 2)
	p := ps[vChoose("failpath", len(ps))]
	rec := p != "/w/r/f" && vChoose("failrec", 2) == 1
	e := zset("failset")
	before := map[string]Event{}
	brec := map[string]bool{}
	for q, x := range z.w.m {
		before[q] = x
		brec[q] = rw.r[q]
	}
	vTrace("Watch with fault", p, rec, c, uint32(e))
	err := z.watch(c, p, rec, e)
	z.w.faulty = false
	vAssert((err != nil) == z.w.failed, "C08: Watch does not report the refusal of the OS")
	if err == nil {
		vEnd()
	}
	vReach("failed")
	for q, x := range z.w.m {
		vAssert(x == before[q] && rw.r[q] == brec[q], "C08: a failed Watch changed an OS watch")
	}
	vAssert(len(z.w.m) == len(before), "C08: a failed Watch changed the watch list")
	kind := zkind("ev")
	for _, q := range []string{p, p + "/g", zparent(p), "/w/r/x/y/g"} {
		ev := &zev{p: q, e: kind}
		z.emit(ev)
		z.checkDelivery(ev, true, true)
	}
	z.w.strict = true
	c2 := vChoose("retrychan", 2)
	p2 := ps[vChoose("retrypath", len(ps))]
	e2 := zset("retryset")
	vTrace("Watch again", p2, c2, uint32(e2))
	err = z.watch(c2, p2, false, e2)
	vAssert(err == nil, "C08: Watch fails after an earlier failure")
	z.reg(c2, p2, e2, false)
	z.checkRecCoverage()
	for _, q := range []string{p, p + "/g"} {
		ev := &zev{p: q, e: kind}
		z.emit(ev)
		z.checkDelivery(ev, true, true)
	}
	vReach("retried")
	for i := range z.ch {
		if z.ch[i] != nil {
			z.stop(i)
		}
	}
	vAssert(len(z.w.m) == 0, "C08: an OS watch remains after every channel was stopped")
}
