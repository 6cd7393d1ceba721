package notify

// HC08: a Watch refused by the OS (or failing while directories are read)
// leaves every registration as it was.
func HC08() {
	z := znew(2, 8)
	ps := z.universe(vParam("paths", 4))
	z.history(vParam("k", 2), 2, ps, nil)
	// the failing call
	z.w.faulty = true
	c := vChoose("failchan", 2)
	p := ps[vChoose("failpath", len(ps))]
	e := zset("failset")
	before := map[string]Event{}
	for q, x := range z.w.m {
		before[q] = x
	}
	vTrace("Watch with fault", p, c, uint32(e))
	err := z.watch(c, p, false, e)
	z.w.faulty = false
	vAssert((err != nil) == z.w.failed, "C08: Watch does not report the refusal of the OS")
	if err == nil {
		vEnd()
	}
	vReach("failed")
	// registrations as before: coverage, delivery
	for q, x := range z.w.m {
		vAssert(x == before[q], "C08: a failed Watch changed an OS watch")
	}
	vAssert(len(z.w.m) == len(before), "C08: a failed Watch changed the watch list")
	kind := zkind("ev")
	for _, q := range []string{p, p + "/g", zparent(p), "/w/r/x/y/g"} {
		ev := &zev{p: q, e: kind}
		z.emit(ev)
		z.checkDelivery(ev, true, true)
	}
	if vChoose("then", 2) == 0 {
		// a later call works as if the failed one had not happened
		z.w.strict = true
		n := z.w.n
		e2 := zset("retryset")
		vTrace("Watch again", p, c, uint32(e2))
		err = z.watch(c, p, false, e2)
		vAssert(err == nil, "C08: Watch fails after an earlier failure")
		z.reg(c, p, e2, false)
		vAssert(vOr(z.w.n > n, z.w.m[p]&e2 == e2), "C08: the retried Watch is not backed by the OS")
		z.checkCoverage(true, false)
		for _, q := range []string{p, p + "/g"} {
			ev := &zev{p: q, e: kind}
			z.emit(ev)
			z.checkDelivery(ev, true, true)
		}
		vReach("retried")
	}
	for i := range z.ch {
		if z.ch[i] != nil {
			z.stop(i)
		}
	}
	vAssert(len(z.w.m) == 0, "C08: an OS watch remains after every channel was stopped")
}

// HC08path: paths that cannot be watched.
func HC08path() {
	z := znew(2, 8)
	ps := z.universe(2)
	z.history(vParam("k", 1), 1, ps, nil)
	n := z.w.n
	bad := []string{"/w/r/missing", "/w/r/missing/...", "/w/missing/x", "/w/r/dangling", "/w/r/loop/...", "/w/r/f/x"}
	zfs.add("/w/r/dangling", zLink).target = "/w/nowhere"
	zfs.add("/w/r/loop", zLink).target = "/w/r/loop"
	p := bad[vChoose("bad", len(bad))]
	e := zset("badset")
	vTrace("Watch", p)
	err := z.t.Watch(p, z.ch[0], e)
	vAssert(err != nil, "C08: Watch of an unusable path succeeds")
	vAssert(z.w.n == n, "C08: Watch of an unusable path reached the OS")
	kind := zkind("ev")
	for _, q := range zevpaths {
		ev := &zev{p: q, e: kind}
		z.emit(ev)
		z.checkDelivery(ev, true, true)
	}
	vReach("failed")
	pan := func() (r interface{}) {
		defer func() { r = recover() }()
		z.t.Watch("/w/r", nil, e)
		return nil
	}()
	vAssert(pan != nil, "C08: Watch with a nil channel does not panic")
	err = z.watch(1, "/w/r", false, e)
	vAssert(err == nil, "C08: Watch fails after an earlier failure")
	z.reg(1, "/w/r", e, false)
	z.checkCoverage(true, false)
	ev := &zev{p: "/w/r/g", e: kind}
	z.emit(ev)
	z.checkDelivery(ev, true, true)
}

// HC08rec: a recursive Watch that fails while walking the directories.
func HC08rec() {
	z := znew(2, 8)
	ps := z.universe(vParam("paths", 4))
	z.history(vParam("k", 1), 2, ps, nil)
	zfs.fail = true
	c := vChoose("failchan", 2)
	p := ps[vChoose("failpath", len(ps))]
	e := zset("failset")
	vTrace("recursive Watch with fault", p, c, uint32(e))
	err := z.watch(c, p, true, e)
	zfs.fail = false
	if err == nil {
		vEnd()
	}
	vReach("failed")
	z.checkCoverage(true, true)
	kind := zkind("ev")
	for _, q := range zevpaths {
		ev := &zev{p: q, e: kind}
		z.emit(ev)
		z.checkDelivery(ev, true, true)
	}
	if vChoose("then", 2) == 0 && p != "/w/r/f" {
		err = z.watch(c, p, true, e)
		vAssert(err == nil, "C08: Watch fails after an earlier failure")
		z.reg(c, p, e, true)
		z.checkCoverage(true, true)
	}
	for i := range z.ch {
		if z.ch[i] != nil {
			z.stop(i)
		}
	}
	vAssert(len(z.w.m) == 0, "C08: an OS watch remains after every channel was stopped")
}
