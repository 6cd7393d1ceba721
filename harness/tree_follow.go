package notify

// Directory creation and removal below recursive watchpoints.

func (z *zworld) exists(p string) bool { return p == "/w" || zfs.find(p) != nil }

func (z *zworld) isRealDir(p string) bool {
	e := zfs.find(p)
	return e != nil && e.kind == zDir
}

func (z *zworld) refreshDirs() {
	z.dirs = z.dirs[:0]
	for _, e := range zfs.ents {
		if e.exists && e.kind == zDir {
			z.dirs = append(z.dirs, e.path)
		}
	}
}

// reports says whether the OS would report an event of kind e on p.
func (z *zworld) reports(p string, e Event) bool {
	return vOr(z.w.m[zparent(p)]&e == e, z.w.m[p]&e == e)
}

func (z *zworld) mk(p string, kind int) {
	if e := zfs.find(p); e != nil {
		return
	}
	zfs.add(p, kind).target = "/w/q"
}

func (z *zworld) rmAll(p string) {
	for _, e := range zfs.ents {
		if e.exists && (e.path == p || zunder(e.path, p)) {
			e.exists = false
		}
	}
}

type zpend struct {
	p   string
	e   Event
	dir bool
}

// HC07: recursive watchpoints, then steps of a changing file system. Each
// change is reported only if the parent directory is watched for it, either
// at once or after the next API call.
func HC07() {
	z := znew(2, 32)
	z.universe(4)
	vMapOrder(vParam("maporder", 0))
	e0 := zset("eset")
	vTrace("Watch rec", 0, uint32(e0))
	root := []string{"/w/r", "/w/r/x"}[vChoose("root", 2)]
	must(z.watch(0, root, true, e0))
	z.reg(0, root, e0, true)
	if k := vChoose("second", vParam("second", 4)); k > 0 {
		p := []string{"/w/r", "/w/r/x", "/w"}[k-1]
		rec := k == 1 && vChoose("secondrec", 2) == 1 || k == 3
		e := zset("eset")
		vTrace("Watch", p, rec, 1, uint32(e))
		must(z.watch(1, p, rec, e))
		z.reg(1, p, e, rec)
	}
	var pend []zpend
	paths := []string{"/w/r/n", "/w/r/x", "/w/r/x/m"}
	steps := vParam("k", 2)
	for i := 0; i < steps; i++ {
		p := paths[vChoose("fspath", len(paths))]
		late := vChoose("late", vParam("late", 2)) == 1
		if z.exists(p) {
			if !z.isRealDir(p) {
				vEnd()
			}
			if !z.covered(p) {
				vEnd() // only directories below recursive watchpoints are followed
			}
			vTrace("rmdir", p, late)
			// The removal is noticed through the parent directory only: the
			// event of the directory itself does not tell it is one.
			if !vTake(z.w.m[zparent(p)]&Remove != 0) {
				vEnd() // see HC07norem
			}
			for q := range z.w.m {
				if zunder(q, p) && vTake(z.w.m[zparent(q)]&Remove != 0) {
					pend = append(pend, zpend{q, Remove, z.isRealDir(q)})
				}
				if (q == p || zunder(q, p)) && vTake(z.w.m[q]&Remove != 0) {
					pend = append(pend, zpend{q, Remove, false})
				}
			}
			pend = append(pend, zpend{p, Remove, true})
			z.rmAll(p)
			n := z.nregs()
			z.dropRegs(p)
			if late { // and made again before the event is dispatched
				if z.nregs() != n {
					vEnd() // watchpoints of the former directory
				}
				z.mk(p, zDir)
				pend = append(pend, zpend{p, Create, true})
			}
		} else {
			if !z.isRealDir(zparent(p)) {
				vEnd()
			}
			kind := []int{zDir, zFile, zLink}[vChoose("kind", vParam("kinds", 3))]
			vTrace("mk", p, kind, late)
			z.mk(p, kind)
			if kind == zDir && vChoose("filled", 2) == 1 {
				z.mk(p+"/a", zDir)
				z.mk(p+"/a/b", zDir)
				z.mk(p+"/c", zFile)
				z.mk(p+"/d", zLink)
			}
			if z.w.m[zparent(p)] != 0 {
				pend = append(pend, zpend{p, Create, kind == zDir})
			}
		}
		if late {
			// a call sneaks in before the event is dispatched
			if z.isRealDir(p) && !z.anyReg(1, p) {
				e := zset("lateset")
				rec := vChoose("laterec", 2) == 1
				vTrace("Watch", p, rec, 1, uint32(e))
				must(z.watch(1, p, rec, e))
				z.reg(1, p, e, rec)
			} else {
				vEnd()
			}
		}
		for _, x := range pend {
			// reported only while requested
			if x.e == Remove || z.reports(x.p, x.e) {
				vTrace("event", x.p, uint32(x.e), x.dir)
				z.emit(&zev{p: x.p, e: x.e, dir: x.dir})
			}
		}
		pend = pend[:0]
		z.refreshDirs()
		z.checkCoverage(true, true)
		for q := range z.w.m {
			vAssert(z.exists(q), "C07: an OS watch remains on a removed directory")
		}
	}
	vReach("followed")
	vAssert(vBlocked() == 0, "C07: stuck")
	if vParam("deliver", 1) == 1 {
		for c := range z.ch {
			for z.ch[c] != nil && len(z.ch[c]) > 0 {
				<-z.ch[c]
			}
		}
		kind := zkind("ev")
		for _, q := range []string{"/w/r/n/g", "/w/r/n/a/b/g", "/w/r/x/m/g"} {
			if z.isRealDir(zparent(q)) {
				ev := &zev{p: q, e: kind}
				z.emit(ev)
				z.checkDelivery(ev, true, true)
			}
		}
	}
	z.stop(0)
	z.stop(1)
	vAssert(len(z.w.m) == 0, "C07: an OS watch remains after every channel was stopped")
}

// dropRegs forgets the watchpoints on removed paths.
func (z *zworld) dropRegs(p string) {
	for c := range z.regs {
		var keep []zreg
		for _, r := range z.regs[c] {
			if r.p != p && !zunder(r.p, p) {
				keep = append(keep, r)
			}
		}
		z.regs[c] = keep
	}
}

func (z *zworld) nregs() int { return len(z.regs[0]) + len(z.regs[1]) }

// covered says whether p is, or lies below, a recursive watchpoint.
func (z *zworld) covered(p string) bool {
	for c := range z.regs {
		for _, r := range z.regs[c] {
			if r.rec && (r.p == p || zunder(p, r.p)) {
				return true
			}
		}
	}
	return false
}

func (z *zworld) anyReg(c int, p string) bool {
	for _, r := range z.regs[c] {
		if r.p == p {
			return true
		}
	}
	return false
}

// HC07norem: a directory with a subdirectory goes away, with or without notice,
// and comes back.
func HC07norem() {
	z := znew(1, 32)
	z.universe(4)
	e := zset("eset")
	top, dirs := "/w/r", []string{"/w/r/n", "/w/r/n/a", "/w/r/n/a/b"}
	if vParam("root", 0) == 1 {
		top, dirs = "/", []string{"/n", "/n/a", "/n/a/b"}
	}
	early := vChoose("early", 2) == 0 // there before the Watch
	if early {
		z.mk(dirs[0], zDir)
		z.mk(dirs[1], zDir)
	}
	must(z.watch(0, top, true, e))
	z.reg(0, top, e, true)
	if !early {
		z.mk(dirs[0], zDir)
		z.mk(dirs[1], zDir)
		z.emit(&zev{p: dirs[0], e: Create, dir: true})
	}
	vAssert(z.w.m[dirs[1]] == e|Create, "C07: a new directory is not followed")
	// the watches belong to the directory, not to its path
	z.rmAll(dirs[0])
	told := vChoose("told", 2) == 1
	if told && vTake(e&Remove != 0) {
		z.emit(&zev{p: dirs[0], e: Remove, dir: true})
	}
	delete(z.w.m, dirs[0])
	delete(z.w.m, dirs[1])
	n := 1 + vChoose("depth", 3)
	for _, p := range dirs[:n] {
		z.mk(p, zDir)
	}
	z.emit(&zev{p: dirs[0], e: Create, dir: true})
	if vChoose("again", 2) == 1 {
		z.emit(&zev{p: dirs[n-1], e: Create, dir: true})
	}
	for _, p := range dirs[:n] {
		vAssert(z.w.m[p] == e|Create, "C07: a directory created again is not followed")
	}
	ev := &zev{p: dirs[n-1] + "/g", e: zkind("ev")}
	for len(z.ch[0]) > 0 {
		<-z.ch[0]
	}
	z.emit(ev)
	z.checkDelivery(ev, true, true)
	vReach("followed")
}

// HC01rm: removals of followed directories leave every other watchpoint alone.
func HC01rm() {
	z := znew(2, 32)
	z.universe(4)
	for _, d := range []string{"/w/s", "/w/s/b", "/w/s/c", "/w/s/c/d"} {
		z.mk(d, zDir)
	}
	dirs := []string{"/w/s", "/w/s/b", "/w/s/c", "/w/s/c/d"}
	for i := 0; i < 2; i++ {
		p := dirs[vChoose("path", len(dirs))]
		rec := vChoose("rec", 2) == 1
		e := zset("eset")
		vTrace("Watch", i, p, rec, uint32(e))
		must(z.watch(i, p, rec, e))
		z.reg(i, p, e, rec)
	}
	p := dirs[1+vChoose("rm", 3)]
	if !z.covered(p) {
		vEnd()
	}
	for _, e := range zfs.ents {
		if e.exists && zunder(e.path, p) {
			z.emit(&zev{p: e.path, e: Remove, dir: true})
		}
	}
	z.emit(&zev{p: p, e: Remove, dir: true})
	vTrace("rmdir", p)
	z.rmAll(p)
	z.dropRegs(p)
	for c := range z.ch {
		if z.ch[c] != nil {
			z.drain(c)
		}
	}
	// a removal noticed late leaves nothing behind either
	z.emit(&zev{p: p, e: Remove, dir: true})
	for c := range z.ch {
		if z.ch[c] != nil {
			z.drain(c)
		}
	}
	kind := zkind("ev")
	for _, q := range []string{"/w/s/b/g", "/w/s/b", "/w/s/c/g", "/w/s/g", "/w/s/c/d/g"} {
		ev := &zev{p: q, e: kind}
		z.emit(ev)
		z.checkDelivery(ev, true, true)
	}
	vReach("dispatched")
}

// HC07deny: one of the directories that appear below a recursive watchpoint
// cannot be read; the others are followed all the same.
func HC07deny() {
	z := znew(1, 8)
	z.universe(4)
	e := zset("eset")
	vTrace("Watch rec", 0, uint32(e))
	must(z.watch(0, "/w/r", true, e))
	const n = "/w/r/n"
	for _, p := range []string{n, n + "/a", n + "/a/d", n + "/b", n + "/b/c", n + "/e"} {
		z.mk(p, zDir)
	}
	zfs.deny = []string{n + "/a", n + "/b", n + "/b/c", n + "/e"}[vChoose("deny", 4)]
	vTrace("mkdir, unreadable", zfs.deny)
	z.emit(&zev{p: n, e: Create, dir: true})
	vAssert(vBlocked() == 0, "C07: stuck")
	z.refreshDirs()
	for _, d := range z.dirs {
		if d != zfs.deny && !zunder(d, zfs.deny) && zunder(d, "/w/r") {
			vAssert(z.w.m[d]&(e|Create) == e|Create, "C07: an existing directory below a recursive watchpoint is not watched")
		}
	}
	z.stop(0)
	vAssert(len(z.w.m) == 0, "C07: an OS watch remains after every channel was stopped")
	vReach("followed")
}
