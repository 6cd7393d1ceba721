package notify

import "syscall"

// File-system changes that race with the tracking of directories. The watcher
// below also models which of the requested watches are alive in the kernel:
// a watch dies with its directory, and is bound to the directory that existed
// when it was requested.

type zkspy struct {
	m    map[string]Event // what the tree requested
	live map[string]Event // what the kernel still has
	mv   bool             // directories are renamed rather than removed
}

func (w *zkspy) Watch(p string, e Event) error {
	vYield()
	if zfs.find(p) == nil {
		return syscall.ENOENT
	}
	w.m[p] = e
	w.live[p] = e
	return nil
}

func (w *zkspy) Rewatch(p string, old, e Event) error { return w.Watch(p, e) }

func (w *zkspy) Unwatch(p string) error {
	vYield()
	if _, ok := w.m[p]; !ok {
		return errNotWatched
	}
	delete(w.m, p)
	delete(w.live, p)
	return nil
}

func (w *zkspy) Close() error { return nil }

// mkdir and rmdir are what some other process does; the events they cause are
// queued in kernel order.
func (w *zkspy) mkdir(z *zworld, p string) {
	vYield()
	z.mk(p, zDir)
	if vTake(w.live[zparent(p)]&Create != 0) {
		z.in <- &zev{p: p, e: Create, dir: true, sys: new(int)}
	}
}

func (w *zkspy) rmdir(z *zworld, p string) {
	vYield()
	for _, e := range zfs.ents {
		if e.exists && zunder(e.path, p) && zparent(e.path) == p {
			w.rmdir(z, e.path)
		}
	}
	self := w.live[p]
	z.rmAll(p)
	delete(w.live, p)
	if !w.mv && vTake(self&Remove != 0) {
		z.in <- &zev{p: p, e: Remove, dir: vParam("selfdir", 1) == 1, sys: new(int)}
	}
	if !w.mv && vTake(w.live[zparent(p)]&Remove != 0) {
		z.in <- &zev{p: p, e: Remove, dir: true, sys: new(int)}
	}
}

// HC07race: a directory below a recursive watchpoint is removed, renamed, created,
// recreated, filled, while the events of these changes are being processed.
func HC07race() {
	w := &zkspy{m: map[string]Event{}, live: map[string]Event{}}
	z := &zworld{}
	z.in = make(chan EventInfo, 16)
	z.t = newNonrecursiveTree(w, z.in, make(chan EventInfo, 16))
	z.ch[0] = make(chan EventInfo, 32)
	f := zfsNew()
	f.add("/w", zDir)
	f.add("/w/r", zDir)
	const n = "/w/r/n"
	if vChoose("present", 2) == 1 {
		f.add(n, zDir)
		if vChoose("content", 2) == 1 {
			f.add(n+"/a", zDir)
		}
	}
	e := zset("eset")
	w.mv = vChoose("mv", 2) == 1
	vTrace("Watch rec", 0, uint32(e))
	done := make(chan bool, 1)
	vRace(true)
	early := vChoose("early", vParam("early", 2)) == 1
	k := vParam("k", 2)
	change := func() {
		for i := 0; i < k; i++ {
			switch {
			case z.exists(n) && vChoose("rm", 2) == 1:
				vTrace("rmdir", n)
				w.rmdir(z, n)
			case z.exists(n + "/a"):
				vTrace("rmdir", n+"/a")
				w.rmdir(z, n+"/a")
			case z.exists(n):
				vTrace("mkdir", n+"/a")
				w.mkdir(z, n+"/a")
			default:
				vTrace("mkdir", n)
				w.mkdir(z, n)
			}
			if !early && vChoose("settle", 2) == 1 {
				vSettle()
			}
		}
	}
	if early {
		// the changes happen while Watch is running
		vExplore(vParam("sched", 1))
		zgo(done, change)
		must(z.watch(0, "/w/r", true, e))
	} else {
		must(z.watch(0, "/w/r", true, e))
		done <- true
		vSettle()
		vExplore(vParam("sched", 1))
		change()
	}
	vSettle()
	<-done
	vExplore(0)
	vSettle()
	vAssert(vBlocked() == 0, "C07: stuck")
	z.refreshDirs()
	for _, d := range z.dirs {
		if d != "/w" {
			vAssert(w.live[d]&(e|Create) == e|Create, "C07: an existing directory below a recursive watchpoint is not watched")
		}
	}
	for p := range w.m {
		vAssert(w.mv || z.exists(p) || vTake(e&Remove == 0), "C07: an OS watch remains on a removed directory")
	}
	z.stop(0)
	vAssert(len(w.m) == 0, "C07: an OS watch remains after every channel was stopped")
	vReach("followed")
}
