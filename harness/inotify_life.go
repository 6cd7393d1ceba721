package notify

import "golang.org/x/sys/unix"

// HC15: any system call needed to start the watcher may fail; then Close.
func HC15() {
	k := knew()
	k.paths["/w/a"] = 1
	k.paths["/w/b"] = 2
	k.faults = true
	c := make(chan EventInfo, 16)
	w := newWatcher(c)
	var want []string
	for i := 0; i < vParam("tries", 3); i++ {
		k.failed = nil
		p := []string{"/w/a", "/w/b"}[vChoose("path", 2)]
		vTrace("Watch", p)
		err := w.Watch(p, Create)
		vSettle()
		vAssert((err == nil) == (k.failed == nil), "C15: a request does not fail exactly if a system call did")
		if err == nil {
			want = append(want, p)
		} else {
			vAssert(err == k.failed, "C15: the error of the system call is not reported")
			vReach("failed")
		}
		if k.failed != nil && k.what != "inotify_add_watch" {
			vAssert(k.left() == 0, "C15: a failed start leaves descriptors open")
		} else {
			vAssert(k.left() == k.all, "C15: descriptors are missing or left over")
		}
	}
	k.faults = false
	if len(want) > 0 {
		k.raw(krec{wd: k.watches[0].wd, mask: unix.IN_CREATE, name: kpad("f")})
		vSettle()
		vAssert(len(c) == 1, "C15: the watcher does not work after a failed start")
		<-c
	}
	started := k.left() > 0
	closing(k, w, c)
	if started {
		vReach("closed")
	} else {
		vReach("closed unused")
	}
	// it can start anew
	if vChoose("again", 2) == 1 {
		k.faults = vChoose("faults again", 2) == 1
		k.failed = nil
		err := w.Watch("/w/a", Create)
		vAssert((err == nil) == (k.failed == nil), "C15: a request does not fail exactly if a system call did")
		k.faults = false
		vSettle()
		if err == nil {
			vAssert(len(k.watches) == 1, "C15: the watcher does not start anew")
			k.raw(krec{wd: k.watches[0].wd, mask: unix.IN_CREATE, name: kpad("f")})
			vSettle()
			vAssert(len(c) == 1, "C15: the watcher does not work after a restart")
			<-c
			k.raw(krec{wd: k.watches[0].wd + 1, mask: unix.IN_CREATE, name: kpad("f")})
			vSettle()
			vAssert(len(c) == 0, "C15: a watch from before Close is reported")
			vAssert(w.Unwatch("/w/b") != nil, "C15: a watch from before Close is remembered")
		}
		closing(k, w, c)
		vReach("again")
	}
}

// closing closes the watcher and checks what is left.
func closing(k *kernT, w watcher, c chan EventInfo) {
	vTrace("Close")
	done := make(chan error, 1)
	go func() { done <- w.Close() }()
	vSettle()
	vAssert(len(done) == 1, "C15: Close is stuck")
	err := <-done
	vAssert(err == nil, "C15: Close fails")
	vAssert(k.left() == 0, "C15: Close leaves descriptors open")
	vAssert(len(k.watches) == 0, "C15: Close leaves kernel watches")
}

// HC15race: events arrive while Close runs.
func HC15race() {
	k := knew()
	k.paths["/w/a"] = 1
	k.paths["/w/b"] = 2
	small := vChoose("small", 2) == 1
	c := make(chan EventInfo, 8)
	if small {
		c = make(chan EventInfo)
	}
	w := newWatcher(c)
	must(w.Watch("/w/a", Create))
	if vChoose("second", 2) == 1 {
		must(w.Watch("/w/b", Create))
	}
	n := vParam("events", 2)
	for i := 0; i < n; i++ {
		k.queue = append(k.queue, krec{wd: 1, mask: unix.IN_CREATE, name: kpad("f")})
	}
	if small {
		go func() {
			for range c {
			}
		}()
	}
	vRace(true)
	vExplore(vParam("sched", 2))
	go k.poke()
	if vChoose("late", 2) == 1 {
		vYield()
		k.raw(krec{wd: 1, mask: unix.IN_CREATE, name: kpad("g")})
	}
	err := w.Close()
	sent := len(c)
	vYield()
	vExplore(0)
	vSettle()
	vAssert(len(c) == sent, "C15: an event is reported after Close returned")
	vAssert(err == nil, "C15: Close fails")
	vAssert(k.left() == 0, "C15: Close leaves descriptors open")
	vReach("closed")
}

// HC14race: requests while records are being read and reported.
func HC14race() {
	k := knew()
	k.paths["/w/a"] = 1
	k.paths["/w/b"] = 2
	c := make(chan EventInfo, 32)
	w := newWatcher(c)
	e0 := zkset("eset")
	e1 := e0
	rec := krec{wd: 1, mask: kkind("mask", false), name: kpad("f")}
	must(w.Watch("/w/a", e0))
	op := vChoose("op", 3)
	if op == 1 {
		e1 = zkset("eset")
	}
	n := vParam("events", 2)
	late := op != 2 && vChoose("late", 2) == 1
	last := rec
	last.name = kpad("g")
	was, want, lasts := kexpect(e0, "/w/a", rec), kexpect(e1, "/w/a", rec), kexpect(e1, "/w/a", last)
	vRace(true)
	vExplore(vParam("sched", 2))
	for i := 0; i < n; i++ {
		k.queue = append(k.queue, rec)
	}
	go k.poke()
	vYield()
	switch op {
	case 0:
		must(w.Watch("/w/b", Create))
	case 1:
		must(w.Rewatch("/w/a", e0, e1))
	case 2:
		must(w.Unwatch("/w/a"))
	}
	if late {
		vYield()
		k.raw(last)
	}
	vYield()
	vExplore(0)
	vSettle()
	vRace(false)
	vAssert(vBlocked() == 0, "C14: stuck")
	f, g := 0, 0
	for len(c) > 0 {
		ei := <-c
		ok := false
		for _, x := range was {
			ok = vOr(ok, vAnd(ei.Event() == x.ev, ei.Path() == x.path))
		}
		for _, x := range want {
			ok = vOr(ok, vAnd(ei.Event() == x.ev, ei.Path() == x.path))
		}
		isLast := false
		for _, x := range lasts {
			isLast = vOr(isLast, vAnd(ei.Event() == x.ev, ei.Path() == x.path))
		}
		if vTake(isLast) {
			vAssert(late, "C14: an event that was not reported")
			g++
			continue
		}
		vAssert(ok, "C14: a record is not reported as requested")
		f++
	}
	min, max := n*len(was), n*len(want)
	if min > max {
		min, max = max, min
	}
	vAssert(f <= max && (op == 2 || f >= min), "C14: a record is lost or reported twice")
	if late {
		vAssert(g == len(lasts), "C14: a record is not reported as the latest request for its descriptor asks")
	}
	vReach("reported")
}
