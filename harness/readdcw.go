package notify

import "syscall"

// HC19*: the ReadDirectoryChanges watcher over a model of the system.

const wSupported = All | fileNotifyChangeAll

func wset(name string) Event {
	e := Event(vU32(name)) & wSupported
	vAssume(e != 0)
	return e
}

// wchange is a kind of change and the events a set asks for about it.
type wchange struct {
	name string
	bit  uint32 // the native filter that selects it
	act  uint32
	gen  Event
	sys  Event
	dir  bool
	mod  bool
}

func wchanges() []wchange {
	return []wchange{
		{"create file", syscall.FILE_NOTIFY_CHANGE_FILE_NAME, syscall.FILE_ACTION_ADDED, Create, FileActionAdded, false, false},
		{"create dir", syscall.FILE_NOTIFY_CHANGE_DIR_NAME, syscall.FILE_ACTION_ADDED, Create, FileActionAdded, true, false},
		{"remove file", syscall.FILE_NOTIFY_CHANGE_FILE_NAME, syscall.FILE_ACTION_REMOVED, Remove, FileActionRemoved, false, false},
		{"remove dir", syscall.FILE_NOTIFY_CHANGE_DIR_NAME, syscall.FILE_ACTION_REMOVED, Remove, FileActionRemoved, true, false},
		{"rename file from", syscall.FILE_NOTIFY_CHANGE_FILE_NAME, syscall.FILE_ACTION_RENAMED_OLD_NAME, Rename, FileActionRenamedOldName, false, false},
		{"rename file to", syscall.FILE_NOTIFY_CHANGE_FILE_NAME, syscall.FILE_ACTION_RENAMED_NEW_NAME, Rename, FileActionRenamedNewName, false, false},
		{"rename dir from", syscall.FILE_NOTIFY_CHANGE_DIR_NAME, syscall.FILE_ACTION_RENAMED_OLD_NAME, Rename, FileActionRenamedOldName, true, false},
		{"rename dir to", syscall.FILE_NOTIFY_CHANGE_DIR_NAME, syscall.FILE_ACTION_RENAMED_NEW_NAME, Rename, FileActionRenamedNewName, true, false},
		{"attributes", syscall.FILE_NOTIFY_CHANGE_ATTRIBUTES, syscall.FILE_ACTION_MODIFIED, Write, FileActionModified, false, true},
		{"size", syscall.FILE_NOTIFY_CHANGE_SIZE, syscall.FILE_ACTION_MODIFIED, Write, FileActionModified, false, true},
		{"creation", syscall.FILE_NOTIFY_CHANGE_CREATION, syscall.FILE_ACTION_MODIFIED, Write, FileActionModified, false, true},
		{"security", 0x100, syscall.FILE_ACTION_MODIFIED, Write, FileActionModified, false, true},
		{"last write", syscall.FILE_NOTIFY_CHANGE_LAST_WRITE, syscall.FILE_ACTION_MODIFIED, Write, FileActionModified, false, true},
		{"last access", syscall.FILE_NOTIFY_CHANGE_LAST_ACCESS, syscall.FILE_ACTION_MODIFIED, Write, FileActionModified, false, true},
	}
}

// asks reports whether a set asks for a native action of this kind.
func (x *wchange) asks(e Event) bool {
	switch {
	case x.mod:
		return e&fileNotifyChangeModified != 0
	case x.dir:
		return e&FileNotifyChangeDirName != 0
	}
	return e&FileNotifyChangeFileName != 0
}

// must reports whether a set asks to be told of this very kind of change.
func (x *wchange) must(e Event) bool {
	// Write stands for neither access nor write times
	times := x.bit == syscall.FILE_NOTIFY_CHANGE_LAST_WRITE || x.bit == syscall.FILE_NOTIFY_CHANGE_LAST_ACCESS
	return e&Event(x.bit) != 0 || !times && e&x.gen != 0
}

const wroot = `C:\w\r`

// HC19: one watch with an arbitrary set, then up to n changes, in one batch or
// several.
func HC19() {
	k := kwNew()
	c := make(chan EventInfo, 64)
	w := newWatcher(c)
	rw := w.(recursiveWatcher)
	raw := Event(vU32("set"))
	rec := vChoose("recursive", 2) == 1
	how := 0
	if vParam("rewatch", 0) == 1 {
		how = 1 + vChoose("how", 3)
	}
	raw &= Event(vParam("mask", -1))
	vAssume(raw != 0)
	var err error
	watch := func(e Event, rec bool) error {
		if rec {
			return rw.RecursiveWatch(wroot, e)
		}
		return w.Watch(wroot, e)
	}
	switch how {
	case 0:
		err = watch(raw, rec)
	default: // modified: event set, recursion, or both
		was := wset("was") & Event(vParam("mask", -1))
		vAssume(was != 0)
		if how == 1 {
			was = raw
			vAssume(was&^wSupported == 0)
		}
		wrec := rec
		if how != 2 {
			wrec = !rec
		}
		vAssume(vOr(was != raw, wrec != rec))
		must(watch(was, wrec))
		vSettle()
		if rec {
			err = rw.RecursiveRewatch(wroot, wroot, was, raw)
		} else {
			err = w.Rewatch(wroot, was, raw)
		}
	}
	vSettle()
	ok := raw&^wSupported == 0
	if err != nil {
		vAssert(!ok, "C19: a supported event set is refused")
		vReach("refused")
		if how == 0 {
			for _, d := range k.dirs {
				vAssert(!d.open, "C19: a refused event set leaves a request")
			}
		}
		vEnd()
	}
	vAssert(ok, "C19: an event set with unsupported bits is accepted")
	e := raw
	var have uint32
	for _, d := range k.dirs {
		if d.open {
			vAssert(d.path == wroot && d.rec == rec, "C19: a request for a wrong directory or depth")
			vAssert(d.pending != nil && d.pending.n >= 64, "C19: no request is pending on an open directory")
			have |= d.mask
		}
	}
	ch := wchanges()
	var bits uint32
	for i := range ch {
		vAssert(vImplies(ch[i].must(e), have&ch[i].bit != 0), "C19: the native filter misses a requested event")
		bits |= ch[i].bit
	}
	paths := []string{`C:\w\r\a`, `C:\w\r\b\c`, `C:\w\r\b`}
	n := vParam("n", 0)
	all := n == 0
	if all { // every change, one after the other
		n = len(ch) * 2
	}
	for i := 0; i < n; i++ {
		x, p := ch[i/2%len(ch)], paths[i%2]
		if !all {
			x = ch[vChoose("change", len(ch))]
			p = paths[vChoose("path", vParam("paths", 2))]
		}
		recs := []kwrec{{x.act, p}}
		if !all && vParam("batch", 0) == 1 && vChoose("batch", 2) == 1 {
			recs = append(recs, kwrec{x.act, `C:\w\r\bb`})
		}
		vTrace("change", x.name, p)
		k.change(x.bit, recs...)
		for _, r := range recs {
			scope := rec || kwparent(r.name) == wroot
			rep := scope && have&x.bit != 0
			gen := vAnd(rep, e&x.gen != 0)
			sys := vAnd(rep, x.asks(e))
			ng, ns := 0, 0
			for len(c) > 0 {
				ei := <-c
				if ei.Path() != r.name {
					vAssert(len(recs) == 2 && r.name == recs[0].name && ei.Path() == recs[1].name, "C19: an event carries a wrong path")
					c2 := make(chan EventInfo, 64)
					c2 <- ei
					for len(c) > 0 {
						c2 <- <-c
					}
					for len(c2) > 0 {
						c <- <-c2
					}
					break
				}
				switch {
				case ei.Event() == x.gen:
					ng++
				case ei.Event() == x.sys:
					ns++
				default:
					vFail("C19: an event of a wrong kind")
				}
				if !x.mod {
					d, err := ei.(isDirer).isDir()
					vAssert(err == nil && d == x.dir, "C19: directory and file confused")
				}
			}
			vAssert(vImplies(gen, ng >= 1), "C19: a requested portable event is not reported")
			vAssert(vImplies(ng >= 1, gen), "C19: a portable event is reported that was not requested")
			vAssert(vImplies(sys, ns >= 1), "C19: a requested native event is not reported")
			vAssert(ng <= 1 && ns <= 1, "C19: an event is reported twice")
		}
		vAssert(len(c) == 0, "C19: an event is reported that did not happen")
		for _, d := range k.dirs {
			vAssert(!d.open || d.pending != nil, "C19: no request is pending after an event")
		}
	}
	vReach("reported")
	must(w.Close())
	vSettle()
	for _, d := range k.dirs {
		vAssert(!d.open, "C19: a directory is left open by Close")
	}
	vAssert(!k.port, "C19: the completion port is left open by Close")
}

// wwants tells how often a channel may and must get a change on a path.
func (z *zworld) wwants(c int, p string, x *wchange) (gen, sys, may bool) {
	for _, r := range z.regs[c] {
		in := r.p == kwparent(p) || r.rec && kwunder(p, r.p)
		if !in && r.p != p {
			continue
		}
		may = true
		if in && vTake(x.must(r.e)) {
			gen = vOr(gen, r.e&x.gen != 0)
			sys = vOr(sys, x.asks(r.e))
		}
	}
	return
}

// wlisten tells whether any watchpoint of the channel that matches the path
// asks for an event.
func (z *zworld) wlisten(c int, p string, x *wchange, e Event) (r bool) {
	for _, g := range z.regs[c] {
		if g.p == p || g.p == kwparent(p) || g.rec && kwunder(p, g.p) {
			if e == x.gen {
				r = vOr(r, g.e&x.gen != 0)
			} else {
				r = vOr(r, x.asks(g.e))
			}
		}
	}
	return
}

// HC19tree: K API calls, then every change on each of several paths.
func HC19tree() {
	k := kwNew()
	z := &zworld{w: &zspy{}, in: make(chan EventInfo, 16)}
	z.t = newRecursiveTree(newWatcher(z.in).(recursiveWatcher), z.in)
	z.ch[0] = make(chan EventInfo, 16)
	z.ch[1] = make(chan EventInfo, 16)
	top := wroot
	if vParam("root", 0) == 1 {
		top = `C:`
	}
	ps := []string{top, top + `\x`, top + `\x\y`}[:vParam("paths", 2)]
	if top == `C:` {
		ps[0] = `C:\`
	}
	mask := Event(vParam("mask", -1)) & wSupported
	used := 0
	for i, n := 0, vParam("k", 2); i < n; i++ {
		nc := 2
		if used == 0 {
			nc = 1
		}
		nw := len(ps) * 2
		op := vChoose("op", nw+1)
		if op == nw {
			c := vChoose("stopchan", nc)
			if len(z.regs[c]) == 0 {
				vEnd()
			}
			gone := ""
			if vParam("gone", 0) == 1 && vChoose("gone", 2) == 1 {
				gone = z.regs[c][0].p
				k.remove(gone)
			}
			vTrace("Stop", c, gone)
			z.stop(c)
			vSettle()
			if gone != "" { // comes back
				for o := range z.regs {
					for _, r := range z.regs[o] {
						if r.p == gone || kwunder(gone, r.p) || kwunder(r.p, gone) {
							vEnd()
						}
					}
				}
				k.gone = map[string]bool{}
			}
		} else {
			c := vChoose("chan", nc)
			if c == used {
				used++
			}
			e := Event(vU32("eset")) & mask
			vAssume(e != 0)
			p, rec := ps[op/2], op%2 == 1
			arg := p
			if rec && arg == `C:\` {
				arg = `C:\...`
			} else if rec {
				arg += `\...`
			}
			vTrace("Watch", p, rec, c, uint32(e))
			err := z.t.Watch(arg, z.ch[c], e)
			vAssert(err == nil, "C19: a Watch of a supported event set fails")
			z.reg(c, p, e, rec)
		}
		vSettle()
	}
	if used == 0 {
		vEnd()
	}
	if vParam("fault", 0) == 1 {
		c := vChoose("failchan", 2)
		p := ps[vChoose("failpath", len(ps))]
		arg, rec := p, vChoose("failrec", 2) == 1
		if rec {
			arg += `\...`
		}
		e := Event(vU32("failset")) & mask
		vAssume(e != 0)
		k.faults = true
		vTrace("Watch with fault", p, rec, c, uint32(e))
		err := z.t.Watch(arg, z.ch[c], e)
		k.faults = false
		vAssert((err != nil) == k.failed, "C19: Watch does not report the refusal of the system")
		if err == nil {
			vEnd()
		}
		vSettle()
		vReach("refused")
		for _, d := range k.dirs {
			vAssert(!d.open || d.pending != nil, "C19: a refused Watch leaves a directory open")
		}
	}
	ch := wchanges()
	for i := range ch {
		x := &ch[i]
		if uint32(mask)&x.bit == 0 && mask&x.gen == 0 {
			continue
		}
		for _, p := range []string{top + `\g`, top + `\x\g`, top + `\x`, top + `\x\y\g`}[:vParam("events", 3)] {
			vTrace("change", x.name, p)
			k.change(x.bit, kwrec{x.act, p})
			for c := range z.ch {
				if z.ch[c] == nil {
					continue
				}
				gen, sys, may := z.wwants(c, p, x)
				ng, ns := 0, 0
				for len(z.ch[c]) > 0 {
					ei := <-z.ch[c]
					vAssert(may, "C19: an event outside every watchpoint is delivered")
					vAssert(ei.Path() == p, "C19: an event carries a wrong path")
					switch ei.Event() {
					case x.gen:
						ng++
					case x.sys:
						ns++
					default:
						vFail("C19: an event of a wrong kind")
					}
				}
				vAssert(vImplies(gen, ng >= 1), "C19: a requested portable event is not delivered")
				vAssert(vImplies(sys, ns >= 1), "C19: a requested native event is not delivered")
				vAssert(vImplies(ng > 0, z.wlisten(c, p, x, x.gen)), "C19: a portable event is delivered that was not requested")
				vAssert(vImplies(ns > 0, z.wlisten(c, p, x, x.sys)), "C19: a native event is delivered that was not requested")
			}
		}
	}
	vReach("delivered")
}
