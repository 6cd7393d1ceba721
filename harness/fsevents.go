package notify

// HC18*: what a watch reports of native batches.

const (
	zDropped = uint32(FSEventsMustScanSubDirs | FSEventsUserDropped | FSEventsKernelDropped)
	zWrapped = uint32(FSEventsEventIdsWrapped)
	zDone    = uint32(FSEventsHistoryDone)
	zFlags   = uint32(0x7ffff)
)

// zseen is the reference for what FSEvents retains: the last of Created and
// Removed that was seen alone, per path.
type zseen map[string]uint32

// effective is what a record reports anew.
func (z zseen) effective(p string, f uint32) uint32 {
	const cr, rm = uint32(FSEventsCreated), uint32(FSEventsRemoved)
	const wr = uint32(FSEventsModified | FSEventsInodeMetaMod)
	last := z[p]
	gone := false
	switch {
	case last == cr:
		gone = f&rm != 0
		f &^= cr
	case last == rm:
		if f&cr != 0 {
			z[p] = cr
		}
		f &^= rm
	case f&cr != 0 && f&rm != 0: // which came last is unknown
	case f&cr != 0:
		z[p] = cr
	case f&rm != 0:
		gone = true
	}
	if gone {
		z[p] = rm
		f &^= wr
	}
	return f
}

func zscope(w, p string, rec bool) bool {
	return p == w || zparent(p) == w || rec && zunder(p, w)
}

func zbit(x uint32) int {
	n := 0
	for ; x != 0; x >>= 1 {
		n += int(x & 1)
	}
	return n
}

// HC18: a watch with an arbitrary set gets up to n records of arbitrary flags.
func HC18() {
	zfse = &zfseT{now: 1000}
	c := make(chan EventInfo, 256)
	w := newWatcher(c)
	rw := w.(recursiveWatcher)
	wp := "/a/b"
	rec := vChoose("recursive", 2) == 1
	flags := uint32(vParam("flags", int(zFlags)))
	e := Event(vU32("set")) & Event(zFlags)
	vAssume(e != 0)
	if vParam("allset", 0) == 1 {
		e = Event(zFlags)
	}
	// the set is requested at once, or a watch is modified to it
	how := 0
	if vParam("how", 1) == 1 {
		how = vChoose("how", 4)
	}
	switch {
	case how == 0 && !rec:
		must(w.Watch(wp, e))
	case how == 0:
		must(rw.RecursiveWatch(wp, e))
	case how == 1 && !rec:
		must(rw.RecursiveWatch(wp, Create|Write))
		must(w.Rewatch(wp, Create|Write, e))
	case how == 1:
		must(w.Watch(wp, Create|Write))
		must(rw.RecursiveRewatch(wp, wp, Create|Write, e))
	case how == 2 && !rec:
		must(rw.RecursiveWatch(wp, e))
		must(w.Rewatch(wp, e, e))
	case how == 2:
		must(w.Watch(wp, e))
		must(rw.RecursiveRewatch(wp, wp, e, e))
	case how == 3 && rec:
		must(w.Watch("/a/b/c", Create|Write))
		must(rw.RecursiveRewatch("/a/b/c", wp, Create|Write, e))
		vAssert(zfse.live("/a/b/c") == nil, "C18: the relocated watch is left behind")
	default:
		vEnd()
	}
	s := zfse.live(wp)
	vAssert(s != nil, "C18: no native stream for a watched path")
	paths := []string{"/a/b", "/a/b/c", "/a/b/c/d", "/a/bc", "/a", "/a/bc/d", "/a/b/e", "/x"}
	np := vParam("paths", len(paths))
	n := vParam("n", 1)
	done := vChoose("history done before", n+1)
	seen := zseen{}
	open := false
	b := &zbatch{}
	type exp struct {
		p  string
		f  uint32
		e  uint32
		id uint64
	}
	var want []exp
	for i := 0; i <= n; i++ {
		if i == done && vParam("marker", 1) == 1 {
			b.add("/", zDone)
			open = true
		}
		if i == n {
			break
		}
		p := paths[vChoose("path", np)]
		f := vU32("flags") & flags
		if vParam("wrapped", 0) == 0 {
			f &^= zWrapped
		}
		if lim := vParam("bits", 0); lim > 0 {
			x := f & uint32(e)
			for ; lim > 0; lim-- {
				x &= x - 1
			}
			vAssume(x == 0)
		}
		vTrace("record", p, f)
		if vParam("split", 0) == 1 && vChoose("split", 2) == 1 {
			b.deliver(s)
			b = &zbatch{}
		}
		b.add(p, f)
		x := exp{p: p, f: f, id: zfse.now}
		switch {
		case f&zWrapped != 0:
		case f&zDone != 0:
			open = true
		case !open:
		case f&zDropped != 0 && uint32(e)&zDropped == 0:
		case !zscope(wp, p, rec):
		default:
			x.e = seen.effective(p, f) & uint32(e)
		}
		want = append(want, x)
	}
	b.deliver(s)
	for _, x := range want {
		for bit := uint32(1); bit <= zFlags; bit <<= 1 {
			if flags&bit == 0 || x.e&bit == 0 {
				continue
			}
			vAssert(len(c) > 0, "C18: a requested flag is not reported")
			ei := <-c
			vAssert(ei.Path() == x.p, "C18: an event carries a wrong path")
			vAssert(uint32(ei.Event()) == bit, "C18: not exactly one event per requested and effective flag")
			fe, ok := ei.Sys().(*FSEvent)
			vAssert(ok && fe.Path == x.p && fe.ID == x.id, "C18: the native event is not passed on")
			vAssert(fe.Flags == x.f, "C18: the native event is not passed on")
			d, err := ei.(isDirer).isDir()
			vAssert(err == nil && d == (x.f&uint32(FSEventsIsDir) != 0), "C18: directory and file confused")
		}
	}
	vAssert(len(c) == 0, "C18: an event was reported that is out of scope, not requested, stale or old")
	vReach("reported")
	switch {
	case n > 1 || vChoose("close", 2) == 0:
		must(w.Unwatch(wp))
	default:
		must(w.Close())
	}
	vAssert(zfse.live(wp) == nil, "C18: native stream outlives its watch")
	b = &zbatch{}
	b.add(wp, zDone)
	b.add(wp, uint32(e))
	b.deliver(s)
	vAssert(len(c) == 0, "C18: an event is reported after Unwatch or Close")
}

// zfseEvent reports a record with one flag on every native stream it concerns.
func zfseEvent(p string, f uint32) {
	for _, s := range zfse.streams {
		if s.started && (p == s.path || s.path == "/" || zunder(p, s.path)) {
			b := &zbatch{}
			b.add("/", zDone)
			b.add(p, f)
			b.deliver(s)
		}
	}
	vSettle()
}

// zfseCheck reports an event of one kind on each of several paths: every
// channel gets it at least once per listening, at most once per matching
// watchpoint.
func (z *zworld) zfseCheck(f Event, paths []string) {
	for _, p := range paths {
		vTrace("event", p)
		zfseEvent(p, uint32(f))
		for c := range z.ch {
			if z.ch[c] == nil {
				continue
			}
			want, most := z.wants(c, p, f)
			got := len(z.ch[c])
			vAssert(vImplies(want, got >= 1), "C18: a listening channel missed a native event")
			vAssert(vImplies(got >= 1, want), "C18: a channel received a native event it did not ask for")
			vAssert(got <= most, "C18: more copies than matching watchpoints")
			for i := 0; i < got; i++ {
				x := <-z.ch[c]
				vAssert(x.Event() == f && x.Path() == p, "C18: an event is changed on its way")
			}
		}
	}
}

// HC18tree: K API calls, the last of which the OS may refuse, then native
// events.
func HC18tree() {
	zfse = &zfseT{now: 1000}
	z := &zworld{w: &zspy{}, in: make(chan EventInfo, 16)}
	z.t = newRecursiveTree(newWatcher(z.in).(recursiveWatcher), z.in)
	z.ch[0] = make(chan EventInfo, 8)
	z.ch[1] = make(chan EventInfo, 8)
	ps := z.universe(vParam("paths", 3))
	z.history(vParam("k", 2), 2, ps, nil)
	if vParam("fault", 1) == 1 {
		c := vChoose("failchan", 2)
		p := ps[vChoose("failpath", len(ps))]
		rec := p != "/w/r/f" && vChoose("failrec", 2) == 1
		e := zset("failset")
		zfse.faults = true
		vTrace("Watch with fault", p, rec, c, uint32(e))
		err := z.watch(c, p, rec, e)
		zfse.faults = false
		vAssert((err != nil) == zfse.failed, "C18: Watch does not report the refusal of the OS")
		if err == nil {
			vEnd()
		}
		vReach("refused")
	}
	kind := Event(vU32("kind")) & Event(zFlags) &^ Event(zDropped|zDone|zWrapped)
	vAssume(vAnd(kind != 0, kind&(kind-1) == 0))
	z.zfseCheck(kind, zevpaths)
	vReach("reported")
	for c := range z.ch {
		if z.ch[c] != nil {
			z.stop(c)
		}
	}
	for _, s := range zfse.streams {
		vAssert(!s.started, "C18: a native stream remains after every channel was stopped")
	}
}
