package notify

import "errors"

// Driving a tree through its API with a recording watcher, together with the
// reference bookkeeping the assertions compare against.

const zall = All | Event(0xfff)
const zint = recursive | omit

var errInjected = errors.New("injected failure")

// zspy is a platform watcher that records its watch list.
type zspy struct {
	m      map[string]Event
	n      int    // requests
	strict bool   // assert the watcher contract
	faulty bool   // may fail
	failed bool   // an injected failure happened in the current call
	stuck  bool   // Unwatch and Rewatch fail
	anew   string // a directory reported as created
}

func (w *zspy) mayFail() bool {
	if w.faulty && !w.failed && vBool("oserr") {
		w.failed = true
		return true
	}
	return false
}

func (w *zspy) path(p string) {
	if w.strict {
		ok := len(p) > 0 && p[0] == '/'
		for i := 1; i < len(p); i++ {
			if p[i-1] == '/' && (p[i] == '/' || (p[i] == '.' && (i+1 == len(p) || p[i+1] == '/' || (p[i+1] == '.' && (i+2 == len(p) || p[i+2] == '/'))))) {
				ok = false
			}
		}
		if len(p) > 1 && p[len(p)-1] == '/' {
			ok = false
		}
		vAssert(ok, "C06: path passed to the watcher is absolute and clean")
	}
}

func (w *zspy) Watch(p string, e Event) error {
	w.n++
	if w.strict {
		w.path(p)
		vAssert(e != 0, "C06: watch requested with an empty event set")
		vAssert(e&zint == 0, "C06: watch request carries internal flags")
		vAssert(w.m[p] == 0, "C06: watch created for a path that is already watched")
	}
	if w.mayFail() {
		return errInjected
	}
	w.m[p] = e
	return nil
}

func (w *zspy) Rewatch(p string, old, e Event) error {
	w.n++
	cur, ok := w.m[p]
	if w.strict {
		w.path(p)
		vAssert(vAnd(old != 0, e != 0), "C06: rewatch with an empty event set")
		vAssert((old|e)&zint == 0, "C06: rewatch carries internal flags")
		if !ok && w.created(p) {
			return errNotWatched // its removal went unnoticed
		}
		vAssert(ok, "C06: rewatch of a path that is not watched")
		vAssert(old == cur, "C06: rewatch passes a wrong old event set")
		vAssert(w.created(p) || vTake(old != e), "C06: rewatch that changes nothing")
	}
	if w.mayFail() {
		return errInjected
	}
	w.m[p] = e
	return nil
}

// created says whether p has just been created.
func (w *zspy) created(p string) bool {
	return w.anew != "" && (p == w.anew || zunder(p, w.anew))
}

func (w *zspy) Unwatch(p string) error {
	w.n++
	_, ok := w.m[p]
	if w.strict {
		w.path(p)
		vAssert(ok, "C06: unwatch of a path that is not watched")
	}
	if !ok {
		return errNotWatched
	}
	delete(w.m, p)
	return nil
}

func (w *zspy) Close() error { return nil }

// zrspy is a natively recursive watcher that records its watch list.
type zrspy struct {
	*zspy
	r map[string]bool // recursive watches
}

func (w *zrspy) Watch(p string, e Event) error {
	vYield()
	err := w.zspy.Watch(p, e)
	if err == nil {
		w.r[p] = false
	}
	return err
}

func (w *zrspy) Unwatch(p string) error {
	vYield()
	if w.stuck {
		return errInjected
	}
	return w.zspy.Unwatch(p)
}

func (w *zrspy) rewatch(p string, old, e Event, rec bool) error {
	vYield()
	w.n++
	if w.strict {
		w.path(p)
		cur, ok := w.m[p]
		vAssert(ok, "C06: rewatch of a path that is not watched")
		vAssert(vAnd(old != 0, e != 0), "C06: rewatch with an empty event set")
		vAssert((old|e)&zint == 0, "C06: rewatch carries internal flags")
		vAssert(old == cur, "C06: rewatch passes a wrong old event set")
	}
	if w.stuck || w.mayFail() {
		return errInjected
	}
	if _, ok := w.m[p]; !ok {
		return errNotWatched
	}
	w.m[p] = e
	w.r[p] = rec
	return nil
}

func (w *zrspy) Rewatch(p string, old, e Event) error { return w.rewatch(p, old, e, false) }

func (w *zrspy) RecursiveWatch(p string, e Event) error {
	vYield()
	err := w.zspy.Watch(p, e)
	if err == nil {
		w.r[p] = true
	}
	return err
}

func (w *zrspy) RecursiveUnwatch(p string) error { return w.Unwatch(p) }

func (w *zrspy) RecursiveRewatch(p, q string, old, e Event) error {
	if p == q {
		return w.rewatch(p, old, e, true)
	}
	vYield()
	w.n++
	cur, ok := w.m[p]
	_, dup := w.m[q]
	if w.strict {
		w.path(p)
		w.path(q)
		vAssert(ok, "C06: relocation of a path that is not watched")
		vAssert(!dup, "C06: relocation to a path that is already watched")
		vAssert(vAnd(old != 0, e != 0), "C06: rewatch with an empty event set")
		vAssert((old|e)&zint == 0, "C06: rewatch carries internal flags")
		vAssert(old == cur, "C06: rewatch passes a wrong old event set")
	}
	if w.mayFail() {
		return errInjected
	}
	if !ok {
		return errNotWatched
	}
	if dup {
		return errors.New("already watched")
	}
	delete(w.m, p)
	w.m[q] = e
	w.r[q] = true
	return nil
}

// zev is an event reported by the platform watcher.
type zev struct {
	p   string
	e   Event
	dir bool
	sys *int
}

func (e *zev) Path() string         { return e.p }
func (e *zev) Event() Event         { return e.e }
func (e *zev) Sys() interface{}     { return e.sys }
func (e *zev) isDir() (bool, error) { return e.dir, nil }

// zreg is the reference registration of one channel on one path.
type zreg struct {
	p   string
	e   Event // every event requested
	re  Event // events requested with "..."
	rec bool
}

const znchan = 3

type zworld struct {
	t    tree
	w    *zspy
	rw   *zrspy // with a natively recursive watcher
	in   chan EventInfo
	ch   [znchan]chan EventInfo
	regs [znchan][]zreg
	dirs []string // existing real directories
	sent int
}

func (z *zworld) reg(c int, p string, e Event, rec bool) {
	re := Event(0)
	if rec {
		re = e
	}
	for i := range z.regs[c] {
		if z.regs[c][i].p == p {
			z.regs[c][i].e |= e
			z.regs[c][i].re |= re
			z.regs[c][i].rec = z.regs[c][i].rec || rec
			return
		}
	}
	z.regs[c] = append(z.regs[c], zreg{p, e, re, rec})
}

// zset is an arbitrary non-empty set of portable and raw events.
func zset(name string) Event {
	e := Event(vU32(name)) & zall
	vAssume(e != 0)
	return e
}

// zkind is an arbitrary single event kind.
func zkind(name string) Event {
	e := Event(vU32(name)) & zall
	vAssume(vAnd(e != 0, e&(e-1) == 0))
	return e
}

func (z *zworld) watch(c int, p string, rec bool, e Event) error {
	arg := p
	if rec {
		arg = p + "/..."
		if p == "/" {
			arg = "/..."
		}
	}
	return z.t.Watch(arg, z.ch[c], e)
}

func (z *zworld) stop(c int) {
	z.t.Stop(z.ch[c])
	z.regs[c] = nil
}

// wants is the set of events channel c listens for on path p, and how many of
// its watchpoints match at most.
func (z *zworld) wants(c int, p string, ev Event) (want bool, most int) {
	par := zparent(p)
	for _, r := range z.regs[c] {
		if r.p == p || r.p == par || (r.rec && zunder(p, r.p)) {
			want = vOr(want, r.e&ev == ev)
			most++
		}
	}
	return
}

// emit reports one event and waits until it was dispatched.
func (z *zworld) emit(ev *zev) {
	z.sent++
	ev.sys = new(int)
	if ev.dir && ev.e == Create {
		z.w.anew = ev.p
	}
	z.in <- ev
	vSettle()
	z.w.anew = ""
}

// checkDelivery asserts C01 and C02 for one reported event.
func (z *zworld) checkDelivery(ev *zev, c01, c02 bool) {
	for c := range z.ch {
		if z.ch[c] == nil {
			continue
		}
		want, most := z.wants(c, ev.p, ev.e)
		got := len(z.ch[c])
		if c01 {
			vAssert(vImplies(want, got >= 1), "C01: a listening channel missed an event")
		}
		if c02 {
			vAssert(vImplies(got >= 1, want), "C02: a channel received an event it did not ask for")
			vAssert(got <= most, "C02: more copies than matching watchpoints")
		}
		for i := 0; i < got; i++ {
			x := <-z.ch[c]
			if c01 {
				vAssert(vAnd(x.Event() == ev.e, vAnd(x.Path() == ev.p, x.Sys() == interface{}(ev.sys))), "C01: the delivered event differs from the reported one")
			}
			if c02 {
				vAssert(x.Event()&zint == 0, "C02: internal flags delivered to a user channel")
			}
		}
	}
}

// needed computes which events must be (lo) watched on a path and whether any
// watch may remain there.
func (z *zworld) needed(p string, isdir bool) (lo Event, may bool) {
	for c := range z.regs {
		for _, r := range z.regs[c] {
			if r.p == p {
				lo |= r.e
				may = true
			}
			if r.rec && (r.p == p || zunder(p, r.p)) {
				if isdir {
					lo |= r.re | Create
				}
				may = true
			}
		}
	}
	return
}

// checkCoverage asserts C04 (every watchpoint is backed) and C05 (nothing is
// watched without a listener).
func (z *zworld) checkCoverage(c04, c05 bool) {
	if z.rw != nil {
		z.checkRecCoverage()
		return
	}
	if c04 {
		for _, d := range z.dirs {
			lo, _ := z.needed(d, true)
			if lo != 0 || true {
				vAssert(z.w.m[d]&lo == lo, "C04: a live watchpoint is not covered by an OS watch")
			}
		}
		for c := range z.regs {
			for _, r := range z.regs[c] {
				vAssert(z.w.m[r.p]&r.e == r.e, "C04: a live watchpoint is not covered by an OS watch")
			}
		}
	}
	if c05 {
		for p := range z.w.m {
			_, may := z.needed(p, true)
			vAssert(may, "C05: an OS watch outlived its last listener")
		}
	}
}

// recCovered reports whether every registration is covered by the watch list
// of a natively recursive watcher, and nothing more is watched.
func (z *zworld) recCovered() (live, spare, nested bool) {
	rw := z.rw
	live, spare, nested = true, true, true
	for c := range z.regs {
		for _, r := range z.regs[c] {
			var have Event
			for p, e := range rw.m {
				if p == r.p && (rw.r[p] || !r.rec) || rw.r[p] && zunder(r.p, p) {
					have |= e
				}
			}
			live = vAnd(live, have&r.e == r.e)
		}
	}
	for p, e := range rw.m {
		var used Event
		for c := range z.regs {
			for _, r := range z.regs[c] {
				if r.p == p || zunder(r.p, p) {
					used |= r.e
				}
			}
		}
		spare = vAnd(spare, vAnd(used != 0, e&^used == 0))
		for q := range rw.m {
			if rw.r[p] && zunder(q, p) {
				nested = false
			}
		}
	}
	return
}

// checkRecCoverage asserts C17.
func (z *zworld) checkRecCoverage() {
	live, spare, nested := z.recCovered()
	vAssert(live, "C17: a live watchpoint is not covered by an OS watch")
	vAssert(spare, "C17: an OS watch nobody, or for events nobody, listens for")
	vAssert(nested, "C17: an OS watch below a recursive one")
}

func znew(nch, buf int) *zworld {
	z := &zworld{w: &zspy{m: map[string]Event{}}}
	z.in = make(chan EventInfo, 16)
	if vParam("native", 0) == 1 {
		z.rw = &zrspy{zspy: z.w, r: map[string]bool{}}
		z.t = newRecursiveTree(z.rw, z.in)
	} else {
		z.t = newNonrecursiveTree(z.w, z.in, nil)
	}
	for i := 0; i < nch; i++ {
		z.ch[i] = make(chan EventInfo, buf)
	}
	vSettle()
	return z
}

// zevpaths are the paths events are reported on.
var zevpaths = []string{"/w/r", "/w/r/x", "/w/r/x/y", "/w/r/f", "/w/r/x/g", "/w/r/x/y/g", "/w/r/xx", "/w/r/xx/g", "/w/q/z", "/w/rx"}

// zuniverse builds the standard layout and returns the watchable paths.
func (z *zworld) universe(n int) []string {
	f := zfsNew()
	if vParam("root", 0) == 1 {
		f.add("/w", zDir)
		f.add("/w/r", zDir)
		f.add("/q", zDir)
		l := f.add("/l", zLink)
		l.target = "/q"
		z.dirs = []string{"/", "/w", "/w/r", "/q"}
		zevpaths = []string{"/", "/w", "/v", "/w/r", "/w/g", "/w/r/g", "/q/g"}
		return []string{"/", "/w", "/w/r", "/q"}[:n]
	}
	f.add("/w", zDir)
	f.add("/w/r", zDir)
	f.add("/w/r/x", zDir)
	f.add("/w/r/x/y", zDir)
	f.add("/w/r/f", zFile)
	l := f.add("/w/r/l", zLink)
	l.target = "/w/q"
	f.add("/w/q", zDir)
	f.add("/w/q/z", zDir)
	f.add("/w/r/xx", zDir)
	z.dirs = []string{"/w", "/w/r", "/w/r/x", "/w/r/x/y", "/w/r/xx", "/w/q", "/w/q/z"}
	ps := []string{"/w/r", "/w/r/x", "/w/r/x/y", "/w/r/f", "/w/r/xx"}
	if vParam("sib", 0) == 1 {
		ps = []string{"/w/r/x", "/w/r/xx", "/w/r", "/w/r/x/y"}
	}
	return ps[:n]
}

// history performs k symbolic API calls.
func (z *zworld) history(k, nch int, paths []string, after func(i int)) {
	used := 0
	for i := 0; i < k; i++ {
		n := nch
		if used+1 < n {
			n = used + 1 // channels are interchangeable
		}
		nw := len(paths) * 2
		op := nw
		if at := vParam("stopat", 0); at == 0 {
			op = vChoose("op", nw+1)
		} else if at != i+1 {
			op = vChoose("op", nw)
		}
		if op == nw {
			if i == 0 {
				vEnd() // stopping an unknown channel first: covered by a later stop
			}
			c := vChoose("stopchan", n)
			z.stop(c)
			vTrace("Stop", c)
		} else {
			c := vChoose("chan", n)
			if c == used {
				used++
			}
			p, rec := paths[op/2], op%2 == 1
			if p == "/w/r/f" && rec {
				vEnd() // recursive watch of a file is an error
			}
			e := zset("eset")
			vTrace("Watch", p, rec, c, uint32(e))
			before := z.w.n
			sub := false
			for _, r := range z.regs[c] {
				if r.p == p && rec {
					sub = r.re&e == e
				} else if r.p == p {
					sub = r.e&e == e
				}
			}
			err := z.watch(c, p, rec, e)
			vAssert(err == nil, "C01: a valid Watch failed")
			z.reg(c, p, e, rec)
			if z.w.strict {
				vAssert(vImplies(sub, z.w.n == before), "C06: a Watch that adds nothing issued an OS request")
			}
		}
		if after != nil {
			after(i)
		}
	}
	// a call without events changes nothing
	before := z.w.n
	must(z.t.Watch(paths[0]+"/...", z.ch[nch-1]))
	must(z.t.Watch(paths[len(paths)-1], z.ch[0]))
	vAssert(z.w.n == before, "C06: a Watch that adds nothing issued an OS request")
}

// vTake turns a condition into a decision.
func vTake(c bool) bool {
	if c {
		return true
	}
	return false
}

// drain empties a channel.
func (z *zworld) drain(c int) int {
	n := 0
	for len(z.ch[c]) > 0 {
		_, ok := <-z.ch[c]
		vAssert(ok, "C03: Stop closed the channel")
		n++
	}
	return n
}
