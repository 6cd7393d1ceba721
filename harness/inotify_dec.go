package notify

import "golang.org/x/sys/unix"

// ksysOK compares the Sys value of a delivered event with its record.
func ksysOK(ei EventInfo, r krec) bool {
	s, ok := ei.Sys().(*unix.InotifyEvent)
	if !ok {
		return false
	}
	return vAnd(s.Wd == r.wd, vAnd(s.Mask == r.mask, s.Cookie == r.cookie))
}

// kkind is the mask of one record as the kernel composes it.
func kkind(name string, self bool) uint32 {
	m := vU32(name)
	t := m & unix.IN_ALL_EVENTS
	vAssume(vAnd(t != 0, vAnd(t&(t-1) == 0, m&^(unix.IN_ALL_EVENTS|unix.IN_ISDIR) == 0)))
	return m
}

// HC12: one watch with an arbitrary event set, one record of any kind.
func HC12() {
	k := knew()
	k.paths["/w/r"] = 1
	c := make(chan EventInfo, 8)
	w := newWatcher(c)
	e := Event(vU32("eset"))
	if vParam("valid", 0) == 1 {
		vAssume(vAnd(e != 0, e&^(All|Event(unix.IN_ALL_EVENTS)) == 0))
	} else if vTake(e&^(All|Event(unix.IN_ALL_EVENTS)) != 0) {
		err := w.Watch("/w/r", e)
		vAssert(err != nil, "C12: an event set with unsupported bits is accepted")
		vAssert(len(k.watches) == 0, "C12: a refused event set is watched")
		vReach("refused")
		return
	}
	vAssume(e != 0)
	if vChoose("re", 2) == 1 {
		e0 := Event(vU32("eset0"))
		vAssume(vAnd(e0 != 0, e0&^(All|Event(unix.IN_ALL_EVENTS)) == 0))
		must(w.Watch("/w/r", e0))
		err := w.Rewatch("/w/r", e0, e)
		vAssert(err == nil, "C12: a supported event set is refused")
	} else {
		err := w.Watch("/w/r", e)
		vAssert(err == nil, "C12: a supported event set is refused")
	}
	vAssert(len(k.watches) == 1 && k.watches[0].mask == kmask(e), "C12: the kernel mask is not the one of the event set")
	vSettle()
	wd := k.watches[0].wd
	r := krec{wd: wd, mask: kkind("mask", false), cookie: vU32("cookie")}
	if vChoose("named", 2) == 1 {
		r.name = kpad("f")
	}
	// the kernel reports what was asked for only
	vAssume(r.mask&k.watches[0].mask != 0 || vChoose("late", 2) == 1)
	vTrace("eset", uint32(e), "mask", r.mask)
	want := kexpect(e, "/w/r", r)
	k.raw(r)
	vSettle()
	vAssert(len(c) == len(want), "C12: a record is not reported as the requested events")
	for n := len(c); n > 0; n-- {
		ei := <-c
		ok := false
		for _, x := range want {
			ok = vOr(ok, vAnd(ei.Event() == x.ev, vAnd(ei.Path() == x.path, ksysOK(ei, r))))
		}
		vAssert(ok, "C12: an event is reported wrongly")
		d, err := ei.(isDirer).isDir()
		vAssert(err == nil && d == (r.mask&unix.IN_ISDIR != 0), "C12: the kind of the object is reported wrongly")
	}
	vReach("reported")
}

// HC13: a buffer of records.
func HC13() {
	k := knew()
	k.paths["/w/r"] = 1
	k.paths["/w/s"] = 2
	c := make(chan EventInfo, 32)
	w := newWatcher(c)
	ps := []string{"/w/r", "/w/s"}
	es := []Event{Create | Remove | Write | InModify | InOpen, Rename | InMovedFrom | InDeleteSelf}
	if vParam("sets", 0) == 1 {
		es[0] = zkset("eset")
	}
	must(w.Watch(ps[0], es[0]))
	must(w.Watch(ps[1], es[1]))
	vSettle()
	wd0, wd1 := k.watches[0].wd, k.watches[1].wd
	n := vChoose("records", vParam("n", 3)+1)
	if n < 2 {
		k.garbage = vChoose("eintr", 2)
	}
	// all records at once, or the last one in a second read
	two := n > 1 && vChoose("reads", 2) == 1
	var want []kwant
	for i := 0; i < n; i++ {
		r := krec{wd: vI32("wd"), cookie: vU32("cookie")}
		if l := []int{0, 1, 16, 15, 31}[vChoose("namelen", vParam("lens", 5))]; l > 0 {
			r.name = kname(l)
		}
		r.mask = vU32("mask")
		vAssume(r.mask&^(unix.IN_ALL_EVENTS|unix.IN_ISDIR|unix.IN_UNMOUNT|unix.IN_Q_OVERFLOW|unix.IN_IGNORED) == 0)
		vTrace("record", r.wd, r.mask, len(r.name))
		if !vTake(r.mask&(unix.IN_Q_OVERFLOW|unix.IN_IGNORED) != 0) {
			t := r.mask & unix.IN_ALL_EVENTS
			vAssume(t&(t-1) == 0)
			if r.wd == wd0 {
				want = append(want, kexpect(es[0], ps[0], r)...)
			} else if r.wd == wd1 {
				want = append(want, kexpect(es[1], ps[1], r)...)
			}
		}
		if two && i == n-1 {
			k.poke()
			vSettle()
		}
		k.queue = append(k.queue, r)
	}
	if n > 0 {
		k.poke()
	}
	vSettle()
	vAssert(len(k.queue) == 0, "C13: records are left unread")
	vAssert(len(c) == len(want), "C13: records are lost or made up")
	var got []EventInfo
	for len(c) > 0 {
		got = append(got, <-c)
	}
	// every record once, those of one kind in order
	for pass := 0; pass < 2; pass++ {
		i := 0
		for _, x := range want {
			raw := x.ev&All == 0
			if raw != (pass == 1) {
				continue
			}
			for i < len(got) && (got[i].Event()&All == 0) != raw {
				i++
			}
			if i == len(got) {
				vFail("C13: records are lost or made up")
				return
			}
			g := got[i]
			i++
			vAssert(vAnd(g.Event() == x.ev, ksysOK(g, x.rec)), "C13: a record is decoded wrongly")
			vAssert(g.Path() == x.path, "C13: the name of a record is decoded wrongly")
		}
	}
	vReach("decoded")
}

// kname is a padded arbitrary name of l bytes.
func kname(l int) string {
	s := vStr("name", l)
	for i := 0; i < l; i++ {
		vAssume(vAnd(s[i] != 0, s[i] != '/'))
	}
	if l == 1 {
		vAssume(s[0] != '.')
	}
	if l == 2 {
		vAssume(vNot(vAnd(s[0] == '.', s[1] == '.')))
	}
	return kpad(s)
}

func zkset(name string) Event {
	e := Event(vU32(name)) & (All | Event(unix.IN_ALL_EVENTS))
	vAssume(e != 0)
	return e
}

// HC13big: a large batch with one arbitrary record among others of maximal
// length.
func HC13big() {
	k := knew()
	k.paths["/w/r"] = 1
	n := vParam("n", 64)
	c := make(chan EventInfo, 2*n+4)
	w := newWatcher(c)
	must(w.Watch("/w/r", Write))
	vSettle()
	wd := k.watches[0].wd
	at := []int{0, n / 2, n - 1}[vChoose("at", 3)]
	long := "n"
	for len(long) < 255 {
		long += "x"
	}
	var want []kwant
	for i := 0; i < n; i++ {
		r := krec{wd: wd, mask: unix.IN_MODIFY, cookie: uint32(i), name: kpad(long)}
		if i == at {
			r.wd = vI32("wd")
			r.mask = kkind("mask", false)
			r.name = []string{"", kpad("f")}[vChoose("name", 2)]
		}
		if r.wd == wd {
			want = append(want, kexpect(Write, "/w/r", r)...)
		}
		k.queue = append(k.queue, r)
	}
	k.poke()
	vSettle()
	vAssert(len(k.queue) == 0, "C13: records are left unread")
	vAssert(len(c) == len(want), "C13: records are lost or made up")
	for _, x := range want {
		if len(c) == 0 {
			break
		}
		g := <-c
		vAssert(vAnd(g.Event() == x.ev, ksysOK(g, x.rec)), "C13: a record is decoded wrongly")
		vAssert(g.Path() == x.path, "C13: the name of a record is decoded wrongly")
	}
	vReach("decoded")
}
