package notify

import "golang.org/x/sys/unix"

// HC22: the package API, the tree over the inotify watcher over the model of the kernel, files
// being the ones of the file-system model.

const eRaw = Event(unix.IN_ATTRIB | unix.IN_MODIFY | unix.IN_CLOSE_WRITE | unix.IN_MOVED_FROM | unix.IN_MOVED_TO | unix.IN_CREATE | unix.IN_DELETE | unix.IN_DELETE_SELF | unix.IN_MOVE_SELF)

type ereg struct {
	p    string
	e    Event
	rec  bool
	gone bool // its path has been removed
}

// erec is one record of the kernel about path p, through its directory's watch
// or its own.
type erec struct {
	p    string
	bit  uint32
	self bool
}

type eworld struct {
	k    *kernT
	c    [2]chan EventInfo
	regs [2][]ereg
	ino  int
	self bool // records of a directory itself say it is one
	gone string
}

func (w *eworld) mk(p string, kind int) {
	zfs.add(p, kind).target = "/q"
	w.ino++
	w.k.paths[p] = w.ino
}

func ewnew() *eworld {
	w := &eworld{k: knew()}
	zfsNew()
	for _, p := range []string{"/w", "/w/r", "/w/r/d", "/q"} {
		w.mk(p, zDir)
	}
	w.mk("/w/r/f", zFile)
	defaultTree = newTree()
	for i := range w.c {
		w.c[i] = make(chan EventInfo, 64)
	}
	w.self = vChoose("self", vParam("selfs", 2)) == 0
	return w
}

// must is what channel c asked for of a record, and is certain to have the
// kernel asked for.
func (w *eworld) must(c int, r erec) (e Event) {
	for _, x := range w.regs[c] {
		switch {
		case x.gone:
		case r.self:
			if x.p == r.p || x.rec && zunder(r.p, x.p) && zfs.find(r.p) != nil && zfs.find(r.p).kind == zDir {
				e |= x.e
			}
		case x.p == zparent(r.p) || x.rec && zunder(r.p, x.p):
			e |= x.e
		}
	}
	return
}

// most is what channel c may get of a path; it has one watchpoint per path.
func (w *eworld) most(c int, p string) (e Event) {
	for _, x := range w.regs[c] {
		rec := false
		for _, y := range w.regs[c] {
			rec = rec || x.p == y.p && y.rec
		}
		if x.p == p || x.p == zparent(p) || rec && zunder(p, x.p) {
			e |= x.e
		}
	}
	return
}

func (w *eworld) covered(p string) bool {
	for c := range w.regs {
		for _, x := range w.regs[c] {
			if x.rec && zunder(p, x.p) {
				return true
			}
		}
	}
	return false
}

// call is an arbitrary Watch or Stop.
func (w *eworld) call() {
	paths := []string{"/w/r", "/w/r/d", "/w", "/w/r/f"}[:vParam("paths", 3)]
	i := 0
	if len(w.regs[0])+len(w.regs[1]) > 0 {
		i = vChoose("ch", 2) // channels are interchangeable
	}
	op := vChoose("call", 2*len(paths)+1)
	if op == 2*len(paths) {
		if len(w.regs[i]) == 0 {
			vEnd()
		}
		vTrace("Stop", i)
		Stop(w.c[i])
		w.regs[i] = nil
		return
	}
	p, rec := paths[op/2], op%2 == 1
	f := zfs.find(p)
	if f == nil || rec && f.kind != zDir {
		vEnd()
	}
	if n := len(w.regs[0]) + len(w.regs[1]); vParam("replace", 0) == 1 && (n == 0 && !(rec && p == "/w/r") || n == 1 && (zparent(p) != "/w/r" || i == 0)) {
		vEnd()
	}
	for c := range w.regs {
		for _, x := range w.regs[c] {
			if x.gone && (x.p == p || rec && zunder(x.p, p)) {
				vEnd()
			}
		}
	}
	e := Event(vU32("set")) & (All | eRaw) & Event(vParam("mask", -1))
	vAssume(e != 0)
	vTrace("Watch", p, rec, i, uint32(e))
	arg := p
	if rec {
		arg += "/..."
	}
	must(Watch(arg, w.c[i], e&All, e&^All))
	w.regs[i] = append(w.regs[i], ereg{p, e, rec, false})
}

var eport = []struct {
	e Event
	m uint32
}{{Create, unix.IN_CREATE | unix.IN_MOVED_TO}, {Remove, unix.IN_DELETE | unix.IN_DELETE_SELF}, {Write, unix.IN_MODIFY}, {Rename, unix.IN_MOVED_FROM | unix.IN_MOVE_SELF}}

// happen has the kernel report the records, all at once; inos are the numbers
// the paths had when it happened.
func (w *eworld) happen(dir bool, rs []erec, self int) {
	k := w.k
	for _, r := range rs {
		m, name, ino := r.bit, "", self
		if dir && (!r.self || w.self) {
			m |= unix.IN_ISDIR
		}
		if !r.self {
			par := zparent(r.p)
			ino = k.paths[par]
			name = kpad(r.p[len(par)+1:])
		}
		if i := k.byIno(ino); i >= 0 && vTake(k.watches[i].mask&r.bit != 0) {
			k.queue = append(k.queue, krec{wd: k.watches[i].wd, mask: m, name: name})
		}
	}
}

// check asserts that each channel gets what it asked for of the records and
// nothing else.
func (w *eworld) check(rs []erec) {
	for c := range w.c {
		var must []Event
		for _, r := range rs {
			must = append(must, w.must(c, r))
		}
		w.check1(c, rs, must)
	}
}

func (w *eworld) check1(c int, rs []erec, must []Event) {
	var got []EventInfo
	for len(w.c[c]) > 0 {
		got = append(got, <-w.c[c])
	}
	has := func(p string, e Event) (ok bool) {
		for _, g := range got {
			if g.Path() == p {
				ok = vOr(ok, g.Event() == e)
			}
		}
		return
	}
	all := true
	for i, r := range rs {
		for _, x := range eport {
			if r.bit&x.m != 0 {
				all = vAnd(all, vImplies(must[i]&x.e != 0, has(r.p, x.e)))
			}
		}
		all = vAnd(all, vImplies(must[i]&Event(r.bit) != 0, has(r.p, Event(r.bit))))
	}
	vAssert(all, "C22: a listening channel missed an event")
	if len(got) == 0 {
		return
	}
	all = true
	asked := true
	for _, g := range got {
		ok := false
		for _, r := range rs {
			if r.p != g.Path() {
				continue
			}
			e := g.Event()
			ok = vOr(ok, e == Event(r.bit))
			for _, x := range eport {
				if r.bit&x.m != 0 {
					ok = vOr(ok, e == x.e)
				}
			}
		}
		all = vAnd(all, ok)
		asked = vAnd(asked, g.Event()&^w.most(c, g.Path()) == 0)
	}
	vAssert(all, "C22: a channel received an event that did not happen")
	vAssert(asked, "C22: a channel received an event it did not ask for")
}

// settle has everything processed and checked.
func (w *eworld) settle(rs []erec) {
	w.k.poke()
	vSettle()
	vAssert(vBlocked() == 0, "C22: stuck")
}

// drop takes the watchpoints on p, which has gone, for lost: they may be told
// of what happens on it later or not. What has moved away is not followed.
func (w *eworld) drop(p string, moved bool) {
	for c := range w.regs {
		for i, r := range w.regs[c] {
			if r.p == p || zunder(r.p, p) {
				if moved {
					vEnd()
				}
				w.regs[c][i].gone = true
				w.gone = p
			}
		}
	}
}

// change changes something below /w/r.
func (w *eworld) change(i int) {
	var nodes []*zent
	for _, n := range zfs.ents {
		if n.exists && zunder(n.path, "/w/r") {
			nodes = append(nodes, n)
		}
	}
	k := w.k
	name := "/n" + string(rune('0'+i))
	op := vChoose("op", 3+4*len(nodes))
	if op < 3 {
		dirs := []string{"/w/r"}
		for _, n := range nodes {
			if n.kind == zDir {
				dirs = append(dirs, n.path)
			}
		}
		p := dirs[vChoose("in", len(dirs))] + name
		for _, n := range zfs.ents {
			// a name used before
			if !n.exists && zparent(n.path) == zparent(p) && zfs.find(n.path) == nil {
				if vChoose("again", 2) == 1 {
					p = n.path
				}
				break
			}
		}
		kind, rs := zDir, []erec{{p, unix.IN_CREATE, false}}
		if op == 0 {
			kind, rs = zFile, append(rs, erec{p, unix.IN_CLOSE_WRITE, false})
		}
		if vParam("replace", 0) == 1 && (i == 0 || i == 1 && p != w.gone) {
			vEnd()
		}
		vTrace("create", p, op)
		w.mk(p, kind)
		if op == 2 {
			w.mk(p+"/a", zDir)
			w.mk(p+"/b", zFile)
		}
		w.happen(kind == zDir, rs, 0)
		w.settle(rs)
		w.check(rs)
		return
	}
	n := nodes[(op-3)/4]
	p := n.path
	ino, dir := k.paths[p], n.kind == zDir
	if vParam("replace", 0) == 1 && (i == 0 && ((op-3)%4 != 1 || len(w.regs[1]) == 0 || p != w.regs[1][0].p) || i == 1) {
		vEnd()
	}
	switch (op - 3) % 4 {
	case 0:
		bit := uint32(unix.IN_ATTRIB)
		if !dir && vChoose("attrib", 2) == 0 {
			bit = unix.IN_MODIFY
		}
		rs := []erec{{p, bit, false}, {p, bit, true}}
		vTrace("change", p, bit)
		w.happen(dir, rs, ino)
		w.settle(rs)
		w.check(rs)
	case 1:
		for _, x := range nodes {
			if zparent(x.path) == p {
				vEnd()
			}
		}
		rs := []erec{{p, unix.IN_DELETE, false}, {p, unix.IN_DELETE_SELF, true}}
		if vChoose("order", 2) == 1 {
			rs[0], rs[1] = rs[1], rs[0]
		}
		if !dir {
			rs = append([]erec{{p, unix.IN_ATTRIB, true}}, rs...)
		}
		vTrace("remove", p)
		w.happen(dir, rs, ino)
		var must [2][]Event
		for c := range w.c {
			for _, r := range rs {
				must[c] = append(must[c], w.must(c, r))
			}
		}
		n.exists = false
		delete(k.paths, p)
		if i := k.byIno(ino); i >= 0 {
			k.rmWatch(i)
		}
		w.settle(rs)
		for c := range w.c {
			w.check1(c, rs, must[c])
		}
		w.drop(p, false)
	case 2, 3: // within the watched directory or out of it
		q := "/w/r" + name
		if (op-3)%4 == 3 {
			q = "/q" + name
		} else if vChoose("down", 2) == 1 {
			q = "/w/r/d" + name
			if f := zfs.find("/w/r/d"); f == nil || f.kind != zDir || p == "/w/r/d" {
				vEnd()
			}
		}
		rs := []erec{{p, unix.IN_MOVED_FROM, false}, {q, unix.IN_MOVED_TO, false}, {p, unix.IN_MOVE_SELF, true}}
		vTrace("rename", p, q)
		w.happen(dir, rs, ino)
		var must [2][]Event
		for c := range w.c {
			for _, r := range rs {
				must[c] = append(must[c], w.must(c, r))
			}
		}
		var moved []*zent
		for _, x := range zfs.ents {
			if x.exists && (x == n || zunder(x.path, p)) {
				moved = append(moved, x)
			}
		}
		for _, x := range moved {
			x.exists = false
			to := q + x.path[len(p):]
			zfs.add(to, x.kind).target = x.target
			k.paths[to] = k.paths[x.path]
			delete(k.paths, x.path)
		}
		w.settle(rs)
		for c := range w.c {
			w.check1(c, rs, must[c])
		}
		w.drop(p, true)
		if dir && w.covered(p) && !w.covered(q) {
			vEnd() // the watch stays with the directory
		}
	}
}

func HC22() {
	w := ewnew()
	vMapOrder(vParam("maporder", 0))
	for i, k := 0, vParam("k", 2); i < k; i++ {
		if i > 0 && vChoose("more", 2) == 0 {
			break
		}
		w.call()
	}
	vSettle()
	mid := vParam("mid", 0)
	for i, n := 0, vParam("n", 1); i < n; i++ {
		w.change(i)
		if mid > 0 && i+1 < n && vChoose("mid", 2) == 1 {
			w.call()
			vSettle()
			mid--
		}
	}
	vReach("delivered")
	Stop(w.c[0])
	Stop(w.c[1])
	vSettle()
	vAssert(len(w.k.watches) == 0, "C22: the kernel still watches something")
	w.settle(nil)
	vAssert(len(w.c[0])+len(w.c[1]) == 0, "C22: an event arrived after Stop")
}
