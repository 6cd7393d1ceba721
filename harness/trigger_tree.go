package notify

import (
	"io/fs"
	"os"
	"syscall"
)

// HC20tree: the tree over the trigger watcher.

//verif:replace os.Lstat
func tLstat(p string) (os.FileInfo, error) { return tStat(p) }

//verif:replace os.ReadDir
func tReadDir(p string) (r []fs.DirEntry, err error) {
	d := tfs.find(p)
	if d == nil || !d.dir {
		return nil, &os.PathError{Op: "open", Path: p, Err: syscall.ENOENT}
	}
	for _, x := range tfs.nodes {
		if !x.gone && tparent(x.path) == p {
			r = append(r, fs.FileInfoToDirEntry(tinfo{tbase(x.path), x.dir}))
		}
	}
	return
}

type treg struct {
	p   string
	e   Event
	rec bool
}

type ttree struct {
	t    tree
	c    [2]chan EventInfo
	regs [2][]treg
}

func tbelow(p, d string) bool { return len(p) > len(d) && p[:len(d)] == d && p[len(d)] == '/' }

// own is what channel i requested of p, and what it may get: a channel has one
// watchpoint on a path.
func (t *ttree) own(i int, p string) (e, most Event) {
	for _, r := range t.regs[i] {
		rec := r.rec
		for _, x := range t.regs[i] {
			rec = rec || x.p == r.p && x.rec
		}
		switch {
		case r.p == p || r.p == tparent(p) || r.rec && tbelow(p, r.p):
			e |= r.e
			most |= r.e
		case rec && tbelow(p, r.p):
			most |= r.e
		}
	}
	return
}

// watched says whether directory p is watched.
func (t *ttree) watched(p string) bool {
	for i := range t.regs {
		for _, r := range t.regs[i] {
			if r.p == p || r.rec && tbelow(p, r.p) {
				return true
			}
		}
	}
	return false
}

// call is an arbitrary Watch or Stop.
func (t *ttree) call() {
	paths := []string{"/w/r", "/w/r/d", "/w/r/f", "/w"}[:vParam("paths", 3)]
	i := vChoose("ch", 2)
	op := vChoose("call", 2*len(paths)+1)
	if op == 2*len(paths) {
		if len(t.regs[i]) == 0 {
			vEnd()
		}
		vTrace("Stop", i)
		t.t.Stop(t.c[i])
		t.regs[i] = nil
		return
	}
	p, rec := paths[op/2], op%2 == 1
	if tfs.find(p) == nil || rec && !tfs.find(p).dir {
		vEnd()
	}
	e := tset("set")
	vTrace("Watch", p, rec, i, uint32(e))
	arg := p
	if rec {
		arg += "/..."
	}
	must(t.t.Watch(arg, t.c[i], e))
	t.regs[i] = append(t.regs[i], treg{p, e, rec})
}

// texp is a set of events expected of a path.
type texp struct {
	p   string
	nat Event
	add Event // Create
	dir bool
}

// check asserts that each channel got the expected events and no other one.
func (t *ttree) check(exp ...texp) {
	vSettle()
	for i := range t.c {
		got := tdrain(t.c[i])
		for _, x := range exp {
			own, most := t.own(i, x.p)
			want, all := twant(own, x.nat)|own&x.add, Event(0)
			most = twant(most, x.nat) | most&x.add
			var rest []tev
			for _, g := range got {
				if g.p != x.p {
					rest = append(rest, g)
					continue
				}
				all |= g.e
				vAssert(vAnd(g.e != 0, g.e&^most == 0), "C20: a channel received an event it did not ask for")
				vAssert(g.d == x.dir, "C20: directory and file confused")
			}
			vAssert(want&^all == 0, "C20: a listening channel missed an event")
			got = rest
		}
		vAssert(len(got) == 0, "C20: a channel received an event that did not happen")
	}
}

// change changes something below /w/r.
func (t *ttree) change(i int) {
	var nodes []*tnode
	for _, n := range tfs.nodes {
		if !n.gone && tbelow(n.path, "/w/r") {
			nodes = append(nodes, n)
		}
	}
	op := vChoose("op", 2+4*len(nodes))
	if op < 2 {
		dirs := []string{"/w/r"}
		for _, n := range nodes {
			if n.dir {
				dirs = append(dirs, n.path)
			}
		}
		p := dirs[vChoose("in", len(dirs))] + "/n" + string(rune('0'+i))
		vTrace("create", p, op == 1)
		tfs.create(p, op == 1)
		t.check(texp{p: p, add: Create, dir: op == 1})
		return
	}
	n := nodes[(op-2)/4]
	p := n.path
	switch what := (op - 2) % 4; what {
	case tWrite, tAttrib:
		if n.dir {
			vEnd()
		}
		vTrace("change", p, what)
		tnotify(n, what)
		t.check(texp{p: p, nat: tnative(n, what)})
	case tRemove:
		for _, x := range tfs.nodes {
			if !x.gone && tparent(x.path) == p {
				vEnd()
			}
		}
		vTrace("remove", p)
		tfs.remove(n)
		t.check(texp{p: p, nat: tnative(n, tRemove), dir: n.dir})
		t.drop(p)
	case tRenameFrom:
		to := "/n" + string(rune('0'+i))
		exp := []texp{{p: p, nat: tnative(n, tRenameFrom), dir: n.dir}}
		if t.watched(p) {
			for _, x := range nodes {
				if tbelow(x.path, p) {
					exp = append(exp, texp{p: x.path, nat: tnative(n, tRenameFrom), dir: x.dir})
				}
			}
		}
		vTrace("rename", p, to)
		tfs.rename(n, to)
		t.check(exp...)
		t.drop(p)
	}
}

// drop forgets the watchpoints on a path that has gone.
func (t *ttree) drop(p string) {
	for i := range t.regs {
		for _, r := range t.regs[i] {
			if r.p == p || tbelow(r.p, p) {
				vEnd()
			}
		}
	}
}

func HC20tree() {
	c := tworld()
	t := &ttree{}
	in := make(chan EventInfo, 32)
	_ = c
	t.t = newNonrecursiveTree(newWatcher(in), in, make(chan EventInfo, 16))
	for i := range t.c {
		t.c[i] = make(chan EventInfo, 32)
	}
	for i, k := 0, vParam("k", 2); i < k; i++ {
		if i > 0 && vChoose("more", 2) == 0 {
			break
		}
		t.call()
	}
	vSettle()
	for i, n := 0, vParam("n", 1); i < n; i++ {
		t.change(i)
	}
	vReach("delivered")
	t.t.Stop(t.c[0])
	t.t.Stop(t.c[1])
	vSettle()
	tleft(false)
}
