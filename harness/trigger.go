package notify

import (
	"io/fs"
	"os"
	"syscall"
	"time"
)

// HC20*: the trigger watcher (kqueue, FEN) over a model of files whose changes
// the platform model turns into native notifications.

// tnode is a file or directory.
type tnode struct {
	path string
	dir  bool
	gone bool
}

// kinds of change
const (
	tWrite = iota
	tAttrib
	tRemove
	tRenameFrom
	tEntries // a directory changed
)

type tfsT struct {
	nodes []*tnode
	files map[*os.File]*tnode
}

var tfs *tfsT
var tblocked int
var tpause bool // others may run while a directory is being read

func (t *tfsT) find(p string) *tnode {
	for _, n := range t.nodes {
		if n.path == p && !n.gone {
			return n
		}
	}
	return nil
}

func (t *tfsT) add(p string, dir bool) *tnode {
	n := &tnode{path: p, dir: dir}
	t.nodes = append(t.nodes, n)
	return n
}

type tinfo struct {
	name string
	dir  bool
}

func (i tinfo) Name() string       { return i.name }
func (i tinfo) Size() int64        { return 0 }
func (i tinfo) ModTime() time.Time { return time.Time{} }
func (i tinfo) IsDir() bool        { return i.dir }
func (i tinfo) Sys() interface{}   { return tsys() }
func (i tinfo) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}

func tbase(p string) string { return p[len(tparent(p))+1:] }

func tparent(p string) string {
	if p == "" {
		return "-"
	}
	i := len(p) - 1
	for p[i] != '/' {
		i--
	}
	return p[:i]
}

//verif:replace os.Stat
func tStat(p string) (os.FileInfo, error) {
	n := tfs.find(p)
	if n == nil {
		return nil, &os.PathError{Op: "stat", Path: p, Err: syscall.ENOENT}
	}
	return tinfo{tbase(p), n.dir}, nil
}

//verif:replace os.Open
func tOpen(p string) (*os.File, error) {
	n := tfs.find(p)
	if n == nil {
		return nil, &os.PathError{Op: "open", Path: p, Err: syscall.ENOENT}
	}
	f := new(os.File)
	tfs.files[f] = n
	return f, nil
}

//verif:replace (*os.File).Readdir
func tReaddir(f *os.File, n int) (r []os.FileInfo, err error) {
	d := tfs.files[f]
	vAssert(d != nil, "C20: a closed directory is read")
	for _, x := range tfs.nodes {
		if !x.gone && tparent(x.path) == d.path {
			r = append(r, tinfo{tbase(x.path), x.dir})
		}
	}
	if tpause {
		vYield()
	}
	return
}

//verif:replace (*os.File).Close
func tClose(f *os.File) error {
	vAssert(tfs.files[f] != nil, "C20: a directory is closed twice")
	delete(tfs.files, f)
	return nil
}

// ---- changes

func (t *tfsT) parent(n *tnode) *tnode { return t.find(tparent(n.path)) }

func (t *tfsT) create(p string, dir bool) {
	n := t.add(p, dir)
	tnotify(t.parent(n), tEntries)
}

func (t *tfsT) remove(n *tnode) {
	d := t.parent(n)
	n.gone = true
	if vChoose("order", 2) == 0 {
		tnotify(d, tEntries)
		tnotify(n, tRemove)
	} else {
		tnotify(n, tRemove)
		tnotify(d, tEntries)
	}
}

func (t *tfsT) rename(n *tnode, p string) {
	d := t.parent(n)
	for _, x := range t.nodes {
		if len(x.path) > len(n.path) && x.path[:len(n.path)+1] == n.path+"/" {
			x.path = p + x.path[len(n.path):]
		}
	}
	n.path = p
	to := t.parent(n)
	order := vChoose("order", 2)
	if order == 0 {
		tnotify(n, tRenameFrom)
	}
	tnotify(d, tEntries)
	if to != d {
		tnotify(to, tEntries)
	}
	if order == 1 {
		tnotify(n, tRenameFrom)
	}
}

// tset is an arbitrary non-empty event set of the platform.
func tset(name string) Event {
	e := Event(vU32(name)) & (All | tNative) & Event(vParam("mask", -1))
	vAssume(e != 0)
	return e
}

// twant is what must be reported of a notification.
func twant(set, native Event) (e Event) {
	e = set & native
	for _, x := range tmap {
		if native&x.nat != 0 {
			e |= set & x.ev
		}
	}
	return
}

type tev struct {
	p string
	e Event
	d bool
}

func tdrain(c chan EventInfo) (r []tev) {
	for len(c) > 0 {
		ei := <-c
		d, err := ei.(isDirer).isDir()
		vAssert(err == nil, "C20: file or directory unknown")
		r = append(r, tev{ei.Path(), ei.Event(), d})
	}
	return
}

// texpect asserts that the events of got on p carry set, each of it once, and
// returns the rest.
func texpect(got []tev, p string, set Event, dir bool) (rest []tev) {
	var all Event
	for _, x := range got {
		if x.p != p {
			rest = append(rest, x)
			continue
		}
		vAssert(vAnd(x.e != 0, x.e&all == 0), "C20: an event is reported twice")
		all |= x.e
		vAssert(x.d == dir, "C20: directory and file confused")
	}
	vAssert(set&^all == 0, "C20: a requested event is not reported")
	vAssert(all&^set == 0, "C20: an event is reported that was not requested")
	return
}

func tworld() chan EventInfo {
	tfs = &tfsT{files: map[*os.File]*tnode{}}
	tfs.add("", true)
	tfs.add("/w", true)
	tfs.add("/w/r", true)
	tfs.add("/w/r/f", false)
	tfs.add("/w/r/d", true)
	tfs.add("/w/r/d/g", false)
	tinit()
	tblocked = vBlocked()
	return make(chan EventInfo, 32)
}

func tclose(w watcher) {
	if err := w.Close(); err != nil {
		vTrace("Close", err.Error())
		vFail("C20: Close fails")
	}
	vSettle()
	vAssert(vBlocked() == tblocked, "C20: the watcher does not stop")
	tleft(true)
}

// tsets holds what is watched.
var tsets map[string]Event

// town is what is requested of n.
func town(n *tnode) Event { return tsets[n.path] | tsets[tparent(n.path)] }

// HC20: a directory is watched with an arbitrary set; then files are created,
// changed, renamed and removed in it.
func HC20() {
	c := tworld()
	w := newWatcher(c)
	e := tset("set")
	switch vChoose("how", vParam("hows", 2)) {
	case 0:
		must(w.Watch("/w/r", e))
	case 1:
		was := tset("was")
		must(w.Watch("/w/r", was))
		must(w.Rewatch("/w/r", was, e))
	}
	tsets = map[string]Event{"/w/r": e}
	vSettle()
	for i, n := 0, vParam("n", 2); i < n; i++ {
		tchange(c, "/w/r", i)
	}
	vReach("reported")
	must(w.Unwatch("/w/r"))
	tquiet(c)
	tclose(w)
}

// HC20nest: a directory and its parent are watched, and one of them possibly
// not any more.
func HC20nest() {
	c := tworld()
	w := newWatcher(c)
	tsets = map[string]Event{"/w": tset("above"), "/w/r": tset("set")}
	dirs := []string{"/w", "/w/r"}
	if vChoose("first", 2) == 1 {
		dirs[0], dirs[1] = dirs[1], dirs[0]
	}
	for _, p := range dirs {
		must(w.Watch(p, tsets[p]))
	}
	vSettle()
	if i := vChoose("stop", 3); i > 0 {
		must(w.Unwatch(dirs[i-1]))
		delete(tsets, dirs[i-1])
	}
	for i, n := 0, vParam("n", 1); i < n; i++ {
		dir := "/w/r"
		if vChoose("dir", 2) == 1 {
			dir = "/w"
		}
		if tsets[dir] == 0 || tfs.find(dir) == nil {
			vEnd()
		}
		tchange(c, dir, i)
	}
	vReach("reported")
	for _, p := range dirs {
		if tsets[p] != 0 {
			must(w.Unwatch(p))
		}
	}
	tquiet(c)
	tclose(w)
}

// tquiet asserts that nothing is watched.
func tquiet(c chan EventInfo) {
	tleft(false)
	for _, n := range tfs.nodes {
		if !n.gone {
			tnotify(n, tWrite)
			tnotify(n, tAttrib)
		}
	}
	vSettle()
	vAssert(len(c) == 0, "C20: an event is reported after Unwatch")
}

// tchange changes something in a watched directory.
func tchange(c chan EventInfo, dir string, i int) {
	var nodes []*tnode
	for _, n := range tfs.nodes {
		if !n.gone && tparent(n.path) == dir {
			nodes = append(nodes, n)
		}
	}
	fresh := dir + "/n" + string(rune('0'+i))
	for _, n := range tfs.nodes { // the name of a removed one
		if n.gone && tparent(n.path) == dir && tfs.find(n.path) == nil && vChoose("again", 2) == 1 {
			fresh = n.path
			break
		}
	}
	var got []tev
	ops := 3 + 4*len(nodes)
	if n := vParam("ops", 99); n < ops {
		ops = n
	}
	op := vChoose("op", ops)
	switch op {
	case 0, 1:
		vTrace("create", fresh, op == 1)
		tfs.create(fresh, op == 1)
		vSettle()
		got = texpect(tdrain(c), fresh, tsets[dir]&Create, op == 1)
	case 2: // in a directory below
		below := dir + "/d"
		if tfs.find(below) == nil {
			vEnd()
		}
		vTrace("create below")
		tfs.create(below+fresh[len(dir):], false)
		vSettle()
		got = tdrain(c)
	default:
		n := nodes[(op-3)/4]
		p, own := n.path, town(n)
		switch what := (op - 3) % 4; what {
		case tWrite, tAttrib:
			if n.dir {
				vEnd()
			}
			vTrace("change", p, what)
			tnotify(n, what)
			vSettle()
			got = texpect(tdrain(c), p, twant(own, tnative(n, what)), false)
		case tRemove:
			for _, x := range tfs.nodes {
				if !x.gone && tparent(x.path) == p {
					vEnd()
				}
			}
			vTrace("remove", p)
			tfs.remove(n)
			vSettle()
			got = texpect(tdrain(c), p, twant(own, tnative(n, tRemove)), n.dir)
			delete(tsets, p)
		case tRenameFrom:
			to := fresh
			if vChoose("out", 2) == 1 {
				to = "/n" + string(rune('0'+i))
			}
			var below []tev
			if tsets[p] != 0 { // its entries are renamed, too
				for _, x := range tfs.nodes {
					if !x.gone && tparent(x.path) == p {
						below = append(below, tev{x.path, twant(own, tnative(n, tRenameFrom)), x.dir})
					}
				}
			}
			delete(tsets, p)
			vTrace("rename", p, to)
			tfs.rename(n, to)
			vSettle()
			got = texpect(tdrain(c), p, twant(own, tnative(n, tRenameFrom)), n.dir)
			for _, x := range below {
				got = texpect(got, x.p, x.e, x.d)
			}
			if tparent(to) == dir {
				got = texpect(got, to, tsets[dir]&Create, n.dir)
			}
		}
	}
	vAssert(len(got) == 0, "C20: an event is reported that did not happen")
}

// HC20file: a file is watched on its own or next to its directory.
func HC20file() {
	c := tworld()
	w := newWatcher(c)
	e, de := tset("set"), Event(0)
	with := vChoose("with", 4)
	switch with {
	case 1:
		de = tset("dirset")
		must(w.Watch("/w/r", de))
		must(w.Watch("/w/r/f", e))
	case 2:
		de = tset("dirset")
		must(w.Watch("/w/r/f", e))
		must(w.Watch("/w/r", de))
	case 3:
		must(w.Watch("/w/r", tset("dirset")))
		must(w.Watch("/w/r/f", e))
		must(w.Unwatch("/w/r"))
	default:
		must(w.Watch("/w/r/f", e))
	}
	vSettle()
	f := tfs.find("/w/r/f")
	for _, k := range []int{tWrite, tAttrib} {
		tnotify(f, k)
		vSettle()
		vAssert(len(texpect(tdrain(c), "/w/r/f", twant(e|de, tnative(f, k)), false)) == 0, "C20: an event is reported that did not happen")
	}
	switch vChoose("op", 3) {
	case 0:
		must(w.Unwatch("/w/r/f"))
		tnotify(f, tWrite)
		vSettle()
		vAssert(len(texpect(tdrain(c), "/w/r/f", twant(de, tnative(f, tWrite)), false)) == 0, "C20: an event is reported that did not happen")
		if de != 0 {
			must(w.Unwatch("/w/r"))
		}
		tleft(false)
	case 1:
		tfs.remove(f)
		vSettle()
		vAssert(len(texpect(tdrain(c), "/w/r/f", twant(e|de, tnative(f, tRemove)), false)) == 0, "C20: an event is reported that did not happen")
	case 2:
		tfs.rename(f, "/w/n")
		vSettle()
		vAssert(len(texpect(tdrain(c), "/w/r/f", twant(e|de, tnative(f, tRenameFrom)), false)) == 0, "C20: an event is reported that did not happen")
	}
	vReach("reported")
	tclose(w)
}

// HC20fail: a Watch or Rewatch that fails says so, and changes nothing.
func HC20fail() {
	c := tworld()
	w := newWatcher(c)
	call := vChoose("call", 3)
	tsets = map[string]Event{}
	if vChoose("above", vParam("above", 2)) == 1 {
		tsets["/w"] = tset("above")
		must(w.Watch("/w", tsets["/w"]))
	}
	e := tset("set")
	var err error
	switch call {
	case 0:
		tfaults(true)
		err = w.Watch("/w/r", e)
		vAssert((err != nil) == tfailed(), "C20: Watch does not report the refusal of the system")
		if err == nil {
			tsets["/w/r"] = e
		}
	case 1:
		must(w.Watch("/w/r", e))
		tfaults(true)
		was := e
		e = tset("newset")
		err = w.Rewatch("/w/r", was, e)
		vAssert((err != nil) == tfailed(), "C20: Rewatch does not report the refusal of the system")
		if err == nil {
			tsets["/w/r"] = e
		} else {
			tsets["/w/r"] = was
		}
	case 2:
		tfaults(true)
		err = w.Watch("/w/r/f", e)
		vAssert((err != nil) == tfailed(), "C20: Watch does not report the refusal of the system")
		if err == nil {
			tsets["/w/r/f"] = e
		}
	}
	tfaults(false)
	if err == nil {
		vReach("watched")
	}
	for _, n := range tfs.nodes {
		if !n.dir && n.path != "" {
			tnotify(n, tWrite)
			vSettle()
			vAssert(len(texpect(tdrain(c), n.path, twant(town(n), tnative(n, tWrite)), false)) == 0, "C20: an event is reported that did not happen")
		}
	}
	for _, p := range []string{"/w", "/w/r", "/w/r/f"} {
		if tsets[p] != 0 {
			must(w.Unwatch(p))
		}
	}
	tleft(false)
	vReach("failed")
}

// HC20start: a watcher that cannot start says so, and leaves nothing behind.
func HC20start() {
	c := tworld()
	tfaults(true)
	w := newWatcher(c)
	tfaults(false)
	if !tfailed() {
		tclose(w)
		vReach("started")
		return
	}
	vSettle()
	vAssert(w.Watch("/w/r", All) != nil, "C20: Watch succeeds with a watcher that did not start")
	vAssert(vBlocked() == tblocked, "C20: stuck")
	tleft(true)
	vReach("failed")
}

// HC20race: a request while a change is being read and reported.
func HC20race() {
	c := tworld()
	w := newWatcher(c)
	set := tset("set")
	must(w.Watch("/w/r", set))
	tsets = map[string]Event{"/w/r": set}
	all := set
	own := vChoose("own", 2) == 1
	if own {
		e := tset("own")
		must(w.Watch("/w/r/f", e))
		tsets["/w/r/f"] = e
		all |= e
	}
	vSettle()
	op := vChoose("op", 4)
	var e Event
	if op < 2 {
		e = tset("new")
		all |= e
	}
	if op == 3 && !own {
		vEnd()
	}
	f := tfs.find("/w/r/f")
	what := vChoose("change", 5)
	var sure Event
	p := f.path
	switch what {
	case tEntries:
		p, sure = "/w/r/n", set&Create
	default:
		sure = twant(town(f), tnative(f, what))
	}
	vTrace("op", op, "change", what, p, uint32(set), uint32(e))
	if vChoose("newest", vParam("newest", 2)) == 1 {
		vNewest(true)
	}
	tpause = vParam("pause", 1) == 1
	vRace(true)
	vExplore(vParam("sched", 1))
	done := make(chan bool, 1)
	go func() {
		switch what {
		case tEntries:
			tfs.create(p, false)
		case tRemove:
			tfs.remove(f)
		case tRenameFrom:
			tfs.rename(f, "/f")
		default:
			tnotify(f, what)
		}
		done <- true
	}()
	early := vChoose("early", 2) == 1
	if early {
		<-done
	}
	vYield()
	switch op {
	case 0:
		must(w.Watch("/w", e))
		tsets["/w"] = e
	case 1:
		must(w.Rewatch("/w/r", set, e))
		tsets["/w/r"] = e
	case 2:
		must(w.Unwatch("/w/r"))
		delete(tsets, "/w/r")
	case 3:
		err := w.Unwatch("/w/r/f")
		if err != nil && what != tRemove && what != tRenameFrom {
			vFail("C20: Unwatch is refused")
		}
		delete(tsets, "/w/r/f")
	}
	if !early {
		<-done
	}
	vSettle()
	vExplore(0)
	vNewest(false)
	vSettle()
	vRace(false)
	tpause = false
	if what == tRemove || what == tRenameFrom {
		delete(tsets, f.path)
		delete(tsets, p)
	}
	var got Event
	for _, x := range tdrain(c) {
		vAssert(x.e&^all == 0, "C20: an event is reported that was not requested")
		vAssert(x.p == p, "C20: an event of another path is reported")
		vAssert(got&x.e == 0, "C20: an event is reported twice")
		got |= x.e
	}
	if op == 0 && tlossy && what == tEntries {
		vEnd() // the directory is associated anew
	}
	if op == 0 {
		vAssert(sure&^got == 0, "C20: a requested event is not reported")
	}
	vReach("reported")
	if tsets["/w/r"] != 0 {
		tchange(c, "/w/r", 1)
	}
	for _, p := range []string{"/w", "/w/r", "/w/r/f"} {
		if tsets[p] != 0 {
			must(w.Unwatch(p))
		}
	}
	tquiet(c)
	tclose(w)
}
