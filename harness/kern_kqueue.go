package notify

import "syscall"

// A model of kqueue: knotes of open files.

const tNative = NoteDelete | NoteWrite | NoteExtend | NoteAttrib | NoteLink | NoteRename | NoteRevoke

var tmap = []struct{ nat, ev Event }{{NoteWrite, Write}, {NoteRename, Rename}, {NoteDelete, Remove}}

func tsys() interface{} { return nil }

// tnative is what the system notifies for a change.
func tnative(n *tnode, what int) Event {
	switch what {
	case tWrite:
		return NoteWrite | NoteExtend
	case tAttrib:
		return NoteAttrib
	case tRemove:
		return NoteDelete | NoteLink
	case tRenameFrom:
		return NoteRename
	}
	return NoteWrite
}

type kqfd struct {
	kind int // 0 closed, 1 kqueue, 2 pipe, 3 file
	n    *tnode
	note bool // has a knote
	want uint32
	pend uint32
}

type kqT struct {
	fds     [24]kqfd
	queue   []int // descriptors with pending notes
	wake    chan bool
	waiting bool
	faults  bool
	failed  bool
}

var kqm *kqT

func tinit() {
	kqm = &kqT{wake: make(chan bool)}
	kqm.fds[0].kind, kqm.fds[1].kind, kqm.fds[2].kind = 9, 9, 9
}

// kq0 is the model; package initialization starts a watcher, too.
func kq0() *kqT {
	if kqm == nil {
		tinit()
	}
	return kqm
}

func tfaults(on bool) { kqm.faults = on }
func tfailed() bool   { return kqm.failed }

func (k *kqT) fault(what string) bool {
	if k.faults && !k.failed && vBool("fails "+what) {
		vTrace("fails", what)
		k.failed = true
		return true
	}
	return false
}

func (k *kqT) open(kind int) int {
	for i := range k.fds {
		if k.fds[i].kind == 0 {
			k.fds[i] = kqfd{kind: kind}
			return i
		}
	}
	return -1
}

func (k *kqT) activate(fd int, fflags uint32) {
	if k.fds[fd].pend == 0 {
		k.queue = append(k.queue, fd)
	}
	k.fds[fd].pend |= fflags
	if k.waiting {
		k.waiting = false
		k.wake <- true
	}
}

func tnotify(n *tnode, what int) {
	for fd := range kqm.fds {
		f := &kqm.fds[fd]
		if f.kind == 3 && f.n == n && f.note {
			if x := f.want & uint32(tnative(n, what)); x != 0 {
				kqm.activate(fd, x)
			}
		}
	}
}

// tleft asserts which descriptors are open.
func tleft(closed bool) {
	for i := range kqm.fds {
		vAssert(kqm.fds[i].kind != 3, "C20: a file is left open")
		if closed {
			vAssert(kqm.fds[i].kind == 0 || i < 3, "C20: the kqueue or its pipe is left open")
		}
	}
}

//verif:replace syscall.Kqueue
func kqKqueue() (int, error) {
	if kq0().fault("kqueue") {
		return -1, syscall.EMFILE
	}
	return kqm.open(1), nil
}

//verif:replace syscall.Pipe
func kqPipe(p []int) error {
	if kqm.fault("pipe") {
		return syscall.EMFILE
	}
	p[0], p[1] = kqm.open(2), kqm.open(2)
	return nil
}

//verif:replace syscall.Open
func kqOpen(p string, mode int, perm uint32) (int, error) {
	n := tfs.find(p)
	if n == nil {
		return -1, syscall.ENOENT
	}
	if kqm.fault("open") {
		return -1, syscall.EMFILE
	}
	fd := kqm.open(3)
	kqm.fds[fd].n = n
	return fd, nil
}

//verif:replace syscall.Close
func kqClose(fd int) error {
	vAssert(fd >= 0 && fd < len(kqm.fds) && kqm.fds[fd].kind != 0, "C20: a descriptor is closed twice")
	for i, x := range kqm.queue {
		if x == fd {
			kqm.queue = append(kqm.queue[:i:i], kqm.queue[i+1:]...)
			break
		}
	}
	kqm.fds[fd] = kqfd{}
	return nil
}

//verif:replace syscall.Write
func kqWrite(fd int, p []byte) (int, error) {
	vAssert(fd >= 0 && kqm.fds[fd].kind == 2, "C20: something else than the stop pipe is written to")
	kqm.activate(fd-1, 1)
	return len(p), nil
}

//verif:replace syscall.Kevent
func kqKevent(kq int, changes, events []syscall.Kevent_t, timeout *syscall.Timespec) (int, error) {
	vAssert(kqm.fds[kq].kind == 1, "C20: not a kqueue")
	for _, x := range changes {
		fd := int(x.Ident)
		vAssert(fd >= 0 && fd < len(kqm.fds) && kqm.fds[fd].kind >= 2, "C20: a closed file is registered")
		if x.Filter == syscall.EVFILT_READ {
			if kqm.fault("kevent") {
				return -1, syscall.ENOMEM
			}
			continue
		}
		f := &kqm.fds[fd]
		vAssert(x.Filter == syscall.EVFILT_VNODE && f.kind == 3, "C20: a wrong filter")
		if kqm.fault("kevent") {
			return -1, syscall.ENOMEM
		}
		if x.Flags&syscall.EV_DELETE != 0 {
			if !f.note {
				return -1, syscall.ENOENT
			}
			f.note, f.want, f.pend = false, 0, 0
			for i, y := range kqm.queue {
				if y == fd {
					kqm.queue = append(kqm.queue[:i:i], kqm.queue[i+1:]...)
					break
				}
			}
			continue
		}
		vAssert(x.Flags == syscall.EV_ADD|syscall.EV_CLEAR, "C20: notifications of a file are not cleared when read")
		vAssert(Event(x.Fflags)&^tNative == 0, "C20: an invalid event is requested from the system")
		f.note, f.want = true, x.Fflags
	}
	if len(events) == 0 {
		return 0, nil
	}
	for len(kqm.queue) == 0 {
		kqm.waiting = true
		<-kqm.wake
	}
	fd := kqm.queue[0]
	kqm.queue = kqm.queue[1:]
	events[0] = syscall.Kevent_t{Ident: uint64(fd), Filter: syscall.EVFILT_VNODE, Fflags: kqm.fds[fd].pend}
	kqm.fds[fd].pend = 0
	return 1, nil
}

const tlossy = false // a registration does away with the notification pending
