package notify

import "golang.org/x/sys/unix"

// A model of the parts of the Linux kernel the inotify watcher uses:
// descriptors, inotify instances (watches belong to inodes, die with them, a
// second request for an inode replaces its mask), epoll and a pipe.

type kwatch struct {
	wd   int32
	ino  int
	mask uint32
}

type krec struct {
	wd     int32
	mask   uint32
	cookie uint32
	name   string // with padding
}

const (
	kNone = iota
	kInotify
	kEpoll
	kPipeR
	kPipeW
)

type kernT struct {
	kind    [32]int // per descriptor
	opened  int
	watches []kwatch
	nextwd  int32
	queue   []krec
	pipe    int // bytes in the pipe
	inter   []int32
	paths   map[string]int // path to inode
	wake    chan bool
	waiting bool
	faults  bool // system calls may fail
	failed  error
	what    string
	all     int // descriptors of a started instance
	garbage int // epoll_wait interruptions left
	reads   int
	rdfail  bool
}

var kern *kernT

func knew() *kernT {
	kern = &kernT{nextwd: 1, paths: map[string]int{}, wake: make(chan bool)}
	kern.kind[0], kern.kind[1], kern.kind[2] = 99, 99, 99
	return kern
}

func (k *kernT) fault(what string) error {
	if k.faults && k.failed == nil && vBool("fault "+what) {
		vTrace("fails", what)
		k.failed = unix.EMFILE
		k.what = what
		return k.failed
	}
	return nil
}

func (k *kernT) open(kind int) int {
	for i := range k.kind {
		if k.kind[i] == kNone {
			k.kind[i] = kind
			k.opened++
			return i
		}
	}
	return -1
}

// left is the number of open descriptors.
func (k *kernT) left() (n int) {
	for _, x := range k.kind {
		if x != kNone && x != 99 {
			n++
		}
	}
	return
}

func (k *kernT) is(fd, kind int) bool { return fd >= 0 && fd < len(k.kind) && k.kind[fd] == kind }

func (k *kernT) poke() {
	if k.waiting {
		k.waiting = false
		k.wake <- true
	}
}

func (k *kernT) byIno(ino int) int {
	for i := range k.watches {
		if k.watches[i].ino == ino {
			return i
		}
	}
	return -1
}

func (k *kernT) rmWatch(i int) {
	wd := k.watches[i].wd
	k.watches = append(k.watches[:i:i], k.watches[i+1:]...)
	k.queue = append(k.queue, krec{wd: wd, mask: unix.IN_IGNORED})
}

//verif:replace golang.org/x/sys/unix.InotifyInit1
func kInotifyInit1(flags int) (int, error) {
	if err := kern.fault("inotify_init1"); err != nil {
		return -1, err
	}
	return kern.open(kInotify), nil
}

//verif:replace golang.org/x/sys/unix.EpollCreate1
func kEpollCreate1(flags int) (int, error) {
	if err := kern.fault("epoll_create1"); err != nil {
		return -1, err
	}
	return kern.open(kEpoll), nil
}

//verif:replace golang.org/x/sys/unix.Pipe
func kPipe(p []int) error {
	if err := kern.fault("pipe"); err != nil {
		p[0], p[1] = 0, 0 // as the x/sys version in use does
		return err
	}
	p[0] = kern.open(kPipeR)
	p[1] = kern.open(kPipeW)
	return nil
}

//verif:replace golang.org/x/sys/unix.EpollCtl
func kEpollCtl(epfd, op, fd int, ev *unix.EpollEvent) error {
	if err := kern.fault("epoll_ctl"); err != nil {
		return err
	}
	if !kern.is(epfd, kEpoll) {
		return unix.EBADF
	}
	vAssert(op == unix.EPOLL_CTL_ADD && ev.Events == unix.EPOLLIN && ev.Fd == int32(fd), "C15: unexpected epoll_ctl")
	kern.inter = append(kern.inter, int32(fd))
	kern.all = kern.left()
	return nil
}

//verif:replace golang.org/x/sys/unix.EpollWait
func kEpollWait(epfd int, evs []unix.EpollEvent, msec int) (int, error) {
	k := kern
	for {
		if !k.is(epfd, kEpoll) {
			return -1, unix.EBADF
		}
		if k.garbage > 0 {
			k.garbage--
			return -1, unix.EINTR
		}
		var ready []int32
		for _, fd := range k.inter {
			if k.is(int(fd), kInotify) && len(k.queue) > 0 || k.is(int(fd), kPipeR) && k.pipe > 0 {
				ready = append(ready, fd)
			}
		}
		if len(ready) > 0 {
			i := 0
			if len(ready) > 1 {
				i = vChoose("epoll", len(ready))
			}
			evs[0] = unix.EpollEvent{Events: unix.EPOLLIN, Fd: ready[i]}
			return 1, nil
		}
		k.waiting = true
		<-k.wake
	}
}

//verif:replace golang.org/x/sys/unix.Read
func kRead(fd int, b []byte) (int, error) {
	k := kern
	if !k.is(fd, kInotify) {
		return -1, unix.EBADF
	}
	k.reads++
	if len(k.queue) == 0 {
		vFail("C13: read of an empty inotify queue")
	}
	if k.rdfail {
		k.rdfail = false
		return -1, unix.EINTR
	}
	n := 0
	for len(k.queue) > 0 {
		r := k.queue[0]
		if n+16+len(r.name) > len(b) {
			break
		}
		k.queue = k.queue[1:]
		kput(b[n:], uint32(r.wd))
		kput(b[n+4:], r.mask)
		kput(b[n+8:], r.cookie)
		kput(b[n+12:], uint32(len(r.name)))
		copy(b[n+16:], r.name)
		n += 16 + len(r.name)
	}
	if n == 0 {
		vFail("C13: the buffer cannot hold a record")
		return -1, unix.EINVAL
	}
	return n, nil
}

func kput(b []byte, x uint32) {
	b[0], b[1], b[2], b[3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
}

//verif:replace golang.org/x/sys/unix.Write
func kWrite(fd int, b []byte) (int, error) {
	if !kern.is(fd, kPipeW) {
		return -1, unix.EBADF
	}
	kern.pipe += len(b)
	kern.poke()
	return len(b), nil
}

//verif:replace golang.org/x/sys/unix.Close
func kClose(fd int) error {
	k := kern
	if fd < 0 || fd >= len(k.kind) || k.kind[fd] == kNone {
		vFail("C15: a descriptor that is not open is closed")
		return unix.EBADF
	}
	vAssert(k.kind[fd] != 99, "C15: a descriptor the watcher did not open is closed")
	switch k.kind[fd] {
	case kInotify:
		k.watches = nil
		k.queue = nil
		k.nextwd = 1
	case kPipeR:
		k.pipe = 0
	}
	k.kind[fd] = kNone
	var in []int32
	for _, x := range k.inter {
		if int(x) != fd {
			in = append(in, x)
		}
	}
	k.inter = in
	return nil
}

//verif:replace golang.org/x/sys/unix.InotifyAddWatch
func kInotifyAddWatch(fd int, path string, mask uint32) (int, error) {
	k := kern
	if err := k.fault("inotify_add_watch"); err != nil {
		return -1, err
	}
	if !k.is(fd, kInotify) {
		return -1, unix.EBADF
	}
	ino, ok := k.paths[path]
	if !ok {
		return -1, unix.ENOENT
	}
	if i := k.byIno(ino); i >= 0 {
		k.watches[i].mask = mask
		return int(k.watches[i].wd), nil
	}
	k.watches = append(k.watches, kwatch{k.nextwd, ino, mask})
	k.nextwd++
	return int(k.nextwd - 1), nil
}

//verif:replace golang.org/x/sys/unix.InotifyRmWatch
func kInotifyRmWatch(fd int, wd uint32) (int, error) {
	k := kern
	if !k.is(fd, kInotify) {
		return -1, unix.EBADF
	}
	for i := range k.watches {
		if k.watches[i].wd == int32(wd) {
			k.rmWatch(i)
			return 0, nil
		}
	}
	return -1, unix.EINVAL
}

// raw queues a record.
func (k *kernT) raw(r krec) {
	k.queue = append(k.queue, r)
	k.poke()
}

// kpad gives the name field the kernel reports for a name.
func kpad(name string) string {
	if name == "" {
		return ""
	}
	n := (len(name) + 16) / 16 * 16
	return name + "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"[:n-len(name)]
}

type kwant struct {
	ev   Event
	path string
	rec  krec
}

// kexpect lists what one record on a watch of path with the event set e is
// reported as.
func kexpect(e Event, path string, r krec) (w []kwant) {
	m := Event(r.mask)
	p := path
	if i := kend(r.name); i > 0 {
		p = path + "/" + r.name[:i]
		if path == "/" {
			p = "/" + r.name[:i]
		}
	}
	port := []struct {
		e Event
		m Event
	}{{Create, InCreate | InMovedTo}, {Remove, InDelete | InDeleteSelf}, {Write, InModify}, {Rename, InMovedFrom | InMoveSelf}}
	for _, x := range port {
		if vTake(vAnd(e&x.e != 0, m&x.m != 0)) {
			w = append(w, kwant{x.e, p, r})
		}
	}
	if vTake(e&m&Event(unix.IN_ALL_EVENTS) != 0) {
		w = append(w, kwant{e & m & Event(unix.IN_ALL_EVENTS), p, r})
	}
	return
}

// kend is the length of a padded name.
func kend(s string) int {
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			return i
		}
	}
	return len(s)
}

// kmask is the mask needed for an event set.
func kmask(e Event) uint32 {
	f := func(b, m Event) uint32 { return vIte32(e&b != 0, uint32(m), 0) }
	return uint32(e)&unix.IN_ALL_EVENTS | f(Create, InCreate|InMovedTo) | f(Remove, InDelete|InDeleteSelf) | f(Write, InModify) | f(Rename, InMovedFrom|InMoveSelf)
}
