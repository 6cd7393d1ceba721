package notify

import (
	"os"
	"path/filepath"
	"syscall"
	"unsafe"
)

// A model of the Windows calls the ReadDirectoryChanges watcher uses: open
// directories, their pending requests, and a completion port.

type kwreq struct {
	mask uint32
	rec  bool
	buf  *byte
	n    uint32
	ov   *syscall.Overlapped
}

type kwdir struct {
	path    string
	open    bool
	port    bool
	fixed   bool // the filter is fixed by the first request
	mask    uint32
	rec     bool
	pending *kwreq
}

type kwdone struct {
	n, key uint32
	ov     *syscall.Overlapped
}

type kwinT struct {
	dirs    []*kwdir // handle 0x100+i
	port    bool
	queue   []kwdone
	wake    chan bool
	waiting bool
	gone    map[string]bool
	faults  bool
	failed  bool
	what    string
}

var kwin *kwinT

const kwPort = syscall.Handle(7)

func kwNew() *kwinT {
	kwin = &kwinT{wake: make(chan bool), gone: map[string]bool{}}
	return kwin
}

func (k *kwinT) fault(what string) error {
	if k.faults && !k.failed && vBool("fails "+what) {
		vTrace("fails", what)
		k.failed = true
		k.what = what
		return errInjected
	}
	return nil
}

func (k *kwinT) dir(h syscall.Handle) *kwdir {
	i := int(h) - 0x100
	if i < 0 || i >= len(k.dirs) || !k.dirs[i].open {
		return nil
	}
	return k.dirs[i]
}

func (k *kwinT) done(d kwdone) {
	k.queue = append(k.queue, d)
	if k.waiting {
		k.waiting = false
		k.wake <- true
	}
}

func kwString(p *uint16) string {
	var u []uint16
	q := uintptr(unsafe.Pointer(p))
	for {
		c := *(*uint16)(unsafe.Pointer(q))
		if c == 0 {
			return syscall.UTF16ToString(u)
		}
		u = append(u, c)
		q += 2
	}
}

//verif:replace syscall.CreateFile
func kwCreateFile(name *uint16, access uint32, mode uint32, sa *syscall.SecurityAttributes, createmode uint32, attrs uint32, templatefile int32) (syscall.Handle, error) {
	if err := kwin.fault("CreateFile"); err != nil {
		return syscall.InvalidHandle, err
	}
	vAssert(access == syscall.FILE_LIST_DIRECTORY && attrs&syscall.FILE_FLAG_OVERLAPPED != 0 && attrs&syscall.FILE_FLAG_BACKUP_SEMANTICS != 0, "C19: a directory is not opened for asynchronous listing")
	vAssert(mode&syscall.FILE_SHARE_DELETE != 0, "C19: a watched directory cannot be removed by others")
	p := kwString(name)
	if kwin.gone[p] {
		return syscall.InvalidHandle, syscall.ERROR_FILE_NOT_FOUND
	}
	kwin.dirs = append(kwin.dirs, &kwdir{path: p, open: true})
	return syscall.Handle(0x100 + len(kwin.dirs) - 1), nil
}

//verif:replace syscall.CreateIoCompletionPort
func kwCreateIoCompletionPort(h, port syscall.Handle, key, threads uint32) (syscall.Handle, error) {
	if err := kwin.fault("CreateIoCompletionPort"); err != nil {
		return syscall.InvalidHandle, err
	}
	if h == syscall.InvalidHandle {
		vAssert(!kwin.port, "C19: a second completion port")
		kwin.port = true
		return kwPort, nil
	}
	d := kwin.dir(h)
	vAssert(d != nil && port == kwPort && kwin.port, "C19: a directory is associated with no completion port")
	d.port = true
	return kwPort, nil
}

//verif:replace syscall.CloseHandle
func kwCloseHandle(h syscall.Handle) error {
	if h == kwPort {
		vAssert(kwin.port, "C19: completion port closed twice")
		kwin.port = false
		return nil
	}
	d := kwin.dir(h)
	vAssert(d != nil, "C19: a handle is closed that is not open")
	d.open = false
	if r := d.pending; r != nil {
		d.pending = nil
		kwin.done(kwdone{ov: r.ov})
	}
	return nil
}

//verif:replace syscall.ReadDirectoryChanges
func kwReadDirectoryChanges(h syscall.Handle, buf *byte, n uint32, rec bool, mask uint32, retlen *uint32, ov *syscall.Overlapped, fn uintptr) error {
	if err := kwin.fault("ReadDirectoryChanges"); err != nil {
		return err
	}
	d := kwin.dir(h)
	vAssert(d != nil && d.port, "C19: a request for a directory that is not open")
	vAssert(vAnd(mask != 0, mask&^uint32(fileNotifyChangeAll) == 0), "C19: an invalid native filter")
	vAssert(ov != nil && fn == 0, "C19: a request that would block")
	for _, o := range kwin.dirs {
		vAssert(o.pending == nil || o.pending.ov != ov && o.pending.buf != buf, "C19: two requests share a buffer")
	}
	vAssert(d.pending == nil, "C19: two requests for one handle")
	if !d.fixed {
		d.fixed, d.mask, d.rec = true, mask, rec
	}
	if kwin.gone[d.path] {
		return syscall.ERROR_ACCESS_DENIED
	}
	d.pending = &kwreq{mask: d.mask, rec: d.rec, buf: buf, n: n, ov: ov}
	return nil
}

//verif:replace syscall.GetQueuedCompletionStatus
func kwGetQueuedCompletionStatus(port syscall.Handle, n *uint32, key *uint32, ov **syscall.Overlapped, timeout uint32) error {
	vAssert(port == kwPort && kwin.port, "C19: waiting on a closed completion port")
	for len(kwin.queue) == 0 {
		kwin.waiting = true
		<-kwin.wake
	}
	d := kwin.queue[0]
	kwin.queue = kwin.queue[1:]
	*n, *key, *ov = d.n, d.key, d.ov
	return nil
}

//verif:replace syscall.PostQueuedCompletionStatus
func kwPostQueuedCompletionStatus(port syscall.Handle, n, key uint32, ov *syscall.Overlapped) error {
	vAssert(port == kwPort && kwin.port, "C19: posting to a closed completion port")
	kwin.done(kwdone{n: n, key: key, ov: ov})
	return nil
}

//verif:replace syscall.GetFileAttributes
func kwGetFileAttributes(name *uint16) (uint32, error) {
	if kwin.gone[kwString(name)] {
		return 0, syscall.ERROR_FILE_NOT_FOUND
	}
	return syscall.FILE_ATTRIBUTE_DIRECTORY, nil
}

//verif:replace os.Lstat
func kwLstat(name string) (os.FileInfo, error) { return zinfo{name, zmode(zDir)}, nil }

//verif:replace syscall.FullPath
func kwFullPath(name string) (string, error) { return filepath.Clean(name), nil }

// kwrec is one record of a native notification.
type kwrec struct {
	action uint32
	name   string
}

func kwunder(p, d string) bool {
	if n := len(d); d[n-1] == '\\' {
		d = d[:n-1] // a root directory
	}
	return len(p) > len(d)+1 && p[:len(d)] == d && p[len(d)] == '\\'
}

func kwparent(p string) string {
	i := len(p) - 1
	for p[i] != '\\' {
		i--
	}
	if i == 2 {
		i = 3 // a root directory
	}
	return p[:i]
}

// remove removes a directory.
func (k *kwinT) remove(p string) {
	for _, d := range append([]*kwdir{}, k.dirs...) {
		if d.path == p || kwunder(d.path, p) {
			k.gone[d.path] = true
			if r := d.pending; r != nil {
				d.pending = nil
				k.done(kwdone{ov: r.ov})
			}
		}
	}
	k.gone[p] = true
	vSettle()
}

// change reports a change in a directory tree (bit is the filter that selects
// it, names are full paths) on every request that covers it.
func (k *kwinT) change(bit uint32, recs ...kwrec) {
	for _, d := range append([]*kwdir{}, k.dirs...) {
		r := d.pending
		if r == nil || r.mask&bit == 0 {
			continue
		}
		off, last := 0, -1
		put := func(o, n int, x uint32) {
			for i := 0; i < n; i++ {
				*(*byte)(unsafe.Pointer(uintptr(unsafe.Pointer(r.buf)) + uintptr(o+i))) = byte(x >> (8 * uint(i)))
			}
		}
		for _, x := range recs {
			if kwparent(x.name) != d.path && !(r.rec && kwunder(x.name, d.path)) {
				continue
			}
			if last >= 0 {
				put(last, 4, uint32(off-last))
			}
			name := x.name[len(d.path):]
			if name[0] == '\\' {
				name = name[1:]
			}
			put(off, 4, 0)
			put(off+4, 4, x.action)
			put(off+8, 4, uint32(2*len(name)))
			for i := 0; i < len(name); i++ {
				put(off+12+2*i, 2, uint32(name[i]))
			}
			last = off
			off += (12 + 2*len(name) + 3) &^ 3
		}
		if last < 0 {
			continue
		}
		d.pending = nil
		k.done(kwdone{n: uint32(off), ov: r.ov})
	}
	vSettle()
}
