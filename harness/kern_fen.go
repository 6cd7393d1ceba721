package notify

import (
	"syscall"
	"unsafe"
)

// A model of file event notification: the sources are encoded with C.x spelled
// c_x.

type c_int int32
type c_long int64
type c_time_t int64
type c_uintptr_t uintptr
type c_char struct {
	s     string
	freed bool
}
type c_timespec struct {
	tv_sec  c_time_t
	tv_nsec c_long
}
type c_struct_file_obj struct {
	fo_atime, fo_mtime, fo_ctime c_timespec
	fo_name                      *c_char
}
type c_port_event_t struct {
	portev_events c_int
	portev_source uint16
	portev_pad    uint16
	portev_object c_uintptr_t
	portev_user   unsafe.Pointer
}

const (
	c_FILE_ACCESS      = 0x1
	c_FILE_MODIFIED    = 0x2
	c_FILE_ATTRIB      = 0x4
	c_FILE_DELETE      = 0x10
	c_FILE_RENAME_TO   = 0x20
	c_FILE_RENAME_FROM = 0x40
	c_FILE_TRUNC       = 0x00100000
	c_FILE_NOFOLLOW    = 0x10000000
	c_UNMOUNTED        = 0x20000000
	c_MOUNTEDOVER      = 0x40000000

	c_PORT_SOURCE_ALERT = 5
	c_PORT_SOURCE_FILE  = 7
	c_PORT_ALERT_SET    = 1
)

const tNative = FileAccess | FileModified | FileAttrib | FileDelete | FileRenameTo | FileRenameFrom | FileTrunc | Unmounted | MountedOver

// always delivered
const fenException = FileDelete | FileRenameTo | FileRenameFrom | Unmounted | MountedOver

var tmap = []struct{ nat, ev Event }{{FileModified, Write}, {FileRenameFrom, Rename}, {FileDelete, Remove}}

func tsys() interface{} { return new(syscall.Stat_t) }

func tnative(n *tnode, what int) Event {
	switch what {
	case tWrite:
		return FileModified
	case tAttrib:
		return FileAttrib
	case tRemove:
		return FileDelete
	case tRenameFrom:
		return FileRenameFrom
	}
	return FileModified
}

// fenObj is a file object handed to the system.
type fenObj struct {
	c    *c_struct_file_obj
	n    *tnode // associated with
	want Event
	pend Event
}

type fenT struct {
	objs    []*fenObj
	queue   []*fenObj
	alert   bool
	open    bool
	wake    chan bool
	waiting bool
	faults  bool
	failed  bool
}

var fenm *fenT

func tinit() { fenm = &fenT{wake: make(chan bool)} }

// fen0 is the model; package initialization starts a watcher, too.
func fen0() *fenT {
	if fenm == nil {
		tinit()
	}
	return fenm
}

func tfaults(on bool) { fenm.faults = on }
func tfailed() bool   { return fenm.failed }

func (k *fenT) obj(c *c_struct_file_obj) *fenObj {
	for _, o := range k.objs {
		if o.c == c {
			return o
		}
	}
	return nil
}

func (k *fenT) wakeup() {
	if k.waiting {
		k.waiting = false
		k.wake <- true
	}
}

func tnotify(n *tnode, what int) {
	nat := tnative(n, what)
	for _, o := range fenm.objs {
		if o.n != n {
			continue
		}
		if x := (o.want | fenException) & nat; x != 0 { // delivered once
			o.n, o.pend = nil, x
			fenm.queue = append(fenm.queue, o)
			fenm.wakeup()
		}
	}
}

func tleft(closed bool) {
	for _, o := range fenm.objs {
		vAssert(o.n == nil || o.n.gone, "C20: a file is left watched")
	}
	if closed {
		vAssert(!fenm.open, "C20: the port is left open")
	}
}

func c_newFo() *c_struct_file_obj {
	o := &fenObj{c: &c_struct_file_obj{}}
	fenm.objs = append(fenm.objs, o)
	return o.c
}
func c_newPe() *c_port_event_t    { return &c_port_event_t{} }
func c_CString(s string) *c_char  { return &c_char{s: s} }
func c_GoString(s *c_char) string { return s.s }
func c_free(unsafe.Pointer)       {}
func c_port_create() (c_int, error) {
	if fen0().fault("port_create") {
		return -1, syscall.EMFILE
	}
	fenm.open = true
	return 7, nil
}

func (k *fenT) fault(what string) bool {
	if k.faults && !k.failed && vBool("fails "+what) {
		k.failed = true
		return true
	}
	return false
}

func c_conv(c *c_struct_file_obj) c_uintptr_t {
	for i, o := range fenm.objs {
		if o.c == c {
			return c_uintptr_t(i + 1)
		}
	}
	return 0
}

func c_dconv(p c_uintptr_t) *c_struct_file_obj {
	if p == 0 {
		return nil
	}
	return fenm.objs[p-1].c
}

func c_port_associate(port, source c_int, p c_uintptr_t, events c_int, user unsafe.Pointer) (c_int, error) {
	vAssert(source == c_PORT_SOURCE_FILE && fenm.open, "C20: a wrong source or port")
	o := fenm.objs[p-1]
	n := tfs.find(o.c.fo_name.s)
	if n == nil {
		return -1, syscall.ENOENT
	}
	if fenm.fault("port_associate") {
		return -1, syscall.ENOMEM
	}
	vAssert(Event(events)&^(tNative&^fenException) == 0, "C20: an invalid event is requested from the system")
	o.n, o.want, o.pend = n, Event(events), 0
	fenm.unqueue(o)
	return 0, nil
}

func (k *fenT) unqueue(o *fenObj) bool {
	for i, x := range k.queue {
		if x == o {
			k.queue = append(k.queue[:i:i], k.queue[i+1:]...)
			return true
		}
	}
	return false
}

func c_port_dissociate(port, source c_int, p c_uintptr_t) (c_int, error) {
	vAssert(source == c_PORT_SOURCE_FILE && fenm.open, "C20: a wrong source or port")
	o := fenm.objs[p-1]
	if !fenm.unqueue(o) && o.n == nil {
		return -1, syscall.ENOENT
	}
	o.n, o.pend = nil, 0
	return 0, nil
}

func c_port_alert(port, flags, events c_int, user unsafe.Pointer) (c_int, error) {
	vAssert(fenm.open, "C20: a closed port is used")
	fenm.alert = true
	fenm.wakeup()
	return 0, nil
}

func c_port_get(port c_int, pe *c_port_event_t, timeout *c_timespec) (c_int, error) {
	for !fenm.alert && len(fenm.queue) == 0 {
		if !fenm.open {
			return -1, syscall.EBADF
		}
		fenm.waiting = true
		<-fenm.wake
	}
	if fenm.alert {
		pe.portev_source, pe.portev_events = c_PORT_SOURCE_ALERT, 666
		return 0, nil
	}
	o := fenm.queue[0]
	fenm.queue = fenm.queue[1:]
	pe.portev_source, pe.portev_events = c_PORT_SOURCE_FILE, c_int(o.pend)
	pe.portev_object = c_conv(o.c)
	return 0, nil
}

//verif:replace syscall.Close
func fenClose(fd int) error {
	vAssert(fd == 7 && fenm.open, "C20: a descriptor is closed twice")
	fenm.open = false
	fenm.wakeup()
	return nil
}

const tlossy = true // a registration does away with the notification pending
