package notify

import (
	"sync/atomic"
	"unsafe"
)

// The C side of FSEvents: the sources are encoded with C.x spelled c_x.

type c_char struct{ s string }
type c_size_t uint64
type c_uintptr_t uintptr
type c_CFTimeInterval float64
type c_FSEventStreamCreateFlags uint32
type c_FSEventStreamEventFlags uint32
type c_FSEventStreamEventId uint64
type c_dispatch_queue_t *int
type c_dispatch_queue_attr_t *int
type c_Boolean uint8
type c_CFStringRef unsafe.Pointer
type c_CFArrayRef *string
type c_FSEventStreamRef *zstream
type c_FSEventStreamContext struct{ info uintptr }

const (
	c_kFSEventStreamCreateFlagFileEvents = 0x10
	c_kFSEventStreamCreateFlagNoDefer    = 0x2
	c_kCFStringEncodingUTF8              = 0x08000100
	c_kCFAllocatorDefault                = 0
)

var c_DISPATCH_QUEUE_SERIAL c_dispatch_queue_attr_t

// zstream is a native event stream.
type zstream struct {
	path     string
	info     uintptr
	since    uint64
	queued   bool
	started  bool
	released bool
}

type zfseT struct {
	streams []*zstream
	now     uint64
	faults  bool
	failed  bool
}

var zfse = &zfseT{now: 1000}

func (k *zfseT) fault(what string) bool {
	if k.faults && !k.failed && vBool(what) {
		k.failed = true
		return true
	}
	return false
}

// live is the stream of a watched path.
func (k *zfseT) live(p string) (r *zstream) {
	for _, s := range k.streams {
		if s.path == p && s.started {
			vAssert(r == nil, "C18: two native streams for one path")
			r = s
		}
	}
	return
}

func c_FSEventsGetCurrentEventId() c_FSEventStreamEventId {
	if zfse == nil { // package initialization
		return 1
	}
	return c_FSEventStreamEventId(zfse.now)
}

func c_dispatch_queue_create(*c_char, c_dispatch_queue_attr_t) c_dispatch_queue_t { return new(int) }
func c_CString(s string) *c_char                                                  { return &c_char{s} }
func c_GoString(c *c_char) string                                                 { return c.s }

func c_CFStringCreateWithCStringNoCopy(_ int, s *c_char, _ uint32, _ int) c_CFStringRef {
	return c_CFStringRef(unsafe.Pointer(&s.s))
}

func c_CFArrayCreate(_ int, p *unsafe.Pointer, n int, _ unsafe.Pointer) c_CFArrayRef {
	return c_CFArrayRef((*string)(*p))
}

func c_EventStreamCreate(_ *c_FSEventStreamContext, info c_uintptr_t, paths c_CFArrayRef, since c_FSEventStreamEventId, _ c_CFTimeInterval, _ c_FSEventStreamCreateFlags) c_FSEventStreamRef {
	if zfse.fault("FSEventStreamCreate fails") {
		return nil
	}
	s := &zstream{path: *paths, info: uintptr(info), since: uint64(since)}
	zfse.streams = append(zfse.streams, s)
	return s
}

func c_FSEventStreamSetDispatchQueue(s c_FSEventStreamRef, _ c_dispatch_queue_t) { s.queued = true }

func c_FSEventStreamStart(s c_FSEventStreamRef) c_Boolean {
	if zfse.fault("FSEventStreamStart fails") {
		return 0
	}
	vAssert(s.queued && !s.released, "C18: native stream started before it was scheduled or after it was invalidated")
	s.started = true
	return 1
}

func c_FSEventStreamStop(s c_FSEventStreamRef) {
	vAssert(s.started, "C18: a native stream that is not running stopped")
	s.started = false
}

func c_FSEventStreamInvalidate(s c_FSEventStreamRef) { s.released = true }

// zbatch is what the native callback gets.
type zbatch struct {
	n     int
	paths []*c_char
	flags []c_FSEventStreamEventFlags
	ids   []c_FSEventStreamEventId
}

func (b *zbatch) add(p string, flags uint32) {
	zfse.now++
	b.n++
	b.paths = append(b.paths, &c_char{p})
	b.flags = append(b.flags, c_FSEventStreamEventFlags(flags))
	b.ids = append(b.ids, c_FSEventStreamEventId(zfse.now))
}

// deliver runs the native callback of a stream.
func (b *zbatch) deliver(s *zstream) {
	if b.n == 0 {
		gostream(0, s.info, 0, 0, 0, 0)
		return
	}
	gostream(0, s.info, c_size_t(b.n), uintptr(unsafe.Pointer(&b.paths[0])), uintptr(unsafe.Pointer(&b.flags[0])), uintptr(unsafe.Pointer(&b.ids[0])))
}

var _ = atomic.LoadUint64
