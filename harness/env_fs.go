package notify

import (
	"io/fs"
	"os"
	"syscall"
	"time"
)

// A small file-system model. The code under test reaches it through the
// os functions redirected below.

const (
	zNone = iota
	zDir
	zFile
	zLink
)

type zent struct {
	path   string
	parent string
	name   string
	kind   int
	target string
	exists bool // may be symbolic
}

type zfsT struct {
	ents  []*zent
	calls int
	fail  bool   // ReadDir failures enabled
	deny  string // a directory that cannot be read
}

var zfs *zfsT

func zfsNew() *zfsT {
	zfs = &zfsT{}
	return zfs
}

func (f *zfsT) add(path string, kind int) *zent {
	i := len(path) - 1
	for path[i] != '/' {
		i--
	}
	e := &zent{path: path, parent: path[:i], name: path[i+1:], kind: kind, exists: true}
	if i == 0 {
		e.parent = "/"
	}
	f.ents = append(f.ents, e)
	return e
}

func (f *zfsT) find(path string) *zent {
	if len(path) > 1 && path[len(path)-1] == '/' {
		path = path[:len(path)-1]
	}
	for _, e := range f.ents {
		if e.path == path && e.exists {
			return e
		}
	}
	return nil
}

type zinfo struct {
	name string
	mode fs.FileMode
}

func (i zinfo) Name() string               { return i.name }
func (i zinfo) Size() int64                { return 0 }
func (i zinfo) Mode() fs.FileMode          { return i.mode }
func (i zinfo) ModTime() time.Time         { return time.Time{} }
func (i zinfo) IsDir() bool                { return i.mode&fs.ModeDir != 0 }
func (i zinfo) Sys() interface{}           { return nil }
func (i zinfo) Type() fs.FileMode          { return i.mode & (fs.ModeDir | fs.ModeSymlink) }
func (i zinfo) Info() (fs.FileInfo, error) { return i, nil }

func zmode(kind int) fs.FileMode {
	switch kind {
	case zDir:
		return fs.ModeDir | 0755
	case zLink:
		return fs.ModeSymlink | 0777
	}
	return 0644
}

//verif:replace os.Lstat
func zLstat(name string) (os.FileInfo, error) {
	if name == "/" {
		return zinfo{"/", zmode(zDir)}, nil
	}
	if e := zfs.find(name); e != nil {
		return zinfo{e.name, zmode(e.kind)}, nil
	}
	return nil, &os.PathError{Op: "lstat", Path: name, Err: syscall.ENOENT}
}

//verif:replace os.Stat
func zStat(name string) (os.FileInfo, error) {
	for n := 0; n < 8; n++ {
		e := zfs.find(name)
		if e == nil {
			if name == "/" {
				return zinfo{"/", zmode(zDir)}, nil
			}
			break
		}
		if e.kind != zLink {
			return zinfo{e.name, zmode(e.kind)}, nil
		}
		name = e.target
	}
	return nil, &os.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
}

//verif:replace os.Readlink
func zReadlink(name string) (string, error) {
	e := zfs.find(name)
	if e == nil || e.kind != zLink {
		return "", &os.PathError{Op: "readlink", Path: name, Err: syscall.EINVAL}
	}
	return e.target, nil
}

//verif:replace os.Getwd
func zGetwd() (string, error) { return "/w/r", nil }

//verif:replace os.ReadDir
func zReadDir(name string) ([]os.DirEntry, error) {
	zfs.calls++
	vYield()
	if name != "/" {
		e := zfs.find(name)
		if e == nil {
			return nil, &os.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		if e.kind == zFile {
			return nil, &os.PathError{Op: "readdirent", Path: name, Err: syscall.ENOTDIR}
		}
	}
	if name == zfs.deny || zfs.fail && vBool("readdirfail") {
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.EACCES}
	}
	if len(name) > 1 && name[len(name)-1] == '/' {
		name = name[:len(name)-1]
	}
	var r []os.DirEntry
	for _, e := range zfs.ents {
		if e.parent == name && e.exists {
			r = append(r, zinfo{e.name, zmode(e.kind)})
		}
	}
	return r, nil
}

// zunder reports whether p lies strictly below dir (by path components).
func zunder(p, dir string) bool {
	if dir == "/" {
		return len(p) > 1
	}
	return len(p) > len(dir) && p[:len(dir)] == dir && p[len(dir)] == '/'
}

func zparent(p string) string {
	i := len(p) - 1
	for i > 0 && p[i] != '/' {
		i--
	}
	if i == 0 {
		return "/"
	}
	return p[:i]
}
