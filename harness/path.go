package notify

import (
	"io/fs"
	"os"
	"path/filepath"
	"syscall"
	"time"
)

// Path resolution over a symbolic file system: every node of a small
// directory tree may be absent, a directory, a file or a symlink with an
// arbitrary target. What a node is gets decided when it is first looked at.

const (
	pUnknown = iota
	pAbsent
	pDir
	pFile
	pLink
)

type pnode struct {
	up     *pnode
	name   string
	path   string
	kind   int
	target string
	kids   []*pnode
	depth  int
}

var pnames = []string{"a", "bc"}

type pinfo struct {
	name string
	mode fs.FileMode
}

func (i pinfo) Name() string       { return i.name }
func (i pinfo) Size() int64        { return 0 }
func (i pinfo) Mode() fs.FileMode  { return i.mode }
func (i pinfo) ModTime() time.Time { return time.Time{} }
func (i pinfo) IsDir() bool        { return i.mode&fs.ModeDir != 0 }
func (i pinfo) Sys() interface{}   { return nil }

type pworld struct {
	root  *pnode
	wd    *pnode
	links int  // links created so far
	lax   bool // a slash after a file is fine
}

var pw *pworld

func pnew() *pworld {
	pw = &pworld{}
	pw.root = &pnode{path: "/", kind: pDir}
	pw.root.up = pw.root
	return pw
}

func (n *pnode) kid(name string) *pnode {
	if n.kids == nil && n.depth < vParam("depth", 2) {
		for _, s := range pnames {
			k := &pnode{up: n, name: s, path: n.path + "/" + s, depth: n.depth + 1}
			if n.depth == 0 {
				k.path = "/" + s
			}
			n.kids = append(n.kids, k)
		}
	}
	for _, k := range n.kids {
		if k.name == name {
			k.decide()
			if k.kind == pAbsent {
				return nil
			}
			return k
		}
	}
	return nil
}

// pbytes is an arbitrary string over the alphabet of the model.
func pbytes(name string, n int) string {
	s := vStr(name, n)
	for i := 0; i < n; i++ {
		c := s[i]
		vAssume(vOr(vOr(c == 'a', vOr(c == 'b', c == 'c')), vOr(c == '/', c == '.')))
	}
	return s
}

func (n *pnode) decide() {
	if n.kind != pUnknown {
		return
	}
	k := vU8("kind")
	vAssume(vAnd(k >= pAbsent, k <= pLink))
	switch {
	case k == pDir:
		n.kind = pDir
	case k == pLink:
		n.kind = pLink
		if pw.links++; pw.links > vParam("links", 2) {
			vEnd()
		}
		n.target = pbytes("target", 1+vChoose("targetlen", vParam("target", 4)))
		vTrace("link", n.path, n.target)
	case k == pFile:
		n.kind = pFile
	default:
		n.kind = pAbsent
	}
}

// walk resolves a path the way the kernel does.
func (w *pworld) walk(p string, follow bool, hops *int) (*pnode, error) {
	if len(p) == 0 {
		return nil, syscall.ENOENT
	}
	cur := w.wd
	i := 0
	if p[0] == '/' {
		cur = w.root
		i = 1
	}
	for i < len(p) {
		j := i
		for j < len(p) && p[j] != '/' {
			j++
		}
		c := p[i:j]
		last := j == len(p)
		i = j + 1
		if cur.kind != pDir && !(w.lax && c == "") {
			return nil, syscall.ENOTDIR
		}
		if c == "" || c == "." {
			continue
		}
		if c == ".." {
			cur = cur.up
			continue
		}
		n := cur.kid(c)
		if n == nil {
			return nil, syscall.ENOENT
		}
		if n.kind == pLink && (!last || follow) {
			if *hops++; *hops > 40 {
				return nil, syscall.ELOOP
			}
			wd := w.wd
			w.wd = cur
			m, err := w.walk(n.target, true, hops)
			w.wd = wd
			if err != nil {
				return nil, err
			}
			n = m
		}
		cur = n
	}
	return cur, nil
}

//verif:replace os.Lstat
func pLstat(name string) (os.FileInfo, error) {
	hops := 0
	n, err := pw.walk(name, false, &hops)
	if err != nil {
		return nil, &os.PathError{Op: "lstat", Path: name, Err: err}
	}
	return n.info(), nil
}

//verif:replace os.Stat
func pStat(name string) (os.FileInfo, error) {
	hops := 0
	n, err := pw.walk(name, true, &hops)
	if err != nil {
		return nil, &os.PathError{Op: "stat", Path: name, Err: err}
	}
	return n.info(), nil
}

func (n *pnode) info() os.FileInfo {
	switch n.kind {
	case pDir:
		return pinfo{n.name, fs.ModeDir | 0755}
	case pLink:
		return pinfo{n.name, fs.ModeSymlink | 0777}
	}
	return pinfo{n.name, 0644}
}

//verif:replace os.Readlink
func pReadlink(name string) (string, error) {
	hops := 0
	n, err := pw.walk(name, false, &hops)
	if err == nil && n.kind != pLink {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", &os.PathError{Op: "readlink", Path: name, Err: err}
	}
	return n.target, nil
}

//verif:replace os.Getwd
func pGetwd() (string, error) { return pw.wd.path, nil }

//verif:replace path/filepath.Abs
func pAbs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join(pw.wd.path, p), nil
}

//verif:replace os.ReadDir
func pReadDir(name string) ([]os.DirEntry, error) { return nil, nil }

// pspy records the one path watched.
type pspy struct {
	p string
	e Event
	n int
}

func (s *pspy) Watch(p string, e Event) error {
	s.p, s.e = p, e
	s.n++
	return nil
}
func (s *pspy) Rewatch(p string, old, e Event) error { return errNotWatched }
func (s *pspy) Unwatch(p string) error               { return errNotWatched }
func (s *pspy) Close() error                         { return nil }

// resolve gives the path that gets watched when the user asks for p.
func (w *pworld) resolve(p string) (string, bool, error) {
	s := &pspy{}
	t := newNonrecursiveTree(s, make(chan EventInfo), nil)
	err := t.Watch(p, make(chan EventInfo, 1), Write)
	if err != nil {
		vAssert(s.n == 0, "C11: something is watched although the path is refused")
		return "", false, err
	}
	vAssert(s.n == 1, "C11: not exactly one path is watched")
	return s.p, s.e&Create != 0, nil
}

// HC11: an arbitrary path over an arbitrary file system.
func HC11() {
	w := pnew()
	w.wd = w.root
	n := 1 + vChoose("len", vParam("n", 6))
	p := pbytes("path", n)
	if vChoose("abs", 2) == 1 {
		p = "/" + p
	} else if vChoose("wd", 2) == 1 {
		d := &pnode{up: w.root, name: "a", path: "/a", depth: 1, kind: pDir}
		e := &pnode{up: w.root, name: "bc", path: "/bc", depth: 1}
		w.root.kids = []*pnode{d, e}
		w.wd = d
	}
	isrec := false
	q := p
	if len(p) >= 3 && p[len(p)-3:] == "..." {
		isrec = true
		q = p[:len(p)-3]
	}
	q, err := pAbs(q)
	must(err)
	hops := 0
	want, werr := w.walk(q, true, &hops)
	slash := false
	if werr == syscall.ENOTDIR {
		// "file/" is not told from "file" in a link
		w.lax = true
		hops = 0
		want, err = w.walk(q, true, &hops)
		slash = err == nil
		w.lax = false
	}
	if werr == syscall.ELOOP {
		if vParam("loops", 1) == 0 {
			vEnd()
		}
		vReach("loop")
	}
	vTrace("path", p)
	got, rec, err := w.resolve(p)
	if slash {
		vAssert(err != nil || got == want.path, "C11: the path does not resolve to the real path")
		return
	}
	if werr != nil {
		vAssert(err != nil, "C11: an unresolvable path is resolved")
		vReach("refused")
		return
	}
	vAssert(err == nil, "C11: a valid path is refused")
	vAssert(rec == isrec, "C11: the trailing ... is misread")
	vAssert(got == want.path, "C11: the path does not resolve to the real path")
	vReach("resolved")
}

// HC11long: long paths and many links are no reason to fail.
func HC11long() {
	w := pnew()
	cur := w.root
	p := ""
	n := vParam("n", 24)
	from, abs := n, false
	if vParam("longlinks", 1) == 1 {
		from = vChoose("from", n)
		abs = vBool("abs")
	}
	for i := 0; i < n; i++ {
		d := &pnode{up: cur, name: "a", path: cur.path + "/a", depth: 100, kind: pDir}
		if cur == w.root {
			d.path = "/a"
		}
		l := &pnode{up: cur, name: "bc", depth: 100, kind: pLink, target: "a"}
		if abs {
			l.target = d.path
		}
		cur.kids = []*pnode{d, l}
		if i >= from {
			p += "/bc"
		} else {
			p += "/a"
		}
		cur = d
	}
	w.wd = w.root
	vTrace("path", p)
	got, _, err := w.resolve(p)
	vAssert(err == nil, "C11: a valid path is refused")
	vAssert(got == cur.path, "C11: the path does not resolve to the real path")
	vReach("resolved")
}
