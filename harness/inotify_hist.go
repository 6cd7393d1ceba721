package notify

import "golang.org/x/sys/unix"

// kspec is what a descriptor is reported as.
type kspec struct {
	wd   int32
	path string
	set  Event
}

type kworld struct {
	k    *kernT
	w    watcher
	c    chan EventInfo
	spec []kspec
	old  []kspec         // of inodes a path no longer names; may still be reported
	ever map[string]bool // requested and not unwatched
	ino  int
}

func kwnew() *kworld {
	z := &kworld{k: knew(), c: make(chan EventInfo, 64), ever: map[string]bool{}}
	z.w = newWatcher(z.c)
	return z
}

// set records a successful request.
func (z *kworld) set(p string, e Event) {
	i := z.k.byIno(z.k.paths[p])
	if i < 0 {
		vFail("C14: a requested path is not watched")
		return
	}
	wd := z.k.watches[i].wd
	var s []kspec
	for _, x := range z.spec {
		if x.wd != wd && x.path != p {
			s = append(s, x)
		} else if x.wd != wd {
			z.old = append(z.old, x)
		}
	}
	z.spec = append(s, kspec{wd, p, e})
	z.ever[p] = true
}

func (z *kworld) has(p string) bool {
	for _, x := range z.spec {
		if x.path == p {
			return true
		}
	}
	return false
}

// gone removes a path; the last one takes the inode with it.
func (z *kworld) gone(p string) {
	ino := z.k.paths[p]
	delete(z.k.paths, p)
	for _, i := range z.k.paths {
		if i == ino {
			return
		}
	}
	if i := z.k.byIno(ino); i >= 0 {
		wt := z.k.watches[i]
		if vTake(wt.mask&unix.IN_DELETE_SELF != 0) {
			z.k.raw(krec{wd: wt.wd, mask: unix.IN_DELETE_SELF})
		}
		z.k.rmWatch(i)
		z.k.poke()
	}
}

// step performs one request or file-system change.
func (z *kworld) step(paths []string) {
	k := z.k
	p := paths[vChoose("path", len(paths))]
	_, exists := k.paths[p]
	switch vChoose("op", 4) {
	case 0: // watch or rewatch
		e := zkset("eset")
		var err error
		if z.ever[p] {
			vTrace("Rewatch", p, uint32(e))
			err = z.w.Rewatch(p, Create, e)
		} else {
			vTrace("Watch", p, uint32(e))
			err = z.w.Watch(p, e)
		}
		vAssert((err == nil) == exists, "C14: a request does not succeed exactly if the path exists")
		if err == nil {
			z.set(p, e)
		}
	case 1:
		vTrace("Unwatch", p)
		err := z.w.Unwatch(p)
		stale := false
		for _, x := range z.old {
			stale = stale || x.path == p
		}
		vAssert((err == nil) == z.has(p) || stale, "C14: Unwatch does not succeed exactly for watched paths")
		var s []kspec
		for _, x := range z.spec {
			if x.path != p {
				s = append(s, x)
			}
		}
		z.spec = s
		s = nil
		for _, x := range z.old {
			if x.path != p {
				s = append(s, x)
			}
		}
		z.old = s
		delete(z.ever, p)
	case 2: // removed or created
		if exists {
			vTrace("rm", p)
			z.gone(p)
		} else {
			vTrace("create", p)
			z.ino++
			k.paths[p] = z.ino
		}
	case 3: // renamed to, or made a link to
		if !exists {
			vEnd()
		}
		q := paths[vChoose("to", len(paths))]
		if q == p {
			vEnd()
		}
		if _, ok := k.paths[q]; ok {
			vEnd()
		}
		k.paths[q] = k.paths[p]
		if vChoose("link", 2) == 1 {
			vTrace("link", p, q)
		} else {
			vTrace("rename", p, q)
			delete(k.paths, p)
		}
	}
}

func (z *kworld) check() {
	k := z.k
	vSettle()
	for len(z.c) > 0 {
		<-z.c
	}
	for _, wt := range k.watches {
		ok := false
		for _, x := range z.spec {
			if x.wd == wt.wd {
				ok = true
				vAssert(wt.mask == kmask(x.set), "C14: the kernel mask is not the latest one requested")
			}
		}
		vAssert(ok, "C14: the kernel still watches something that was given up")
	}
}

// probe reports one record on any descriptor.
func (z *kworld) probe() {
	k := z.k
	wd := int32(1 + vChoose("wd", int(k.nextwd)))
	r := krec{wd: wd, mask: kkind("mask", false), name: kpad("f")}
	var want []kwant
	for _, x := range z.spec {
		if x.wd == wd {
			want = kexpect(x.set, x.path, r)
		}
	}
	old := false
	for _, x := range z.old {
		if x.wd == wd {
			old = true
			want = kexpect(x.set, x.path, r)
		}
	}
	vTrace("record", wd, r.mask)
	k.raw(r)
	vSettle()
	vAssert(old || len(z.c) == len(want), "C14: a record is not reported as the latest request for its descriptor asks")
	for n := len(z.c); n > 0; n-- {
		ei := <-z.c
		ok := false
		for _, x := range want {
			ok = vOr(ok, vAnd(ei.Event() == x.ev, ei.Path() == x.path))
		}
		vAssert(ok, "C14: a record is not reported as the latest request for its descriptor asks")
	}
}

// HC14: any sequence of requests and file-system changes.
func HC14() {
	z := kwnew()
	vMapOrder(vParam("maporder", 1))
	paths := []string{"/w/a", "/w/b", "/w/c"}[:vParam("paths", 2)]
	z.k.paths["/w/a"] = 1
	z.ino = 1
	for i := 0; i < vParam("k", 3); i++ {
		z.step(paths)
		z.check()
	}
	if z.k.nextwd == 1 {
		vEnd()
	}
	z.probe()
	vReach("reported")
	// give up everything
	for _, x := range append([]kspec(nil), z.spec...) {
		err := z.w.Unwatch(x.path)
		vAssert(err == nil, "C14: Unwatch fails")
	}
	vAssert(len(z.k.watches) == 0, "C14: the kernel still watches something that was given up")
}
