From 8e531ddec27fd8bb32e4c7b6e697d473b77bdb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 01/39] fix: Stop leaves directories watched below a stopped
 recursive watchpoint

The internal events of a node were not narrowed down when another channel
still watched the node, so its subdirectories stayed watched until that
channel was stopped as well.
---
 tree_nonrecursive.go | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 6e23340..c92e7dc 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -128,32 +128,27 @@ func (t *nonrecursiveTree) watchAdd(nd node, c chan<- EventInfo, e Event) eventD
 	return nd.Watch.Add(c, e)
 }
 
-// watchDelMin TODO(rjeczalik)
+// watchDelMin removes the e events of the c channel from the nd watchpoint. The
+// events watched internally on behalf of recursive watchpoints are narrowed down
+// to the min ones (required by the parent node) and the ones still requested by
+// the remaining recursive watchpoints of the node.
 func (t *nonrecursiveTree) watchDelMin(min Event, nd node, c chan<- EventInfo, e Event) eventDiff {
-	old, ok := nd.Watch[t.rec]
-	if ok {
-		nd.Watch[t.rec] = min
-	}
-	diff := nd.Watch.Del(c, e)
-	if ok {
-		switch old &^= diff[0] &^ diff[1]; {
-		case old|internal == internal:
-			delete(nd.Watch, t.rec)
-			if set, ok := nd.Watch[nil]; ok && len(nd.Watch) == 1 && set == 0 {
-				delete(nd.Watch, nil)
+	if old, ok := nd.Watch[t.rec]; ok {
+		for ch, set := range nd.Watch {
+			if ch == c {
+				set &^= e
 			}
-		default:
-			nd.Watch.Add(t.rec, old|Create)
-			switch {
-			case diff == none:
-			case diff[1]|Create == diff[0]:
-				diff = none
-			default:
-				diff[1] |= Create
+			if ch != nil && ch != t.rec && set&recursive != 0 {
+				min |= set | omit | Create
 			}
 		}
+		if min &= old; min != 0 {
+			nd.Watch[t.rec] = min
+		} else {
+			delete(nd.Watch, t.rec)
+		}
 	}
-	return diff
+	return nd.Watch.Del(c, e)
 }
 
 // watchDel TODO(rjeczalik)
-- 
2.43.0


From 94bebab3ccf08b27db104ddbe9f744256be95142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 02/39] fix: a failed Watch keeps part of the refused events
 registered

The rollback removed only the events new to the whole path, so events of
the refused call that another channel already watched stayed registered.
---
 tree_nonrecursive.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index c92e7dc..49a1d1b 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -180,6 +180,7 @@ func (t *nonrecursiveTree) Watch(path string, c chan<- EventInfo, events ...Even
 }
 
 func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err error) {
+	old := nd.Watch[c]
 	diff := nd.Watch.Add(c, e)
 	switch {
 	case diff == none:
@@ -193,7 +194,7 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 		err = t.w.Rewatch(nd.Name, diff[0], diff[1])
 	}
 	if err != nil {
-		nd.Watch.Del(c, diff.Event())
+		nd.Watch.Del(c, e&^old)
 		return err
 	}
 	return nil
-- 
2.43.0


From 5bf833d6bafaeaa7476b4b1b172ae94e6c74a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 03/39] fix: a failed recursive Watch leaves stray watches and
 breaks a retry

When reading a directory failed, the directories visited before stayed
watched without a listener, and a later recursive Watch of the same path
took the leftovers for a complete subtree and watched nothing below.
---
 tree_nonrecursive.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 49a1d1b..78b50fc 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -239,6 +239,9 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
 	if err := traverse(t.recFunc(e)); err != nil {
+		// Give up the directories watched so far unless they are needed by
+		// other recursive watchpoints.
+		t.walkWatchpoint(t.root.nd, t.delFunc(c, 0))
 		return err
 	}
 	t.watchAdd(nd, c, e)
@@ -276,12 +279,13 @@ Traverse:
 	return nil
 }
 
-// Stop TODO(rjeczalik)
-func (t *nonrecursiveTree) Stop(c chan<- EventInfo) {
-	fn := func(min Event, nd node) error {
+// delFunc gives a function which removes the e events of the c channel from
+// a watchpoint and updates its watch accordingly.
+func (t *nonrecursiveTree) delFunc(c chan<- EventInfo, e Event) walkWatchpointFunc {
+	return func(min Event, nd node) error {
 		// TODO(rjeczalik): aggregate watcher errors and retry; in worst case
 		// forward to the user.
-		switch diff := t.watchDelMin(min, nd, c, all); {
+		switch diff := t.watchDelMin(min, nd, c, e); {
 		case diff == none:
 			return nil
 		case diff[1] == 0:
@@ -291,8 +295,12 @@ func (t *nonrecursiveTree) Stop(c chan<- EventInfo) {
 		}
 		return nil
 	}
+}
+
+// Stop TODO(rjeczalik)
+func (t *nonrecursiveTree) Stop(c chan<- EventInfo) {
 	t.rw.Lock()
-	err := t.walkWatchpoint(t.root.nd, fn) // TODO(rjeczalik): store max root per c
+	err := t.walkWatchpoint(t.root.nd, t.delFunc(c, all)) // TODO(rjeczalik): store max root per c
 	t.rw.Unlock()
 	dbgprintf("Stop(%p) error: %v\n", c, err)
 }
-- 
2.43.0


From 86c953cba89540a83a1ef80ce118391f719ea001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 04/39] fix: directory created below two recursive watchpoints
 misses events

The event sets of the recursive watchpoints found on the path of a created
directory were not joined; only the numerically greatest one was used, which
misses events when the directory was watched before its creation event was
handled.
---
 tree_nonrecursive.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 78b50fc..843fa46 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -97,9 +97,7 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		var nd node
 		var eset = internal
 		t.root.WalkPath(ei.Path(), func(it node, _ bool) error {
-			if e := it.Watch[t.rec]; e != 0 && e > eset {
-				eset = e
-			}
+			eset |= it.Watch[t.rec]
 			nd = it
 			return nil
 		})
-- 
2.43.0


From bddd6e06e76b78ea59ea2f87936b2b1b6ec85f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 05/39] fix: recreated directory is not watched when its events
 come reordered

---
 tree_nonrecursive.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 843fa46..2b230a7 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -4,7 +4,10 @@
 
 package notify
 
-import "sync"
+import (
+	"os"
+	"sync"
+)
 
 // nonrecursiveTree TODO(rjeczalik)
 type nonrecursiveTree struct {
@@ -91,8 +94,12 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 				return nil
 			})
 			t.root.Del(ei.Path())
-			t.rw.Unlock()
-			continue
+			// The events may come reordered: watch the directory anew if it
+			// has been recreated in the meantime.
+			if fi, err := os.Lstat(ei.Path()); err != nil || !fi.IsDir() {
+				t.rw.Unlock()
+				continue
+			}
 		}
 		var nd node
 		var eset = internal
-- 
2.43.0


From c4c205b4a6856a74c4cd43e1c2006686a8f4dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 06/39] fix: directory whose watch failed is never watched
 again

---
 tree_nonrecursive.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 2b230a7..209dde0 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -213,7 +213,11 @@ func (t *nonrecursiveTree) recFunc(e Event) walkFunc {
 			// TODO(rjeczalik): cleanup this panic after implementation is stable
 			panic("eset is empty: " + nd.Name)
 		case diff[0] == 0:
-			t.w.Watch(nd.Name, diff[1])
+			// The directory may be gone already. Do not take it for watched,
+			// it would not be watched when created again.
+			if err := t.w.Watch(nd.Name, diff[1]); err != nil {
+				nd.Watch.Del(t.rec, all)
+			}
 		default:
 			t.w.Rewatch(nd.Name, diff[0], diff[1])
 		}
-- 
2.43.0


From a93d5a10ec111c82e2f596a9988f6ed16298b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 07/39] fix: keep traversing when one directory cannot be read

A directory that vanished or is unreadable stopped AddDir, so its siblings
which appeared together with it were never watched.
---
 node.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index ad7d04f..0db5a1e 100644
--- a/node.go
+++ b/node.go
@@ -61,7 +61,9 @@ func (nd node) Add(name string) node {
 }
 
 func (nd node) AddDir(fn walkFunc) error {
+	var reterr error
 	stack := []node{nd}
+	top := nd.Name
 Traverse:
 	for n := len(stack); n != 0; n = len(stack) {
 		nd, stack = stack[n-1], stack[:n-1]
@@ -76,11 +78,16 @@ Traverse:
 				Err:  err,
 			}
 		}
-		// TODO(rjeczalik): tolerate open failures - add failed names to
-		// AddDirError and notify users which names are not added to the tree.
+		// TODO(rjeczalik): add failed names to AddDirError and notify users
+		// which names are not added to the tree.
 		fi, err := os.ReadDir(nd.Name)
 		if err != nil {
-			return err
+			// A failure does not keep the other directories from being
+			// traversed. It's not one if the directory has just been removed.
+			if reterr == nil && (!os.IsNotExist(err) || nd.Name == top) {
+				reterr = err
+			}
+			continue Traverse
 		}
 		for _, fi := range fi {
 			if fi.Type()&(fs.ModeSymlink|fs.ModeDir) == fs.ModeDir {
@@ -89,7 +96,7 @@ Traverse:
 			}
 		}
 	}
-	return nil
+	return reterr
 }
 
 func (nd node) Get(name string) (node, error) {
-- 
2.43.0


From 2dd9c7367d6f2ecf46e8df37d6d2d671c76762fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 08/39] fix: symlink to a one-letter path in the root directory
 is not resolved

The restart skipped a name as short as that, so neither was its existence
checked nor was it resolved if it was a symlink itself.
---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 7b50b0c..3550514 100644
--- a/util.go
+++ b/util.go
@@ -92,7 +92,7 @@ func canonical(p string) (string, error) {
 			} else {
 				p = p[:j] + s + p[i:]
 			}
-			i = 1 // no guarantee s is canonical, start all over
+			i = 0 // no guarantee s is canonical, start all over
 		}
 	}
 	return filepath.Clean(p), nil
-- 
2.43.0


From 9807fb6bc3c6a13cab442074ed67258298ef8fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 09/39] fix: long paths and paths with many symlinks are
 refused as circular

The limit counted path elements visited, restarting on every symlink, instead
of the symlinks.
---
 util.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util.go b/util.go
index 3550514..032a749 100644
--- a/util.go
+++ b/util.go
@@ -63,16 +63,13 @@ func cleanpath(path string) (realpath string, isrec bool, err error) {
 
 // canonical resolves any symlink in the given path and returns it in a clean form.
 // It expects the path to be absolute. It fails to resolve circular symlinks by
-// maintaining a simple iteration limit.
+// maintaining a simple limit on the number of resolved symlinks.
 func canonical(p string) (string, error) {
 	p, err := filepath.Abs(p)
 	if err != nil {
 		return "", err
 	}
-	for i, j, depth := 1, 0, 1; i < len(p); i, depth = i+1, depth+1 {
-		if depth > 128 {
-			return "", &os.PathError{Op: "canonical", Path: p, Err: errDepth}
-		}
+	for i, j, depth := 1, 0, 0; i < len(p); i++ {
 		if j = strings.IndexRune(p[i:], '/'); j == -1 {
 			j, i = i, len(p)
 		} else {
@@ -83,6 +80,9 @@ func canonical(p string) (string, error) {
 			return "", err
 		}
 		if fi.Mode()&os.ModeSymlink == os.ModeSymlink {
+			if depth++; depth > 128 {
+				return "", &os.PathError{Op: "canonical", Path: p, Err: errDepth}
+			}
 			s, err := os.Readlink(p[:i])
 			if err != nil {
 				return "", err
-- 
2.43.0


From 64e031cb3d9ae86d60442021b2b57d37d25c4c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 10/39] fix: Unwatch on Linux gives up the wrong descriptor of
 a recreated path

A path watched again after it had been removed or renamed and created anew has
two descriptors. Unwatch removed any of them, which left the file watched; and
a renamed file was still reported under its former path.
---
 watcher_inotify.go | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 02b4328..8e34f0d 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -72,18 +72,18 @@ func newWatcher(c chan<- EventInfo) watcher {
 
 // Watch implements notify.watcher interface.
 func (i *inotify) Watch(path string, e Event) error {
-	return i.watch(path, e)
+	return i.watch(path, e, false)
 }
 
 // Rewatch implements notify.watcher interface.
 func (i *inotify) Rewatch(path string, _, newevent Event) error {
-	return i.watch(path, newevent)
+	return i.watch(path, newevent, true)
 }
 
 // watch adds a new watcher to the set of watched objects or modifies the existing
 // one. If called for the first time, this function initializes inotify filesystem
 // monitor and starts producer-consumers goroutines.
-func (i *inotify) watch(path string, e Event) (err error) {
+func (i *inotify) watch(path string, e Event, rewatch bool) (err error) {
 	if e&^(All|Event(unix.IN_ALL_EVENTS)) != 0 {
 		return errors.New("notify: unknown event")
 	}
@@ -97,6 +97,15 @@ func (i *inotify) watch(path string, e Event) (err error) {
 	i.Lock()
 	if wd, ok := i.m[int32(iwd)]; !ok {
 		i.m[int32(iwd)] = &watched{path: path, mask: uint32(e)}
+		if rewatch {
+			// The path names another file than it used to, stop watching
+			// the former one.
+			for iwdkey, wd := range i.m {
+				if wd.path == path && iwdkey != int32(iwd) {
+					removeInotifyWatch(i.fd, iwdkey) // Ignore error.
+				}
+			}
+		}
 	} else {
 		wd.path = path
 		wd.mask = uint32(e)
@@ -335,31 +344,35 @@ func decode(mask Event, e *event) (syse *event) {
 	return
 }
 
-// Unwatch implements notify.watcher interface. It looks for watch descriptor
+// Unwatch implements notify.watcher interface. It looks for watch descriptors
 // related to registered path and if found, calls inotify_rm_watch(2) function.
+// There is more than one descriptor when the path was watched again after it
+// had been removed or renamed and created anew.
 // This method is allowed to return EINVAL error when concurrently requested to
 // delete identical path.
 func (i *inotify) Unwatch(path string) (err error) {
-	iwd := int32(invalidDescriptor)
+	var iwds []int32
 	i.RLock()
 	for iwdkey, wd := range i.m {
 		if wd.path == path {
-			iwd = iwdkey
-			break
+			iwds = append(iwds, iwdkey)
 		}
 	}
 	i.RUnlock()
-	if iwd == invalidDescriptor {
+	if len(iwds) == 0 {
 		return errors.New("notify: path " + path + " is already watched")
 	}
 	fd := atomic.LoadInt32(&i.fd)
-	if err = removeInotifyWatch(fd, iwd); err != nil {
-		return
+	for _, iwd := range iwds {
+		if e := removeInotifyWatch(fd, iwd); e != nil {
+			err = nonil(err, e)
+			continue
+		}
+		i.Lock()
+		delete(i.m, iwd)
+		i.Unlock()
 	}
-	i.Lock()
-	delete(i.m, iwd)
-	i.Unlock()
-	return nil
+	return err
 }
 
 // Close implements notify.watcher interface. It removes all existing watch
-- 
2.43.0


From be0855661a79c1a9d5e6580754c302f2425471a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 11/39] fix: file descriptor 0 is closed when pipe(2) fails

The descriptors were left at zero, epollclose took them for open ones.
---
 watcher_inotify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 8e34f0d..01a98a8 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -154,6 +154,8 @@ func (i *inotify) epollinit() (err error) {
 		return
 	}
 	if err = unix.Pipe(i.pipefd); err != nil {
+		// Pipe zeroes the descriptors on failure, do not close stdin.
+		i.pipefd[0], i.pipefd[1] = invalidDescriptor, invalidDescriptor
 		return
 	}
 	i.epes = []unix.EpollEvent{
-- 
2.43.0


From c2279404fa32b9d490558d9831daeb902186e5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 12/39] fix: recursive watch is not requested when the parent
 covers the event set

A watch below a plain one, or a recursive watch on the path of a plain
one, was taken for covered when it asked for no new events, while the
OS watch did not report the subtree.
---
 tree_recursive.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree_recursive.go b/tree_recursive.go
index 7f00dfe..893baf9 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -189,12 +189,17 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// Parent watch found. Register inactive watchpoint, so we have enough
 		// information to shrink the eventset on eventual Stop.
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
+		wasrec := watchIsRecursive(parent)
 		var diff eventDiff
 		if self {
 			diff = watchAdd(cur, c, eventset)
 		} else {
 			diff = watchAddInactive(parent, c, eventset)
 		}
+		if diff == none && !wasrec && watchIsRecursive(parent) {
+			// The eventset is covered already, the subtree is not.
+			diff = eventDiff{watchTotal(parent), watchTotal(parent)}
+		}
 		switch {
 		case diff == none:
 			// the parent watchpoint already covers requested subtree with its
-- 
2.43.0


From b3d013ab1c48212c1d1b4c8e09a18a793878933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 13/39] fix: Stop unwatches a path other channels still listen
 on

Stopping the only channel that listens below a natively recursive watch
removed the watch (or shrank it too far) even though another channel was
registered on its path.
---
 tree_recursive.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 893baf9..a40b751 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -58,16 +58,14 @@ func watchCopy(src, dst node) {
 
 // watchDel TODO(rjeczalik)
 func watchDel(nd node, c chan<- EventInfo, e Event) eventDiff {
-	diff := nd.Watch.Del(c, e)
+	diff := eventDiff{watchTotal(nd)}
+	nd.Watch.Del(c, e)
 	if wp := nd.Child[""].Watch; len(wp) != 0 {
-		diffInactive := wp.Del(c, e)
-		e = wp.Total()
-		// TODO(rjeczalik): add e if e != all?
-		diff[0] |= diffInactive[0] | e
-		diff[1] |= diffInactive[1] | e
-		if diff[0] == diff[1] {
-			return none
-		}
+		wp.Del(c, e)
+	}
+	diff[1] = watchTotal(nd)
+	if diff[0] == diff[1] {
+		return none
 	}
 	return diff
 }
-- 
2.43.0


From 1193fbfbb0a8594f0584d64761e59a98e488daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 14/39] fix: new parent of a watch kept for inner watchpoints
 relocates the wrong path

A natively recursive watch whose own watchpoint is gone but which still
serves watchpoints below it was overlooked when a parent of it was
watched: Watch failed with a not-watched error and the old watch leaked.
---
 tree_recursive.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index a40b751..e30c226 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -45,14 +45,11 @@ func watchCopy(src, dst node) {
 		}
 		watchAddInactive(dst, c, e)
 	}
-	if wpsrc := src.Child[""].Watch; len(wpsrc) != 0 {
-		wpdst := dst.Child[""].Watch
-		for c, e := range wpsrc {
-			if c == nil {
-				continue
-			}
-			wpdst.Add(c, e)
+	for c, e := range src.Child[""].Watch {
+		if c == nil {
+			continue
 		}
+		watchAddInactive(dst, c, e)
 	}
 }
 
@@ -229,7 +226,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 	// Look for children nodes, unwatch n-1 of them and rewatch the last one.
 	var children []node
 	fn := func(nd node) error {
-		if len(nd.Watch) == 0 {
+		if watchTotal(nd) == 0 {
 			return nil
 		}
 		children = append(children, nd)
-- 
2.43.0


From 6ace9b66d68b663ea97f0a29ec25c9c203fd6b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 15/39] fix: failed Watch on a natively recursive platform
 corrupts the tree

After the OS refused a watch, part of its event set stayed registered,
and the path was taken for watched by later calls.
---
 tree_recursive.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index e30c226..0077d3a 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -186,9 +186,12 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
 		wasrec := watchIsRecursive(parent)
 		var diff eventDiff
+		var had Event // events of c to be kept on failure
 		if self {
+			had = cur.Watch[c]
 			diff = watchAdd(cur, c, eventset)
 		} else {
+			had = parent.Child[""].Watch[c]
 			diff = watchAddInactive(parent, c, eventset)
 		}
 		if diff == none && !wasrec && watchIsRecursive(parent) {
@@ -209,7 +212,11 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 				err = t.w.Rewatch(parent.Name, diff[0], diff[1])
 			}
 			if err != nil {
-				watchDel(parent, c, diff.Event())
+				if self {
+					cur.Watch.Del(c, eventset&^had)
+				} else {
+					parent.Child[""].Watch.Del(c, eventset&^had)
+				}
 				return err
 			}
 			watchAdd(cur, c, eventset)
@@ -242,8 +249,8 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			watchTotal(cur))
 		if err != nil {
 			// Clean inactive watchpoint. The c chan did not exist before.
-			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			delete(cur.Child, "")
+			cur.Watch.Del(c, all)
 			return err
 		}
 		return nil
@@ -256,8 +263,8 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// Watch parent subtree.
 		if err = t.w.RecursiveWatch(cur.Name, watchTotal(cur)); err != nil {
 			// Clean inactive watchpoint. The c chan did not exist before.
-			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			delete(cur.Child, "")
+			cur.Watch.Del(c, all)
 			return err
 		}
 		// Unwatch children subtrees.
@@ -288,7 +295,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			err = t.w.Watch(cur.Name, diff[1])
 		}
 		if err != nil {
-			watchDel(cur, c, diff.Event())
+			cur.Watch.Del(c, all)
 			return err
 		}
 	default:
-- 
2.43.0


From 51317c308571abbe4eb7a9dd73fc34f502c0a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 16/39] fix: failed relocation of an FSEvents watch loses the
 old watch

RecursiveRewatch stopped the old stream before the new one was known to
work, while its caller keeps the old watch when the call fails.
---
 watcher_fsevents.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/watcher_fsevents.go b/watcher_fsevents.go
index dab5286..321ba6e 100644
--- a/watcher_fsevents.go
+++ b/watcher_fsevents.go
@@ -293,11 +293,14 @@ func (fse *fsevents) RecursiveRewatch(oldpath, newpath string, oldevent, neweven
 		if _, ok := fse.watches[newpath]; ok {
 			return errAlreadyWatched
 		}
-		if err := fse.Unwatch(oldpath); err != nil {
+		if _, ok := fse.watches[oldpath]; !ok {
+			return errNotWatched
+		}
+		// Keep the old watch until the new one works.
+		if err := fse.watch(newpath, newevent, 1); err != nil {
 			return err
 		}
-		// TODO(rjeczalik): revert unwatch if watch fails?
-		return fse.watch(newpath, newevent, 1)
+		return fse.Unwatch(oldpath)
 	}
 }
 
-- 
2.43.0


From cd44375771663b8c3f99a0c0e1edd094d1593ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 17/39] fix: FileNotify watches report changes below their
 depth to every channel

matches ignored the recursive flag when it compared modification filters.
---
 watchpoint_readdcw.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/watchpoint_readdcw.go b/watchpoint_readdcw.go
index 49a9b9c..1832cc6 100644
--- a/watchpoint_readdcw.go
+++ b/watchpoint_readdcw.go
@@ -35,5 +35,8 @@ func eventmask(ei EventInfo, extra Event) (e Event) {
 //
 // Internal events must not be sent to user channels and vice versa.
 func matches(set, event Event) bool {
-	return (set&omit)^(event&omit) == 0 && (set&event == event || set&fileNotifyChangeModified&event != 0)
+	if (set^event)&omit != 0 || event&recursive&^set != 0 {
+		return false
+	}
+	return set&event == event || set&fileNotifyChangeModified&event != 0
 }
-- 
2.43.0


From e66195daefae6f5b656d49309715db52a20c2bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 18/39] fix: Windows rewatch to directory names only requests
 an empty filter

The state bits made the file filter look non-empty; the invalid request
then failed and the watch was lost.
---
 watcher_readdcw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index b0dee41..1cacc77 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -186,6 +186,7 @@ func newWatched(cph syscall.Handle, filter uint32, recursive bool,
 
 // TODO : doc
 func (wd *watched) recreate(cph syscall.Handle) (err error) {
+	wd.filter &^= onlyMachineStates
 	filefilter := wd.filter &^ uint32(FileNotifyChangeDirName)
 	if err = wd.updateGrip(0, cph, filefilter == 0, filefilter); err != nil {
 		return
@@ -194,7 +195,6 @@ func (wd *watched) recreate(cph syscall.Handle) (err error) {
 	if err = wd.updateGrip(1, cph, dirfilter == 0, wd.filter|uint32(dirmarker)); err != nil {
 		return
 	}
-	wd.filter &^= onlyMachineStates
 	return
 }
 
-- 
2.43.0


From 86b0317342243a02ab0b4b275890c964bac6765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 19/39] fix: Windows watch for Rename alone misses renamed
 directories

---
 watcher_readdcw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index 1cacc77..1799552 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -191,7 +191,7 @@ func (wd *watched) recreate(cph syscall.Handle) (err error) {
 	if err = wd.updateGrip(0, cph, filefilter == 0, filefilter); err != nil {
 		return
 	}
-	dirfilter := wd.filter & uint32(FileNotifyChangeDirName|Create|Remove)
+	dirfilter := wd.filter & uint32(FileNotifyChangeDirName|Create|Remove|Rename)
 	if err = wd.updateGrip(1, cph, dirfilter == 0, wd.filter|uint32(dirmarker)); err != nil {
 		return
 	}
-- 
2.43.0


From 78ba4bf2d9e153b0330235b815624777df752208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 20/39] fix: Windows Watch after Stop keeps the event set of
 the stopped watch

---
 watcher_readdcw.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index 1799552..3f2543e 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -303,9 +303,15 @@ func (r *readdcw) watch(path string, event Event, recursive bool) error {
 	defer r.Unlock()
 
 	if wd, ok := r.m[path]; ok {
-		dbgprint("watch: already exists")
-		wd.filter &^= stateUnwatch
-		return nil
+		if wd.filter&stateUnwatch == 0 {
+			dbgprint("watch: already exists")
+			return nil
+		}
+		// The path is still being unwatched, with an old event set.
+		if err := wd.closeHandle(); err != nil {
+			return err
+		}
+		delete(r.m, path)
 	}
 
 	if err := r.lazyinit(); err != nil {
@@ -389,7 +395,10 @@ func (r *readdcw) loopstate(overEx *overlappedEx) {
 		case stateUnwatch:
 			dbgprint("loopstate unwatch")
 			overEx.parent.parent.closeHandle()
-			delete(r.m, syscall.UTF16ToString(overEx.parent.pathw))
+			path := syscall.UTF16ToString(overEx.parent.pathw)
+			if r.m[path] == overEx.parent.parent {
+				delete(r.m, path)
+			}
 		case stateCPClose:
 		default:
 			panic(`notify: windows loopstate logic error`)
-- 
2.43.0


From 939711c2145ef1dd1d0adeb44fadc4447506b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 21/39] fix: failed relocation of a Windows watch loses the old
 watch

---
 watcher_readdcw.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index 3f2543e..d3ae5b1 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -470,10 +470,15 @@ func (r *readdcw) Rewatch(path string, oldevent, newevent Event) error {
 func (r *readdcw) RecursiveRewatch(oldpath, newpath string, oldevent,
 	newevent Event) error {
 	if oldpath != newpath {
+		// Keep the old watch until the new one works.
+		if err := r.watch(newpath, newevent, true); err != nil {
+			return err
+		}
 		if err := r.unwatch(oldpath); err != nil {
+			r.unwatch(newpath)
 			return err
 		}
-		return r.watch(newpath, newevent, true)
+		return nil
 	}
 	return r.rewatch(newpath, uint32(oldevent), uint32(newevent), true)
 }
-- 
2.43.0


From 4fc6db6fbab0169a75cd1993fd4ecae31259a4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 22/39] fix: refused Windows watch leaks the directory handle

---
 watcher_readdcw.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index d3ae5b1..ea525d1 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -100,11 +100,14 @@ func (g *grip) register(cph syscall.Handle) (err error) {
 	); err != nil {
 		return
 	}
-	if _, err = syscall.CreateIoCompletionPort(g.handle, cph, 0, 0); err != nil {
+	if _, err = syscall.CreateIoCompletionPort(g.handle, cph, 0, 0); err == nil {
+		err = g.readDirChanges()
+	}
+	if err != nil {
 		syscall.CloseHandle(g.handle)
-		return
+		g.handle = syscall.InvalidHandle
 	}
-	return g.readDirChanges()
+	return
 }
 
 // readDirChanges tells the system to store file change information in grip's
-- 
2.43.0


From 1517615664fba1705e5eaa59503f144c5fb3b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 23/39] fix: Rewatch of the kqueue and FEN watcher hides every
 failure

---
 watcher_trigger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 7cd0824..31f3871 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -291,7 +291,7 @@ func (t *trg) Rewatch(p string, _, e Event) error {
 		err = t.watch(p, e, fi)
 	}
 	t.Unlock()
-	return nil
+	return err
 }
 
 func (*trg) file(w *watched, n interface{}, e Event) (evn []event) {
-- 
2.43.0


From c61559b61a387b0fe955be1b451355c2e66c4fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 24/39] fix: kqueue closes the descriptor of a removed
 directory twice

process lets go of it once more right after.
---
 watcher_trigger.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 31f3871..a3ba6f7 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -328,7 +328,6 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 				}
 			}
 		}
-		t.t.Del(w)
 		return
 	}
 	if (ge & not2nat[Write]) != 0 {
-- 
2.43.0


From e71b0b0b2c3b2674fcbc134fea249432493f01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 25/39] fix: kqueue opens files below the subdirectories of a
 watched directory

They were registered for no events and stayed open after Unwatch.
---
 watcher_trigger.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index a3ba6f7..047c39b 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -330,7 +330,9 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 		}
 		return
 	}
-	if (ge & not2nat[Write]) != 0 {
+	// The content of a directory which is merely an entry of a watched one
+	// is not watched.
+	if (ge&not2nat[Write]) != 0 && w.eDir != 0 {
 		switch err := t.walk(w.p, func(fi os.FileInfo) error {
 			p := filepath.Join(w.p, fi.Name())
 			switch err := t.singlewatch(p, w.eDir, ndir, fi); {
-- 
2.43.0


From 63624c7415b30b82e99522063b4541170c32fb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 26/39] fix: kqueue and FEN lose track of the files of a
 watched directory

Without Create or Write in the event set new files of a directory were not
watched. Without Remove and Rename a file that was removed or renamed was
taken for watched; a new one in its place was neither watched nor reported.
---
 watcher_fen.go     |  7 ++++---
 watcher_kqueue.go  | 18 +++++++-----------
 watcher_trigger.go | 11 ++++-------
 3 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/watcher_fen.go b/watcher_fen.go
index 114ec7f..d5b4bba 100644
--- a/watcher_fen.go
+++ b/watcher_fen.go
@@ -128,10 +128,11 @@ func init() {
 		// Create event is not supported by FEN. Instead FileModified event will
 		// be registered. If this event will be reported on dir which is to be
 		// monitored for Create, dir will be rescanned and Create events will
-		// be generated and returned for new files. In case of files,
-		// if not requested FileModified event is reported, it will be ignored.
+		// be generated and returned for new files. Directories are rescanned
+		// whatever the event set is, as new files are to be monitored, too.
+		// Not requested FileModified event will be ignored.
 		o = int64(e &^ Create)
-		if (e&Create != 0 && dir) || e&Write != 0 {
+		if dir || e&Write != 0 {
 			o = (o &^ int64(Write)) | int64(FileModified)
 		}
 		// Following events are 'exception events' and as such cannot be requested
diff --git a/watcher_kqueue.go b/watcher_kqueue.go
index 715edfb..efa3531 100644
--- a/watcher_kqueue.go
+++ b/watcher_kqueue.go
@@ -171,17 +171,13 @@ func init() {
 		// be registered for a directory. If this event will be reported on dir
 		// which is to be monitored for Create, dir will be rescanned
 		// and Create events will be generated and returned for new files.
-		// In case of files, if not requested NoteRename event is reported,
-		// it will be ignored.
-		o = int64(e &^ Create)
-		if (e&Create != 0 && dir) || e&Write != 0 {
-			o = (o &^ int64(Write)) | int64(NoteWrite)
-		}
-		if e&Rename != 0 {
-			o = (o &^ int64(Rename)) | int64(NoteRename)
-		}
-		if e&Remove != 0 {
-			o = (o &^ int64(Remove)) | int64(NoteDelete)
+		// Directories are rescanned whatever the event set is, as new files
+		// are to be monitored, too.
+		// NoteRename and NoteDelete end the watch of a file, they are always
+		// registered. Not requested events will be ignored.
+		o = int64(e&^(Create|Write|Rename|Remove) | NoteRename | NoteDelete)
+		if dir || e&Write != 0 {
+			o |= int64(NoteWrite)
 		}
 		return
 	}
diff --git a/watcher_trigger.go b/watcher_trigger.go
index 047c39b..48478ac 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -310,7 +310,9 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 	if (ge & (not2nat[Rename] | not2nat[Remove])) != 0 {
 		// Write is reported also for Remove on directory. Because of that
 		// we have to filter it out explicitly.
-		evn = append(evn, event{w.p, e & ^Write & ^not2nat[Write], true, n})
+		if e &= ^Write & ^not2nat[Write]; e != 0 {
+			evn = append(evn, event{w.p, e, true, n})
+		}
 		if ge&not2nat[Rename] != 0 {
 			for p := range t.pthLkp {
 				if strings.HasPrefix(p, w.p+string(os.PathSeparator)) {
@@ -437,14 +439,9 @@ func (t *trg) process(n interface{}) (evn []event) {
 			}
 		}
 	}
-	if e == Event(0) && (!w.fi.IsDir() || (ge&int64(not2nat[Write])) == 0) {
-		t.Unlock()
-		return
-	}
-
 	if w.fi.IsDir() {
 		evn = append(evn, t.dir(w, n, e, Event(ge))...)
-	} else {
+	} else if e != 0 {
 		evn = append(evn, t.file(w, n, e)...)
 	}
 	if Event(ge)&(not2nat[Remove]|not2nat[Rename]) != 0 {
-- 
2.43.0


From 1061ea25b7bcc798cce267ebce1ff5fb487d4900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 27/39] fix: FEN associates a file watched twice twice

A second Watch of a file, as by a Watch of its directory, made a second
association under a new file object and forgot the first one: its events
came twice or with the old event set, and it was never dissociated.
---
 watcher_fen_cgo.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/watcher_fen_cgo.go b/watcher_fen_cgo.go
index 50f289d..ac9c582 100644
--- a/watcher_fen_cgo.go
+++ b/watcher_fen_cgo.go
@@ -69,12 +69,17 @@ func unix2C(sec int64, nsec int64) (C.time_t, C.long) {
 }
 
 func (c *cfen) portAssociate(p int, fo FileObj, e int) (err error) {
-	cfo := C.newFo()
+	// A port identifies an association by the address of its file object, a new
+	// object would add a second association for the file.
+	cfo, ok := c.p2fo[fo.Name]
+	if !ok {
+		cfo = C.newFo()
+		cfo.fo_name = C.CString(fo.Name)
+		c.p2fo[fo.Name] = cfo
+	}
 	cfo.fo_atime.tv_sec, cfo.fo_atime.tv_nsec = unix2C(fo.Atim.Unix())
 	cfo.fo_mtime.tv_sec, cfo.fo_mtime.tv_nsec = unix2C(fo.Mtim.Unix())
 	cfo.fo_ctime.tv_sec, cfo.fo_ctime.tv_nsec = unix2C(fo.Ctim.Unix())
-	cfo.fo_name = C.CString(fo.Name)
-	c.p2fo[fo.Name] = cfo
 	_, err = C.port_associate(C.int(p), srcFile, C.conv(cfo), C.int(e), nil)
 	return
 }
-- 
2.43.0


From 1d0f67a98d2f0e62486dcf9469943af9c2c17d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:32 +0000
Subject: [PATCH 28/39] fix: entries of a renamed directory are all taken for
 directories

kqueue and FEN reported every file of a renamed watched directory as being
a directory itself.
---
 watcher_trigger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 48478ac..0545c8a 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -314,7 +314,7 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 			evn = append(evn, event{w.p, e, true, n})
 		}
 		if ge&not2nat[Rename] != 0 {
-			for p := range t.pthLkp {
+			for p, sub := range t.pthLkp {
 				if strings.HasPrefix(p, w.p+string(os.PathSeparator)) {
 					if err := t.singleunwatch(p, both); err != nil && err != errNotWatched &&
 						!os.IsNotExist(err) {
@@ -324,7 +324,7 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 					if (w.eDir|w.eNonDir)&(not2nat[Rename]|Rename) != 0 {
 						evn = append(evn, event{
 							p, (w.eDir | w.eNonDir) & e &^ Write &^ not2nat[Write],
-							w.fi.IsDir(), nil,
+							sub.fi.IsDir(), nil,
 						})
 					}
 				}
-- 
2.43.0


From f114ed17d2917d4aaa23c1c80ccd4dca61fa5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 29/39] fix: recreated directory is not watched if its removal
 went unnoticed

Below a recursive watchpoint without Remove in its event set, or after the
directory was renamed, a new directory with the name of a former one was
taken for watched, and its events were lost.
---
 tree_nonrecursive.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 209dde0..4d46ea3 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -115,7 +115,9 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		if ei.Path() != nd.Name {
 			nd = nd.Add(ei.Path())
 		}
-		err := nd.AddDir(t.recFunc(eset))
+		// A directory of that name may have been removed or renamed unnoticed, if
+		// no one is interested in it: its watch is set anew anyway.
+		err := nd.AddDir(t.recFunc(eset, true))
 		t.rw.Unlock()
 		if err != nil {
 			dbgprintf("internal(%p) error: %v", rec, err)
@@ -205,10 +207,13 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 	return nil
 }
 
-func (t *nonrecursiveTree) recFunc(e Event) walkFunc {
+func (t *nonrecursiveTree) recFunc(e Event, anew bool) walkFunc {
 	return func(nd node) error {
 		switch diff := nd.Watch.Add(t.rec, e|omit|Create); {
 		case diff == none:
+			if e := nd.Watch.Total(); anew && t.w.Rewatch(nd.Name, e, e) != nil {
+				t.w.Watch(nd.Name, e)
+			}
 		case diff[1] == 0:
 			// TODO(rjeczalik): cleanup this panic after implementation is stable
 			panic("eset is empty: " + nd.Name)
@@ -247,7 +252,7 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 	}
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
-	if err := traverse(t.recFunc(e)); err != nil {
+	if err := traverse(t.recFunc(e, false)); err != nil {
 		// Give up the directories watched so far unless they are needed by
 		// other recursive watchpoints.
 		t.walkWatchpoint(t.root.nd, t.delFunc(c, 0))
-- 
2.43.0


From 0bb62e587c54bdb576678d67caa9a62443d64a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 30/39] fix: kqueue and FEN watchpoints mask each other's
 events

Events of one notification requested by different watchpoints, like Write
by one channel and NoteExtend or Remove by another, were reported as a
single event that neither of them asked for entirely, and got lost.
---
 watcher_trigger.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 0545c8a..c8458e7 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -140,10 +140,17 @@ func (t *trg) Close() (err error) {
 	return
 }
 
-// send reported events one by one through chan.
+// send reported events one by one through chan. A single notification may carry
+// events requested by different watchpoints, which would not match any of them.
+// Ones about the loss of a file are sent after the other ones.
 func (t *trg) send(evn []event) {
-	for i := range evn {
-		t.c <- &evn[i]
+	last := Remove | Rename | not2nat[Remove] | not2nat[Rename]
+	for _, ev := range evn {
+		for _, set := range [...]Event{ev.e &^ last, ev.e & last} {
+			for ; set != 0; set &= set - 1 {
+				t.c <- &event{ev.p, set & -set, ev.d, ev.pe}
+			}
+		}
 	}
 }
 
-- 
2.43.0


From a15ba306dd64b87d3fdd8e22e2fa13b9cd9ed258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 31/39] fix: kqueue watcher writes to descriptor 0 if it cannot
 start

If its pipe could not be made or registered, the watcher was stopped
through descriptor 0, and waited for a goroutine never started. Neither
did Close ever close the pipe.
---
 watcher_kqueue.go  | 9 ++++++---
 watcher_trigger.go | 1 -
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/watcher_kqueue.go b/watcher_kqueue.go
index efa3531..9cd225e 100644
--- a/watcher_kqueue.go
+++ b/watcher_kqueue.go
@@ -51,8 +51,11 @@ func (k *kq) Stop() (err error) {
 }
 
 // Close implements trigger.
-func (k *kq) Close() error {
-	return syscall.Close(k.fd)
+func (k *kq) Close() (err error) {
+	for _, fd := range append(k.pipefds[:], k.fd) {
+		err = nonil(err, syscall.Close(fd))
+	}
+	return
 }
 
 // NewWatched implements trigger.
@@ -106,7 +109,7 @@ func (k *kq) Init() (err error) {
 	// Creates pipe used to stop `Kevent` call by registering it,
 	// watching read end and writing to other end of it.
 	if err = syscall.Pipe(k.pipefds[:]); err != nil {
-		return nonil(err, k.Close())
+		return nonil(err, syscall.Close(k.fd))
 	}
 	var kevn [1]syscall.Kevent_t
 	syscall.SetKevent(&kevn[0], k.pipefds[0], syscall.EVFILT_READ, syscall.EV_ADD)
diff --git a/watcher_trigger.go b/watcher_trigger.go
index c8458e7..eb42b5a 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -107,7 +107,6 @@ func newWatcher(c chan<- EventInfo) watcher {
 	}
 	t.t = newTrigger(t.pthLkp)
 	if err := t.t.Init(); err != nil {
-		t.Close()
 		return watcherStub{fmt.Errorf("failed setting up watcher: %v", err)}
 	}
 	go t.monitor()
-- 
2.43.0


From 6005e104ee0c9d3215130d15fd67114a8efa50fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:13 +0000
Subject: [PATCH 32/39] fix: refused kqueue or FEN watch leaves files open or
 loses the old watch

A Watch the system refused halfway kept the files it had opened so far
watched, and a refused Rewatch removed the old watch.
---
 watcher_trigger.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index eb42b5a..f49cb20 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -164,6 +164,7 @@ func (t *trg) singlewatch(p string, e Event, direct mode, fi os.FileInfo) (err e
 			return
 		}
 	}
+	old := w.trgWatched
 	switch direct {
 	case dir:
 		w.eDir |= e
@@ -174,6 +175,9 @@ func (t *trg) singlewatch(p string, e Event, direct mode, fi os.FileInfo) (err e
 		w.eNonDir |= e
 	}
 	if err = t.t.Watch(fi, w, encode(w.eDir|w.eNonDir, fi.IsDir())); err != nil {
+		if w.trgWatched = old; !ok {
+			t.t.Del(w)
+		}
 		return
 	}
 	if !ok {
@@ -217,6 +221,10 @@ func (t *trg) watch(p string, e Event, fi os.FileInfo) error {
 			return nil
 		})
 		if err != nil {
+			// Give up the files watched so far.
+			if e := t.unwatch(p, fi); e != nil {
+				dbgprintf("trg: unwatch %q failed: %q", p, e)
+			}
 			return err
 		}
 	}
@@ -285,17 +293,21 @@ func (t *trg) Unwatch(p string) error {
 // Rewatch implements Watcher interface.
 //
 // TODO(rjeczalik): This is a naive hack. Rewrite might help.
-func (t *trg) Rewatch(p string, _, e Event) error {
+func (t *trg) Rewatch(p string, old, e Event) error {
 	fi, err := os.Stat(p)
 	if err != nil {
 		return err
 	}
 	t.Lock()
 	if err = t.unwatch(p, fi); err == nil {
-		// TODO(rjeczalik): If watch fails then we leave trigger in inconsistent
-		// state. Handle? Panic? Native version of rewatch?
 		err = t.watch(p, e, fi)
 	}
+	if err != nil {
+		// Keep the old watch.
+		if e := t.watch(p, old, fi); e != nil {
+			dbgprintf("trg: watching %q again failed: %q", p, e)
+		}
+	}
 	t.Unlock()
 	return err
 }
-- 
2.43.0


From 4bb62388ded2d73be83b11c5889555c5dd15b0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 33/39] fix: watch of a root directory is never told of
 anything

The node of a root directory was stored under an empty name, where no event
finds it, Walk skips it and natively recursive trees keep inactive watchpoints;
its subdirectories lost the first character of their names.
---
 node.go           | 54 ++++++++++++++++++++++++++++-------------------
 tree_recursive.go |  2 +-
 util.go           |  7 ++++--
 3 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/node.go b/node.go
index 0db5a1e..b63ea6e 100644
--- a/node.go
+++ b/node.go
@@ -92,7 +92,7 @@ Traverse:
 		for _, fi := range fi {
 			if fi.Type()&(fs.ModeSymlink|fs.ModeDir) == fs.ModeDir {
 				name := filepath.Join(nd.Name, fi.Name())
-				stack = append(stack, nd.addchild(name, name[len(nd.Name)+1:]))
+				stack = append(stack, nd.addchild(name, fi.Name()))
 			}
 		}
 	}
@@ -214,30 +214,30 @@ type root struct {
 	nd node
 }
 
+// rootname gives the name of the root directory of the given path.
+func rootname(name string) string {
+	return filepath.VolumeName(name) + sep
+}
+
 func (r root) addroot(name string) node {
-	if vol := filepath.VolumeName(name); vol != "" {
-		root, ok := r.nd.Child[vol]
-		if !ok {
-			root = r.nd.addchild(vol, vol)
-		}
-		return root
-	}
-	return r.nd
+	name = rootname(name)
+	return r.nd.addchild(name, name)
 }
 
 func (r root) root(name string) (node, error) {
-	if vol := filepath.VolumeName(name); vol != "" {
-		nd, ok := r.nd.Child[vol]
-		if !ok {
-			return node{}, errnotexist(name)
-		}
-		return nd, nil
+	nd, ok := r.nd.Child[rootname(name)]
+	if !ok {
+		return node{}, errnotexist(name)
 	}
-	return r.nd, nil
+	return nd, nil
 }
 
 func (r root) Add(name string) node {
-	return r.addroot(name).Add(name)
+	nd := r.addroot(name)
+	if len(name) <= len(nd.Name) {
+		return nd
+	}
+	return nd.Add(name)
 }
 
 func (r root) AddDir(dir string, fn walkFunc) error {
@@ -253,16 +253,17 @@ func (r root) Del(name string) error {
 }
 
 func (r root) Get(name string) (node, error) {
+	if r.nd.Name == name {
+		return r.nd, nil
+	}
 	nd, err := r.root(name)
 	if err != nil {
 		return node{}, err
 	}
-	if nd.Name != name {
-		if nd, err = nd.Get(name); err != nil {
-			return node{}, err
-		}
+	if len(name) <= len(nd.Name) {
+		return nd, nil
 	}
-	return nd, nil
+	return nd.Get(name)
 }
 
 func (r root) Walk(name string, fn walkFunc) error {
@@ -278,5 +279,14 @@ func (r root) WalkPath(name string, fn walkPathFunc) error {
 	if err != nil {
 		return err
 	}
+	// The root directory comes without the separator from split.
+	if len(name) <= len(nd.Name) {
+		switch err := fn(nd, true); err {
+		case nil, errSkip:
+			return nil
+		default:
+			return err
+		}
+	}
 	return nd.WalkPath(name, fn)
 }
diff --git a/tree_recursive.go b/tree_recursive.go
index 0077d3a..d9e3a30 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -140,7 +140,7 @@ func (t *recursiveTree) dispatch() {
 			// Notify parent watchpoint.
 			nd.Watch.Dispatch(ei, 0)
 			// If leaf watchpoint exists, notify it.
-			if nd, ok = nd.Child[base]; ok {
+			if nd, ok = nd.Child[base]; ok && base != "" {
 				nd.Watch.Dispatch(ei, 0)
 			}
 		}(ei)
diff --git a/util.go b/util.go
index 032a749..51169fc 100644
--- a/util.go
+++ b/util.go
@@ -126,8 +126,11 @@ func base(s string) string {
 // indexrel returns the index of the first char of name that is
 // below/relative to root. It returns -1 if name is not a child of root.
 func indexrel(root, name string) int {
-	if n, m := len(root), len(name); m > n && name[:n] == root &&
-		name[n] == os.PathSeparator {
+	n, m := len(root), len(name)
+	if n != 0 && root[n-1] == os.PathSeparator {
+		n-- // a root directory
+	}
+	if m > n && name[:n] == root[:n] && name[n] == os.PathSeparator {
 		return n + 1
 	}
 	return -1
-- 
2.43.0


From 17798a8010702a853d81024f451c47c026ba04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:45 +0000
Subject: [PATCH 34/39] fix: FSEvents watch of the root directory drops every
 event below it

---
 watcher_fsevents.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/watcher_fsevents.go b/watcher_fsevents.go
index 321ba6e..4015178 100644
--- a/watcher_fsevents.go
+++ b/watcher_fsevents.go
@@ -137,6 +137,9 @@ func (w *watch) Dispatch(ev []FSEvent) {
 			continue
 		}
 		n := len(w.path)
+		if w.path == sep {
+			n = 0
+		}
 		base := ""
 		if len(ev[i].Path) > n {
 			if ev[i].Path[n] != '/' {
-- 
2.43.0


From 1c9e25fd7ba20463556580e26b06c4296dead0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:43 +0000
Subject: [PATCH 35/39] fix: late removal event drops the watchpoints of a
 recreated directory

---
 tree_nonrecursive.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 4d46ea3..9c93e0e 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -89,13 +89,26 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 				t.rw.Unlock()
 				continue
 			}
+			// The events may come late or reordered: keep what has been recreated
+			// in the meantime, it may have got watchpoints of its own.
+			var gone []string
 			t.walkWatchpoint(nd, func(_ Event, nd node) error {
-				t.w.Unwatch(nd.Name)
+				fi, err := os.Lstat(nd.Name)
+				switch {
+				case err != nil || nd.Watch[t.rec] != 0 && !fi.IsDir():
+					t.w.Unwatch(nd.Name)
+					gone = append(gone, nd.Name)
+				case !fi.IsDir():
+					// Directories are watched anew below.
+					if e := nd.Watch.Total(); t.w.Rewatch(nd.Name, e, e) != nil {
+						t.w.Watch(nd.Name, e)
+					}
+				}
 				return nil
 			})
-			t.root.Del(ei.Path())
-			// The events may come reordered: watch the directory anew if it
-			// has been recreated in the meantime.
+			for _, name := range gone {
+				t.root.Del(name)
+			}
 			if fi, err := os.Lstat(ei.Path()); err != nil || !fi.IsDir() {
 				t.rw.Unlock()
 				continue
-- 
2.43.0


From 106b87f2c3fe10a7782f0c4a1a8fac6c65482994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 36/39] fix: FEN reads the file object of an event after it may
 have been freed

---
 watcher_fen.go     |  5 ++++-
 watcher_fen_cgo.go | 34 ++++++++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/watcher_fen.go b/watcher_fen.go
index d5b4bba..b2274ac 100644
--- a/watcher_fen.go
+++ b/watcher_fen.go
@@ -74,9 +74,12 @@ func inter2pe(n interface{}) PortEvent {
 func (f *fen) Watched(n interface{}) (*watched, int64, error) {
 	pe := inter2pe(n)
 	fo, ok := pe.PortevObject.(*FileObj)
-	if !ok || fo == nil {
+	if !ok {
 		panic(fmt.Sprintf("fen: type should be *FileObj, %T instead", fo))
 	}
+	if fo == nil {
+		return nil, 0, errNotWatched
+	}
 	w, ok := f.pthLkp[fo.Name]
 	if !ok {
 		return nil, 0, errNotWatched
diff --git a/watcher_fen_cgo.go b/watcher_fen_cgo.go
index ac9c582..a3bcc30 100644
--- a/watcher_fen_cgo.go
+++ b/watcher_fen_cgo.go
@@ -13,10 +13,10 @@ package notify
 // struct file_obj* newFo() { return (struct file_obj*) malloc(sizeof(struct file_obj)); }
 // port_event_t* newPe() { return (port_event_t*) malloc(sizeof(port_event_t)); }
 // uintptr_t conv(struct file_obj* fo) { return (uintptr_t) fo; }
-// struct file_obj* dconv(uintptr_t fo) { return (struct file_obj*) fo; }
 import "C"
 
 import (
+	"sync"
 	"syscall"
 	"unsafe"
 )
@@ -53,12 +53,18 @@ type FileObj struct {
 }
 
 type cfen struct {
+	// mu guards fo2p, which portGet uses while files are associated and
+	// dissociated.
+	mu sync.Mutex
+	// fo2p names the files of the associated file objects.
+	fo2p map[C.uintptr_t]string
 	p2pe map[string]*C.port_event_t
 	p2fo map[string]*C.struct_file_obj
 }
 
 func newCfen() cfen {
 	return cfen{
+		fo2p: make(map[C.uintptr_t]string),
 		p2pe: make(map[string]*C.port_event_t),
 		p2fo: make(map[string]*C.struct_file_obj),
 	}
@@ -76,6 +82,9 @@ func (c *cfen) portAssociate(p int, fo FileObj, e int) (err error) {
 		cfo = C.newFo()
 		cfo.fo_name = C.CString(fo.Name)
 		c.p2fo[fo.Name] = cfo
+		c.mu.Lock()
+		c.fo2p[C.conv(cfo)] = fo.Name
+		c.mu.Unlock()
 	}
 	cfo.fo_atime.tv_sec, cfo.fo_atime.tv_nsec = unix2C(fo.Atim.Unix())
 	cfo.fo_mtime.tv_sec, cfo.fo_mtime.tv_nsec = unix2C(fo.Mtim.Unix())
@@ -90,6 +99,9 @@ func (c *cfen) portDissociate(port int, fo FileObj) (err error) {
 		return errNotWatched
 	}
 	_, err = C.port_dissociate(C.int(port), srcFile, C.conv(cfo))
+	c.mu.Lock()
+	delete(c.fo2p, C.conv(cfo))
+	c.mu.Unlock()
 	C.free(unsafe.Pointer(cfo.fo_name))
 	C.free(unsafe.Pointer(cfo))
 	delete(c.p2fo, fo.Name)
@@ -100,14 +112,17 @@ const srcAlert = C.PORT_SOURCE_ALERT
 const srcFile = C.PORT_SOURCE_FILE
 const alertSet = C.PORT_ALERT_SET
 
-func cfo2fo(cfo *C.struct_file_obj) *FileObj {
-	// Currently remaining attributes are not used.
-	if cfo == nil {
+// file gives the file of a file object. It is nil if the file has been
+// dissociated after its event was read: the object is freed then.
+func (c *cfen) file(fo C.uintptr_t) *FileObj {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	p, ok := c.fo2p[fo]
+	if !ok {
 		return nil
 	}
-	var fo FileObj
-	fo.Name = C.GoString(cfo.fo_name)
-	return &fo
+	// Currently remaining attributes are not used.
+	return &FileObj{Name: p}
 }
 
 func (c *cfen) portGet(port int, pe *PortEvent) (err error) {
@@ -118,7 +133,7 @@ func (c *cfen) portGet(port int, pe *PortEvent) (err error) {
 	}
 	pe.PortevEvents, pe.PortevSource, pe.PortevPad =
 		int(cpe.portev_events), uint8(cpe.portev_source), uint8(cpe.portev_pad)
-	pe.PortevObject = cfo2fo(C.dconv(cpe.portev_object))
+	pe.PortevObject = c.file(cpe.portev_object)
 	pe.PortevUser = uintptr(cpe.portev_user)
 	C.free(unsafe.Pointer(cpe))
 	return
@@ -142,6 +157,9 @@ func (c *cfen) free() {
 	for i := range c.p2pe {
 		C.free(unsafe.Pointer(c.p2pe[i]))
 	}
+	c.mu.Lock()
+	c.fo2p = make(map[C.uintptr_t]string)
+	c.mu.Unlock()
 	c.p2fo = make(map[string]*C.struct_file_obj)
 	c.p2pe = make(map[string]*C.port_event_t)
 }
-- 
2.43.0


From 04be848ec12beb45866739bb941881f8f4b6f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:45 +0000
Subject: [PATCH 37/39] fix: Unwatch of a kqueue or FEN file watched otherwise,
 too, misses its removal

---
 watcher_trigger.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index f49cb20..f5fa4bb 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -399,21 +399,14 @@ func (t *trg) singleunwatch(p string, direct mode) error {
 	case both:
 		w.eDir, w.eNonDir = 0, 0
 	}
+	if e := w.eNonDir | w.eDir; e != 0 {
+		// Do not unwatch it in between, it may be removed meanwhile.
+		return t.t.Watch(w.fi, w, encode(e, w.fi.IsDir()))
+	}
 	if err := t.t.Unwatch(w); err != nil {
 		return err
 	}
-	if w.eNonDir|w.eDir != 0 {
-		mod := dir
-		if w.eNonDir != 0 {
-			mod = ndir
-		}
-		if err := t.singlewatch(p, w.eNonDir|w.eDir, mod,
-			w.fi); err != nil && err != errAlreadyWatched {
-			return err
-		}
-	} else {
-		t.t.Del(w)
-	}
+	t.t.Del(w)
 	return nil
 }
 
-- 
2.43.0


From 111eeb9e1e6d92aeb45416b9c3ddbebd58fdf5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:38 +0000
Subject: [PATCH 38/39] fix: FEN Unwatch stops half-way if an event of a file
 is being handled

---
 watcher_fen_cgo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/watcher_fen_cgo.go b/watcher_fen_cgo.go
index a3bcc30..3a72bb3 100644
--- a/watcher_fen_cgo.go
+++ b/watcher_fen_cgo.go
@@ -99,6 +99,10 @@ func (c *cfen) portDissociate(port int, fo FileObj) (err error) {
 		return errNotWatched
 	}
 	_, err = C.port_dissociate(C.int(port), srcFile, C.conv(cfo))
+	if err == syscall.ENOENT {
+		// The file is not associated any more once its event is read.
+		err = nil
+	}
 	c.mu.Lock()
 	delete(c.fo2p, C.conv(cfo))
 	c.mu.Unlock()
-- 
2.43.0


From c94d338f8b41376677ca7488c928a95f81dc4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:38 +0000
Subject: [PATCH 39/39] fix: kqueue and FEN requests fail if a file is removed
 meanwhile

---
 watcher_trigger.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index f5fa4bb..01bb4bb 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -214,7 +214,8 @@ func (t *trg) watch(p string, e Event, fi os.FileInfo) error {
 		err := t.walk(p, func(fi os.FileInfo) (err error) {
 			if err = t.singlewatch(filepath.Join(p, fi.Name()), e, ndir,
 				fi); err != nil {
-				if err != errAlreadyWatched {
+				// The file may have been removed in the meantime.
+				if err != errAlreadyWatched && !os.IsNotExist(err) {
 					return
 				}
 			}
@@ -254,7 +255,7 @@ func (t *trg) unwatch(p string, fi os.FileInfo) error {
 	if fi.IsDir() {
 		err := t.walk(p, func(fi os.FileInfo) error {
 			err := t.singleunwatch(filepath.Join(p, fi.Name()), ndir)
-			if err != errNotWatched {
+			if err != errNotWatched && !os.IsNotExist(err) {
 				return err
 			}
 			return nil
-- 
2.43.0

