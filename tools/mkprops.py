#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the long statements stay readable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every requested event reaches every channel listening for it",
"After any sequence of successful Watch and Stop calls, when the platform watcher reports an event of kind e on path p, every channel that has a live watchpoint asking for e on p itself, on p's parent directory, or recursively on any ancestor directory of p, and that has buffer space, receives a copy of that event carrying the same kind, path and Sys value. A watchpoint's event set is the union of all event lists passed to Watch for that channel and path, and it is recursive once any of those calls used the '...' form; a channel holding several matching watchpoints gets at least one copy.",
["histories","inputs"],"all histories of Watch/Stop calls (any paths, recursive or not, any channels, any event sets) followed by any reported event",
"The tree tests replay a few fixed tables of Watch calls with hand-picked event sets; the guarantee ranges over all event sets, path relations and call orders.",
["tree_nonrecursive.go","node.go","watchpoint.go","watchpoint_other.go","util.go"],
[("dispatch walks the path tree","tree_nonrecursive.go:dispatch"),("per-node watchpoint matching","watchpoint.go:Dispatch"),("union of event sets","watchpoint.go:Add")],
["user channels passed to Watch"],[("watchpoint tree","registered channels and event sets per path","node.go:node")])

p("C02","A channel receives only events it asked for",
"A channel never receives an event whose kind is outside the event set of its live watchpoints, or whose path is neither the path of a watchpoint of that channel, nor directly inside it, nor (for a recursive watchpoint only) anywhere below it; sibling paths that merely share a name prefix (/a/b and /a/bc) never match. No received event carries notify-internal flags, a single reported event yields at most one copy per matching watchpoint of the channel, and a Watch with an empty event list adds nothing.",
["histories","inputs"],"all histories of Watch/Stop calls followed by any reported event on any path",
"Tests check a handful of negative cases; unwanted deliveries depend on event-set overlaps and path-prefix coincidences no table enumerates.",
["tree_nonrecursive.go","node.go","watchpoint.go","watchpoint_other.go","util.go"],
[("event matching incl. internal-flag separation","watchpoint_other.go:matches"),("path component walk","node.go:WalkPath")],
["user channels passed to Watch"])

p("C03","After Stop returns the stopped channel stays silent",
"Once Stop(c) has returned, c receives nothing more, no matter which events were already reported, in flight or being dispatched when Stop was called, and whether or not watches can be removed from the OS. Stop never closes c, and every other channel keeps receiving exactly what its own watchpoints ask for.",
["schedules","histories"],"all interleavings of event dispatch with Stop, and all Watch histories before it",
"Tests call Stop only in quiet moments; the guarantee is about every interleaving of in-flight dispatch goroutines with Stop.",
["tree_nonrecursive.go","tree_recursive.go","watchpoint.go","notify.go"],
[("tree lock taken by Stop and by dispatch","tree_nonrecursive.go:Stop/dispatch"),("channel removed from every watchpoint","tree_nonrecursive.go:watchDelMin")],
["user channels after Stop"])

p("C04","Every live watchpoint is backed by a sufficient OS watch",
"On platforms without native recursion, after any sequence of Watch and Stop calls that the OS accepts, each path with a live watchpoint has an OS watch whose event set includes every event requested there; below a recursive watchpoint every existing real (non-symlink) directory has an OS watch including the events requested with '...' plus Create. In particular stopping one channel never removes or narrows an OS watch that another channel still depends on.",
["histories","inputs","configurations"],"all Watch/Stop histories over all directory layouts and event sets",
"Tests compare recorded watcher calls for three fixed tables; missing coverage shows only for particular overlaps of recursive and plain watchpoints and particular Stop orders.",
["tree_nonrecursive.go","node.go","watchpoint.go"],
[("event-set diffs drive Watch/Rewatch","tree_nonrecursive.go:watch/watchrec/recFunc"),("shrinking on Stop","tree_nonrecursive.go:watchDelMin"),("directory traversal","node.go:AddDir")],
["calls to the platform watcher"],[("internal recursive event set","events each node must watch on behalf of recursive ancestors","tree_nonrecursive.go:t.rec")])

p("C05","OS watches are released with their last listener",
"After Stop(c), no OS watch remains on a path that neither has a live watchpoint of another channel nor lies below another channel's recursive watchpoint; once every channel has been stopped no OS watch remains at all. Stopping a channel that was never registered changes nothing.",
["histories","inputs","configurations"],"all Watch/Stop histories over all directory layouts and event sets",
"Leaks need particular overlaps of recursive and plain watchpoints with equal event sets; the tests never assert absence of watches after Stop beyond two tables.",
["tree_nonrecursive.go","node.go","watchpoint.go"],
[("Stop walks all watchpoints and un/rewatches","tree_nonrecursive.go:Stop"),("remaining recursive set","tree_nonrecursive.go:watchDelMin")],
["calls to the platform watcher"])

p("C06","Platform watchers are only ever driven by their contract",
"Every request made to a platform watcher respects its documented contract: paths are absolute and clean, a watch is created only for a path not currently watched, modified or removed only for a path that is watched, a modification passes exactly the event set currently registered as the old set, and no request carries an empty event set or notify-internal flags. (The watch of a directory reported as newly created may be set anew, with the event set it has: a former directory of that name may have gone unnoticed.) A repeated Watch that adds no new event issues no OS request.",
["histories","inputs","configurations"],"all Watch/Stop histories and all directory creation/removal events",
"The contract is violated only for particular event-set overlaps; tests record calls for fixed tables.",
["tree_nonrecursive.go","tree_recursive.go","watchpoint.go","watcher.go"],
[("eventDiff none/grow/shrink decisions","watchpoint.go:Add/Del/dryAdd"),("callers of the watcher interface","tree_nonrecursive.go")],
["calls to the platform watcher"])

p("C07","Recursive watchpoints follow directory creation and removal",
"When a directory is created below a recursive watchpoint, it and all real directories already inside it become watched with the recursive event set plus Create, so that later events inside them reach the recursive channels; files and symlinks do not. When a directory whose removal is reported (its parent is watched for Remove) is removed, its OS watches and those of everything below it are released. A directory created again after its removal or renaming, noticed or not, is followed again, and a watchpoint set on it before the removal is processed is kept. One unreadable or vanished directory does not keep its siblings from being followed.",
["histories","inputs","configurations"],"all event sets, nestings of recursive watchpoints and create/remove sequences",
"Tests cover one create and one re-create; the event set chosen for a new directory depends on every recursive watchpoint above it.",
["tree_nonrecursive.go","node.go"],
[("internal event loop","tree_nonrecursive.go:internal"),("recursive detection in dispatch","tree_nonrecursive.go:dispatch"),("subtree add","node.go:AddDir"),("subtree removal","node.go:Del")],
["calls to the platform watcher","user channels"])

p("C08","A failed Watch reports its error and changes nothing",
"If the path does not exist, cannot be resolved, or the OS refuses a plain (non-recursive) watch or its modification, Watch returns a non-nil error, the channel's registrations and every other channel's registrations are what they were before the call, and a later successful Watch on the same path works as if the failed one had not happened. The same holds on platforms with native recursion for recursive watches. Watch on a nil channel panics and leaves the library usable.",
["fault_sequences","histories","inputs"],"every Watch history with an OS failure injected at any OS call",
"No test injects a watcher error; rollback correctness depends on the overlap of the failed set with what other channels already hold.",
["tree_nonrecursive.go","tree_recursive.go","watchpoint.go"],
[("rollback on watcher error","tree_nonrecursive.go:watch"),("error propagation from path resolution","util.go:cleanpath")],
["return value of Watch","user channels","calls to the platform watcher"])

p("C09","Slow receivers never block delivery and nothing deadlocks",
"A channel whose buffer is full merely misses events: delivery to every other channel, later Watch and Stop calls, and the library's own directory tracking all proceed. No interleaving of Watch, Stop, reported events and directory creation/removal leaves a call or a dispatch stuck forever, and nothing is delivered twice or lost for a ready receiver because another one is full.",
["schedules","inputs"],"all interleavings of concurrent calls and events, and all combinations of full and ready channels",
"Tests use buffered channels with room for every event and run operations one at a time.",
["watchpoint.go","tree_nonrecursive.go","tree_recursive.go"],
[("non-blocking send","watchpoint.go:Dispatch"),("lock released before internal hand-off","tree_nonrecursive.go:dispatch")],
["completion of calls","user channels"])

p("C10","Concurrent calls are race-free and atomic",
"Watch and Stop may be called from any goroutines while events are being reported: no interleaving has a data race, panics, or leaves a state that no sequential order of the same calls could produce, and an event dispatched during a call is delivered according to the registrations either before or after that call.",
["schedules","histories"],"all interleavings (within a bounded number of preemptions) of concurrent Watch, Stop and event dispatch",
"Tests exercise the API from one goroutine.",
["tree_nonrecursive.go","tree_recursive.go","watcher_inotify.go"],
[("tree RWMutex","tree_nonrecursive.go:rw"),("inotify map RWMutex and atomics","watcher_inotify.go")],
["user channels","calls to the platform watcher","memory accesses"])

p("C11","Watched paths resolve to their real, clean, absolute path",
"For every file-system layout without symlink cycles, the path actually watched is the absolute, clean path obtained by resolving every symlink component of the user's path (relative links against their own directory, absolute links from the root), with a trailing '...' stripped and meaning 'recursive'. If any component does not exist or the links form a cycle, resolution fails with an error instead of looping or watching something else.",
["configurations","inputs"],"all layouts of directories, files and relative/absolute symlinks, all paths within the length bound",
"Tests create three layouts below a temp directory; link chains in other positions of the path are never resolved.",
["util.go"],
[("iterative component resolution with depth limit","util.go:canonical"),("recursion suffix","util.go:cleanpath")],
["path passed to the platform watcher","return value of Watch"])

p("C12","inotify masks translate to exactly the requested events",
"On Linux, for every event set e a caller may request and every raw inotify event (of a single kind, as the kernel sends them) delivered for it: Create, Remove, Write and Rename are reported iff requested and the raw mask carries one of IN_CREATE/IN_MOVED_TO, IN_DELETE/IN_DELETE_SELF, IN_MODIFY, IN_MOVED_FROM/IN_MOVE_SELF respectively; a raw In* event is reported iff requested and present; nothing else is reported. Each reported event carries the raw mask, cookie and descriptor in Sys, the kernel mask requested covers e and nothing unrelated, and event sets with unsupported bits are refused.",
["inputs"],"all 2^16 supported event sets and all raw event masks",
"Tests touch about a dozen (set, mask) pairs; interactions of portable and raw flags in one set are not enumerated.",
["watcher_inotify.go","event_inotify.go"],
[("mask encoding","watcher_inotify.go:encode"),("event decoding","watcher_inotify.go:decode/transform"),("validity check","watcher_inotify.go:watch")],
["kernel watch mask","events emitted by the platform watcher"])

p("C13","Kernel event buffers are decoded completely and safely",
"On Linux, every buffer of inotify records the kernel can return - any number of records, any name lengths and NUL padding, any masks, including none - is decoded into exactly those records in order, each with its own descriptor, mask, cookie and un-padded name joined to its watch's path, without reading outside the bytes returned; overflow and ignored records and records for unknown descriptors produce no event and do not disturb the others.",
["inputs"],"all record sequences within the buffer bound with symbolic descriptors, masks, cookies, name bytes and padding",
"Tests receive whatever the kernel happens to batch, usually a single record.",
["watcher_inotify.go"],
[("buffer parsing through unsafe pointers","watcher_inotify.go:read"),("per-record filtering","watcher_inotify.go:transform")],
["events emitted by the platform watcher"])

p("C14","inotify bookkeeping maps each descriptor to its live path and set",
"On Linux, after any sequence of watch, re-watch and unwatch requests on the inotify watcher, raw events on a descriptor are reported under the path and filtered by the event set most recently requested for it, the kernel's watch list contains exactly the watched paths with the latest masks, and events on unwatched descriptors produce nothing. Unwatching an unknown path fails without touching other watches, and removing a path whose inode is already gone succeeds, and unwatching a path that was recreated and watched again releases every descriptor registered for it. A request made while records are being read neither loses nor duplicates a record of another watch, and no data race occurs.",
["histories","inputs","fault_sequences","schedules"],"all request sequences with symbolic sets, descriptors and kernel failures",
"Tests drive a single short request sequence per watcher.",
["watcher_inotify.go"],
[("descriptor map","watcher_inotify.go:watch/Unwatch"),("EINVAL tolerance","watcher_inotify.go:removeInotifyWatch")],
["kernel watch list","events emitted by the platform watcher"],[("descriptor map","kernel descriptor to path and event set","watcher_inotify.go:inotify.m")])

p("C15","Watcher start-up faults and Close leak no descriptor",
"On Linux, if any system call needed to start the watcher fails, the watch request fails with that error, every descriptor opened for it is closed exactly once, no descriptor the watcher did not open is ever closed, and a later request can start cleanly. Close removes all kernel watches, closes every descriptor it opened exactly once, waits for its goroutines, after it returns no event is emitted, and it is harmless on a watcher never started.",
["fault_sequences","schedules"],"a failure of any one or more system calls during start-up, and all interleavings of Close with the reader",
"Tests never see a failing system call.",
["watcher_inotify.go"],
[("lazy initialisation and its error path","watcher_inotify.go:lazyinit/epollinit/epollclose"),("shutdown through the pipe","watcher_inotify.go:Close/loop")],
["open descriptors","kernel watch list","return values"])

p("C16","Delivery is the same on natively recursive platforms",
"With a platform watcher that supports recursion natively (Windows, macOS), after any sequence of successful Watch and Stop calls every reported event is delivered to exactly the channels whose live watchpoints ask for its kind on the path itself, its parent, or recursively on an ancestor, and to no channel after it was stopped.",
["histories","inputs"],"all histories of Watch/Stop calls followed by any reported event",
"The recursive tree is only driven by three fixed tables with a recording watcher.",
["tree_recursive.go","node.go","watchpoint.go"],
[("dispatch","tree_recursive.go:dispatch"),("active/inactive watchpoints","tree_recursive.go:watchAdd/watchAddInactive/watchDel")],
["user channels passed to Watch"])

p("C17","Natively recursive watches always cover what is registered",
"With a natively recursive platform watcher, after any sequence of Watch and Stop calls each live watchpoint's path and event set is covered by an OS watch on that path or by a recursive OS watch on an ancestor, a recursive watchpoint is covered by a recursive OS watch, no OS watch remains below a recursive one, each OS watch asks only for events some live watchpoint at or below its path asks for, and after every channel was stopped no OS watch remains.",
["histories","inputs"],"all histories of Watch/Stop calls over all path relations and event sets",
"Merging and splitting of watches is tested for a few fixed sequences.",
["tree_recursive.go","watchpoint.go"],
[("merging children under a new parent","tree_recursive.go:Watch"),("shrinking on Stop","tree_recursive.go:Stop")],
["calls to the platform watcher"])

p("C18","FSEvents batches are filtered to the watched scope and set",
"On macOS, for every batch of FSEvents the native callback delivers, a watch emits exactly one event per requested flag still effective for each record on a path in its scope (the path itself, direct children, or any depth when recursive, compared by whole path components), with that path and the native record, and nothing before the history-done marker or after Unwatch. A flag is not effective if FSEvents merely retains it: Created, if the path was last seen created; Removed, if it was last seen removed; Modified and InodeMetaMod along with an effective removal (a path counts as last seen created or removed by a record with just one of the two flags, or with the other one while in the opposite state). Records that report dropped events count only for watches that ask for such a flag, records that report wrapped event ids never. Through the tree every channel gets exactly the events its watchpoints ask for, also after a Watch the OS refused, and no native stream remains after the last Stop.",
["inputs","histories","faults"],"all flag sets, path relations, short histories of flags per path, call histories and refusals",
"Requires macOS; the flag-history heuristics are only sampled.",
["watcher_fsevents.go","watcher_fsevents_cgo.go","event_fsevents.go"],
[("scope and flag filter","watcher_fsevents.go:Dispatch"),("stale flag removal","watcher_fsevents.go:strip"),("native callback","watcher_fsevents_cgo.go:gostream"),("relocation","watcher_fsevents.go:RecursiveRewatch")],
["events emitted by the platform watcher"])

p("C19","Windows filters and actions translate to the requested events",
"On Windows, for every supported event set the native filters requested for a directory cover each kind of change the set asks for (portable events for files and directories alike), every native action record is reported as the portable and/or FileAction event the set asks for, with its path, and a channel gets it iff one of its watchpoints in scope asks for it (a FileAction event is asked for by the FileNotifyChange flag of its kind; Write stands for attribute, size, creation and security changes). This also holds after sets and recursion were modified, after Stop and a new Watch, and after a Watch the system refused, which leaves no directory open. Event sets with unsupported bits are refused.",
["inputs","histories","faults"],"all event sets, all native actions, call histories and refusals",
"Requires Windows; only a few pairs are tested there.",
["watcher_readdcw.go","event_readdcw.go","watchpoint_readdcw.go"],
[("filter encoding","watcher_readdcw.go:encode"),("action decoding","watcher_readdcw.go:decode/gensys"),("matching","watchpoint_readdcw.go:matches"),("state machine","watcher_readdcw.go:loopstate/recreate")],
["native filter","events emitted by the platform watcher"])

p("C20","kqueue and FEN watches report each change of a directory and its files",
"On the BSDs and Solaris, while a directory or file is watched with any event set, each change is reported as exactly the requested events it stands for, each once, with its path and kind of object: for a file its native notifications, as the portable (Write, Remove, Rename) and native events requested of it and of its directory; for an entry of a watched directory, file or directory, its creation as Create (also under the name of a removed one), its removal and renaming, and for a renamed watched directory the renaming of its entries; nothing is reported of the content of entries that are directories. New entries are watched at once. This holds for directories and files watched on their own, one inside the other, or through several channels and recursive watchpoints, each channel getting what it asked for. After Unwatch or Close nothing is reported and no file stays open or watched. A Watch or Rewatch the system refuses fails and leaves everything as it was, and a watcher that cannot start says so and leaves nothing open.",
["inputs","histories","faults"],"all event sets, sequences of changes, Watch/Stop histories and single failures of a system call",
"Requires those platforms; only a few changes are made there, all of them with every event requested.",
["watcher_kqueue.go","watcher_fen.go","watcher_fen_cgo.go","watcher_trigger.go","tree_nonrecursive.go"],
[("encode tables","watcher_kqueue.go:init, watcher_fen.go:init"),("decode","watcher_trigger.go:decode"),("new entries","watcher_trigger.go:dir"),("bookkeeping","watcher_trigger.go:singlewatch/singleunwatch")],
["native requests","events emitted by the platform watcher","user channels"])

p("C21","Event values print as exactly the events they contain",
"On every platform the textual form of an event set names each exported portable and platform event contained in the set (all of its bits are) exactly once, joined by '|', and names nothing else; events have distinct values. Internal flags are outside.",
["inputs"],"all event values",
"One test prints four values.",
["event.go","event_inotify.go","event_kqueue.go","event_fen.go","event_readdcw.go","event_fsevents.go"],
[("event tables","event.go:estr, osestr of each platform")],
["Event.String"])

p("C22","On Linux every change is reported, end to end, to exactly the channels that asked for it",
"On Linux, whatever channels have been told of a file system by Watch and Stop, when a file or directory is created, written, changed, removed or renamed, every channel with a watchpoint on the object's directory, on the object itself, or recursively above it, receives each event it asked for that the change is (creation and moving in as Create, writing as Write, removal as Remove, moving away as Rename, and each raw inotify event as itself) with the path of the object, the old path for an object moved away and the new one for an object moved in; no channel receives an event that did not happen, is on another path, or it did not ask for. This continues for directories that appear below a recursive watchpoint, with content or under a name used before, and for those moved within it, and once all channels are stopped no kernel watch remains. Outside: changes made before an earlier one has been processed, directories moved out of every recursive watchpoint, watchpoints whose own path goes away, raw open and access events.",
["histories","inputs"],"all histories of Watch/Stop calls, event sets and file-system changes",
"The functional tests make a few fixed changes with all events requested; which records the kernel sends depends on every mask in force, and renames and re-creations depend on the whole history.",
["watcher_inotify.go","tree_nonrecursive.go","watchpoint.go","node.go","event_inotify.go"],
[("masks and records","watcher_inotify.go:encode, decode, transform"),("watch list","watcher_inotify.go:watch, Unwatch"),("following directories","tree_nonrecursive.go:internal"),("dispatch","tree_nonrecursive.go:dispatch, watchpoint.go:Dispatch")],
["kernel watch list","user channels"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
