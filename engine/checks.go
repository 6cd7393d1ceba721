package main

// run is one harness execution within a check.
type run struct {
	Fn     string         // harness function
	Files  string         // harness files
	GOOS   string         // platform whose sources are encoded
	P      map[string]int // bounds
	Secs   int            // time budget
	Native bool           // counterexamples and samples can be replayed natively
	Reach  []string       // witnesses that must be reached
	Bounds string         // the bounds in words
	Stubs  bool           // overlay the cgo stubs
}

type checkDef struct {
	ID       string
	Quick    []run
	Thorough []run
	Outside  string // what lies outside the claim
}

type pm = map[string]int

const treeFiles = "env_fs.go,tree_common.go,tree_hist.go"
const faultFiles = treeFiles + ",tree_fault.go"
const followFiles = treeFiles + ",tree_follow.go"
const raceFiles = concFiles + ",tree_race.go"
const concFiles = followFiles + ",tree_conc.go"

const calls3 = "every sequence of <=3 Watch/Stop calls by <=2 channels over 4 paths (directory, subdirectory, sub-subdirectory, file; recursive and not), each with an arbitrary event set"
const calls2root = "every sequence of <=2 Watch/Stop calls over the root directory and 3 directories below it (recursive and not), each with an arbitrary event set"
const calls3root = "every sequence of <=3 Watch/Stop calls over the root directory and 3 directories below it (recursive and not), each with an arbitrary event set"
const calls4sib = "every sequence of <=3 Watch calls by <=2 channels over 2 sibling directories and their parent (recursive and not), each with an arbitrary event set, and Stop of one channel"
const calls4 = "every sequence of <=4 Watch/Stop calls by <=2 channels over 3 nested directories (recursive and not), each with an arbitrary event set"
const calls4b = "every sequence of <=4 Watch/Stop calls by <=2 channels over 2 nested directories (recursive and not), each with an arbitrary event set"
const outTree = "longer call sequences, more than 3 channels, other directory layouts; the kernel side of each watch (C12-C15)"

func dispatched(fn string, p pm, secs int, b string) run {
	return run{Fn: fn, Files: treeFiles, P: p, Secs: secs, Native: true, Reach: []string{"dispatched"}, Bounds: b}
}

func hist(fn string, p pm, secs int, b string) run {
	return run{Fn: fn, Files: treeFiles, P: p, Secs: secs, Native: true, Reach: []string{"end"}, Bounds: b}
}

func conc(fn string, p pm, secs int, reach, b string) run {
	return run{Fn: fn, Files: concFiles, P: p, Secs: secs, Native: true, Reach: []string{reach}, Bounds: b}
}

func paths(p pm, secs int, b string) run {
	r := []string{"refused", "resolved"}
	if _, ok := p["loops"]; !ok {
		r = append(r, "loop")
	}
	return run{Fn: "HC11", Files: "path.go", P: p, Secs: secs, Native: true, Reach: r, Bounds: b}
}

func longpaths(p pm, b string) run {
	return run{Fn: "HC11long", Files: "path.go", P: p, Secs: 120, Native: true, Reach: []string{"resolved"}, Bounds: b}
}

func fse(fn string, p pm, secs int, b string, reach ...string) run {
	return run{Fn: fn, GOOS: "darwin", Files: treeFiles + ",cgo_fsevents.go,fsevents.go", P: p, Secs: secs, Reach: reach, Bounds: b}
}

func win(fn string, p pm, secs int, b string, reach ...string) run {
	return run{Fn: fn, GOOS: "windows", Files: "env_fs.go,tree_common.go,kern_win.go,readdcw.go", P: p, Secs: secs, Reach: reach, Bounds: b}
}

func inot(fn, files string, p pm, secs int, b string, reach ...string) run {
	return run{Fn: fn, Files: "env_fs.go,tree_common.go,kern_inotify.go," + files, P: p, Secs: secs, Native: true, Reach: reach, Bounds: b}
}

const portable = 0xf00000 // Create, Remove, Write and Rename
const e2eSets = "every set of portable and raw events; "

const allSets = "every event set of 32 bits (internal flags excepted)"

func names(goos, files string, p pm, secs int, b string) run {
	r := run{Fn: "HC21", GOOS: goos, Files: "names.go," + files, P: p, Secs: secs, Reach: []string{"printed"}, Bounds: goos + ": " + b}
	if goos == "linux" {
		r.GOOS, r.Native = "", true
	}
	return r
}

// trig are the runs of a harness on kqueue and on FEN.
func trig(fn string, p pm, secs int, b string, reach ...string) []run {
	files := "trigger.go,trigger_tree.go"
	return []run{
		{Fn: fn, GOOS: "freebsd", Files: files + ",kern_kqueue.go", P: p, Secs: secs, Reach: reach, Bounds: "kqueue: " + b},
		{Fn: fn, GOOS: "solaris", Files: files + ",kern_fen.go", P: p, Secs: secs, Reach: reach, Bounds: "FEN: " + b},
	}
}

func join(runs ...[]run) (r []run) {
	for _, x := range runs {
		r = append(r, x...)
	}
	return
}

// nat runs a harness with the tree for natively recursive platforms.
func nat(r run, extra string) run {
	p := pm{"native": 1}
	for k, v := range r.P {
		p[k] = v
	}
	r.P = p
	r.Files += extra
	r.Bounds = "natively recursive watcher: " + r.Bounds
	return r
}

const recTree = ",tree_rec.go"

var allChecks = []checkDef{
	{ID: "C01", Quick: []run{
		dispatched("HC01", pm{"k": 3, "paths": 4, "nch": 2}, 180, calls3+", then an event of arbitrary kind on each of 10 paths"),
		dispatched("HC01", pm{"k": 2, "paths": 4, "root": 1}, 120, calls2root+", then an event of arbitrary kind on each of 7 paths"),
		{Fn: "HC01rm", Files: concFiles, Secs: 60, Native: true, Reach: []string{"dispatched"}, Bounds: "two watchpoints (plain or recursive) on 4 nested and sibling directories, removal of a followed directory, events of arbitrary kind on 5 paths"},
		dispatched("HC01", pm{"k": 4, "sib": 1, "paths": 3, "nch": 2, "stopat": 4}, 180, calls4sib+", then an event of arbitrary kind on each of 10 paths"),
	}, Thorough: []run{
		{Fn: "HC01rm", Files: concFiles, P: pm{"maporder": 1}, Secs: 60, Native: true, Reach: []string{"dispatched"}, Bounds: "two watchpoints (plain or recursive) on 4 nested and sibling directories, removal of a followed directory, events of arbitrary kind on 5 paths"},
		dispatched("HC01", pm{"k": 3, "paths": 5, "nch": 3, "maporder": 1}, 2400, "as quick with 5 paths, 3 channels, both map iteration directions"),
		dispatched("HC01", pm{"k": 4, "paths": 3, "nch": 2}, 2400, calls4+", then an event of arbitrary kind on each of 10 paths"),
	}, Outside: outTree},
	{ID: "C02", Quick: []run{
		dispatched("HC02", pm{"k": 3, "paths": 4, "nch": 2}, 180, calls3+", then an event of arbitrary kind on each of 10 paths, among them siblings sharing a name prefix"),
		dispatched("HC02", pm{"k": 2, "paths": 4, "root": 1}, 120, calls2root+", then an event of arbitrary kind on each of 7 paths"),
		{Fn: "HC02path", Files: treeFiles, P: pm{"n": 9}, Secs: 120, Native: true, Reach: []string{"dispatched"}, Bounds: "a plain and a recursive watchpoint, an event on every path of 9 arbitrary bytes below /w/"},
		dispatched("HC02", pm{"k": 4, "sib": 1, "paths": 3, "nch": 2, "stopat": 4}, 180, calls4sib+", then an event of arbitrary kind on each of 10 paths"),
	}, Thorough: []run{
		dispatched("HC02", pm{"k": 3, "paths": 5, "nch": 3, "maporder": 1}, 2400, "as quick with 5 paths, 3 channels, both map iteration directions"),
		dispatched("HC02", pm{"k": 4, "paths": 3, "nch": 2}, 2400, calls4+", then an event of arbitrary kind on each of 10 paths"),
		{Fn: "HC02path", Files: treeFiles, P: pm{"n": 13}, Secs: 1200, Native: true, Reach: []string{"dispatched"}, Bounds: "a plain and a recursive watchpoint, an event on every path of 13 arbitrary bytes below /w/"},
	}, Outside: outTree},
	{ID: "C03", Quick: []run{
		dispatched("HC03seq", pm{"k": 2, "paths": 5}, 120, "every sequence of <=2 Watch/Stop calls by <=2 channels over 5 paths with arbitrary event sets, Stop of a channel, then an event of arbitrary kind on each of 10 paths"),
		conc("HC03", pm{"sched": 2, "events": 2}, 180, "stopped", "Stop of a channel with 1 or 2 watchpoints (plain or recursive) next to 2 events of arbitrary kind and another channel's watchpoint, watches removable or not; every schedule with <=2 deviations from run-to-block order"),
	}, Thorough: []run{
		dispatched("HC03seq", pm{"k": 3, "paths": 4}, 1800, "every sequence of <=3 Watch/Stop calls, Stop of a channel, then an event of arbitrary kind on each of 10 paths"),
		conc("HC03", pm{"sched": 3, "events": 2}, 2400, "stopped", "as quick with <=3 deviations"),
	}, Outside: "schedules with more deviations, more than two events in flight"},
	{ID: "C04", Quick: []run{
		hist("HC04", pm{"k": 3, "paths": 5, "nch": 2}, 180, calls3+" and a sibling directory"),
		hist("HC04", pm{"k": 4, "paths": 2, "nch": 2}, 180, calls4b),
		hist("HC04", pm{"k": 3, "paths": 4, "root": 1}, 120, calls3root),
		hist("HC04", pm{"k": 4, "sib": 1, "paths": 3, "nch": 2, "stopat": 4}, 180, calls4sib),
	}, Thorough: []run{
		hist("HC04", pm{"k": 4, "paths": 4, "nch": 3, "maporder": 1}, 2400, "as quick with <=4 calls by 3 channels on 4 paths, both map iteration directions"),
		hist("HC04", pm{"k": 4, "paths": 3, "nch": 2}, 1200, calls4),
		hist("HC04", pm{"k": 5, "paths": 2, "nch": 2}, 2400, "<=5 calls by 2 channels on 2 nested directories"),
	}, Outside: outTree},
	{ID: "C05", Quick: []run{
		hist("HC05", pm{"k": 3, "paths": 5, "nch": 2}, 180, calls3+" and a sibling directory"),
		hist("HC05", pm{"k": 4, "paths": 2, "nch": 2}, 180, calls4b),
		hist("HC05", pm{"k": 3, "paths": 4, "root": 1}, 120, calls3root),
		hist("HC05", pm{"k": 4, "sib": 1, "paths": 3, "nch": 2, "stopat": 4}, 180, calls4sib),
	}, Thorough: []run{
		hist("HC05", pm{"k": 4, "paths": 4, "nch": 3, "maporder": 1}, 2400, "as quick with <=4 calls by 3 channels on 4 paths, both map iteration directions"),
		hist("HC05", pm{"k": 4, "paths": 3, "nch": 2}, 1200, calls4),
		hist("HC05", pm{"k": 5, "paths": 2, "nch": 2}, 2400, "<=5 calls by 2 channels on 2 nested directories"),
	}, Outside: outTree},
	{ID: "C06", Quick: []run{
		hist("HC06", pm{"k": 3, "paths": 5, "nch": 2}, 180, calls3+" and a sibling directory"),
		hist("HC06", pm{"k": 4, "paths": 2, "nch": 2}, 180, calls4b),
		hist("HC06", pm{"k": 3, "paths": 4, "root": 1}, 120, calls3root),
		nat(hist("HC17", pm{"k": 3, "paths": 4, "nch": 2, "strict": 1}, 180, calls3), recTree),
		hist("HC06", pm{"k": 4, "sib": 1, "paths": 3, "nch": 2, "stopat": 4}, 180, calls4sib),
	}, Thorough: []run{
		nat(hist("HC17", pm{"k": 4, "paths": 3, "nch": 2, "strict": 1}, 1200, calls4), recTree),
		hist("HC06", pm{"k": 4, "paths": 4, "nch": 3, "maporder": 1}, 2400, "as quick with <=4 calls by 3 channels on 4 paths, both map iteration directions"),
		hist("HC06", pm{"k": 4, "paths": 3, "nch": 2}, 1200, calls4),
		hist("HC06", pm{"k": 5, "paths": 2, "nch": 2}, 2400, "<=5 calls by 2 channels on 2 nested directories"),
	}, Outside: outTree},
	{ID: "C07", Quick: []run{
		{Fn: "HC07", Files: followFiles, P: pm{"k": 1}, Secs: 240, Native: true, Reach: []string{"followed"}, Bounds: "a recursive watchpoint with an arbitrary event set on 2 roots, optionally a second channel above, below or on it (recursive or not), one creation (directory with or without content, file, symlink) or removal among 3 paths reported at once or after another Watch (for a removal: and after the directory has been made again), then events of arbitrary kind inside"},
		{Fn: "HC07", Files: followFiles, P: pm{"k": 2, "second": 2, "late": 1, "kinds": 1}, Secs: 120, Native: true, Reach: []string{"followed"}, Bounds: "two creations or removals of directories, second channel on /w/r"},
		{Fn: "HC07", Files: followFiles, P: pm{"k": 3, "second": 1, "late": 1, "deliver": 0}, Secs: 120, Native: true, Reach: []string{"followed"}, Bounds: "three creations or removals, one channel"},
		{Fn: "HC07race", Files: raceFiles, P: pm{"k": 3, "sched": 1}, Secs: 120, Native: true, Reach: []string{"followed"}, Bounds: "<=3 creations and removals (or renames away) of a directory and its subdirectory while their events are processed, arbitrary event set; every schedule with <=1 deviation from run-to-block order; kernel watches die with their directory"},
		{Fn: "HC07norem", Files: followFiles, Secs: 60, Native: true, Reach: []string{"followed"}, Bounds: "creation, unnoticed or reported disappearance (removal or rename) and re-creation of a directory with a subdirectory, arbitrary event set"},
		{Fn: "HC07norem", Files: followFiles, P: pm{"root": 1}, Secs: 60, Native: true, Reach: []string{"followed"}, Bounds: "as above, below the root directory"},
		{Fn: "HC07deny", Files: followFiles, Secs: 60, Native: true, Reach: []string{"followed"}, Bounds: "a tree of 6 directories appears, any of 4 cannot be read, arbitrary event set"},
	}, Thorough: []run{
		{Fn: "HC07", Files: followFiles, P: pm{"k": 2, "maporder": 1}, Secs: 2400, Native: true, Reach: []string{"followed"}, Bounds: "two steps, everything of the quick one-step run"},
		{Fn: "HC07", Files: followFiles, P: pm{"k": 4, "second": 1, "deliver": 0}, Secs: 2400, Native: true, Reach: []string{"followed"}, Bounds: "four creations or removals, one channel"},
		{Fn: "HC07race", Files: raceFiles, P: pm{"k": 4, "sched": 1}, Secs: 1200, Native: true, Reach: []string{"followed"}, Bounds: "<=4 racing creations and removals, <=1 deviation"},
		{Fn: "HC07race", Files: raceFiles, P: pm{"k": 3, "sched": 2}, Secs: 1800, Native: true, Reach: []string{"followed"}, Bounds: "<=3 racing creations and removals, <=2 deviations"},
		{Fn: "HC07norem", Files: followFiles, Secs: 60, Native: true, Reach: []string{"followed"}, Bounds: "creation, unnoticed or reported disappearance (removal or rename) and re-creation of a directory with a subdirectory, arbitrary event set"},
		{Fn: "HC07deny", Files: followFiles, Secs: 60, Native: true, Reach: []string{"followed"}, Bounds: "a tree of 6 directories appears, any of 4 cannot be read, arbitrary event set"},
	}, Outside: "the watch of a renamed directory (it goes on under the old path), deeper trees"},
	{ID: "C08", Quick: []run{
		{Fn: "HC08", Files: faultFiles, P: pm{"k": 1, "paths": 4}, Secs: 120, Native: true, Reach: []string{"failed", "retried"}, Bounds: "<=1 earlier call, then a plain Watch refused by the OS, events of arbitrary kind, a retry, Stop"},
		{Fn: "HC08", Files: faultFiles, P: pm{"k": 2, "paths": 2}, Secs: 120, Native: true, Reach: []string{"failed", "retried"}, Bounds: "2 earlier calls on 2 nested paths, then as above"},
		{Fn: "HC08path", Files: faultFiles, P: pm{"k": 1}, Secs: 120, Native: true, Reach: []string{"failed"}, Bounds: "6 kinds of unusable paths, nil channel"},
		{Fn: "HC08rec", Files: faultFiles, P: pm{"k": 1}, Secs: 120, Native: true, Reach: []string{"failed"}, Bounds: "<=1 earlier call, then a recursive Watch during which any directory cannot be read"},
		nat(run{Fn: "HC08nat", Files: treeFiles, P: pm{"k": 1, "paths": 4}, Secs: 120, Native: true, Reach: []string{"failed", "retried"}, Bounds: "<=1 earlier call, then a Watch (recursive or not) refused by the OS, events of arbitrary kind, another Watch, Stop"}, recTree),
	}, Thorough: []run{
		nat(run{Fn: "HC08nat", Files: treeFiles, P: pm{"k": 2, "paths": 3}, Secs: 2400, Native: true, Reach: []string{"failed", "retried"}, Bounds: "2 earlier calls on 3 paths, then a Watch (recursive or not) refused by the OS, events of arbitrary kind, another Watch, Stop"}, recTree),
		{Fn: "HC08", Files: faultFiles, P: pm{"k": 2, "paths": 5}, Secs: 2400, Native: true, Reach: []string{"failed", "retried"}, Bounds: "2 earlier calls on 5 paths"},
		{Fn: "HC08path", Files: faultFiles, P: pm{"k": 2}, Secs: 600, Native: true, Reach: []string{"failed"}, Bounds: "6 kinds of unusable paths after 2 calls"},
		{Fn: "HC08rec", Files: faultFiles, P: pm{"k": 2}, Secs: 2400, Native: true, Reach: []string{"failed"}, Bounds: "2 earlier calls, then a recursive Watch during which any directory cannot be read"},
	}, Outside: "OS refusals inside a recursive Watch (not reported by design)"},
	{ID: "C09", Quick: []run{
		conc("HC09", pm{"sched": 1}, 180, "slow", "two channels on one directory (plain or recursive), one of them full or unbuffered; a directory creation and two events of arbitrary kind, event and tracking channels of capacity 0 or 1; every schedule with <=1 deviation from run-to-block order"),
		conc("HC09recv", pm{}, 60, "received", "a blocked receiver next to an unbuffered channel nobody reads, 3 events"),
	}, Thorough: []run{
		conc("HC09", pm{"sched": 2}, 3000, "slow", "as quick with <=2 deviations"),
	}, Outside: "schedules with more deviations, more events in flight"},
	{ID: "C10", Quick: []run{
		conc("HC10", pm{"sched": 1, "mkdir": 1, "evpaths": 1, "newest": 1}, 150, "joined", "8 pairs of concurrent Watch/Stop calls next to an event of arbitrary kind, after an earlier Watch, arbitrary event sets; every schedule with <=1 deviation from run-to-block order; data races by vector clocks"),
		conc("HC10", pm{"sched": 0, "mkdir": 2}, 150, "joined", "the pairs next to an event inside or on the watched directory or the creation of a directory; oldest-first and newest-first schedules"),
		conc("HC10", pm{"sched": 1, "mkdir": 1, "evpaths": 2, "newest": 1, "early": 1}, 400, "joined", "the 8 pairs next to an event inside or on the watched directory whose dispatch has begun, <=1 deviation"),
		conc("HC10", pm{"sched": 1, "mkdir": 2, "onlymk": 1, "scen": 1, "newest": 1}, 150, "joined", "4 of the pairs next to the creation of a directory, <=1 deviation"),
	}, Thorough: []run{
		conc("HC10", pm{"sched": 1, "mkdir": 2, "all": 1, "nsched": 0}, 2400, "joined", "every pair of calls on 2 paths by 2 channels, event or directory creation; <=1 deviation from run-to-block order, and newest-first order"),
		conc("HC10", pm{"sched": 2, "mkdir": 1, "newest": 1}, 2400, "joined", "the 8 pairs with <=2 deviations"),
		conc("HC10", pm{"sched": 1, "mkdir": 2}, 2400, "joined", "the 8 pairs with <=1 deviation from either order"),
	}, Outside: "three or more concurrent calls, schedules with more deviations"},
	{ID: "C11", Quick: []run{
		paths(pm{"n": 6, "target": 3, "links": 1, "loops": 0}, 120, "every path of <=6 bytes over {a,b,c,/,.} (absolute, or relative to the root or a directory) over every tree of depth 2 with 2 names per directory whose nodes are absent, directories, files or symlinks (<=1 link met) with an arbitrary target of <=3 bytes, no cycles"),
		paths(pm{"n": 4, "target": 3, "links": 2, "loops": 0}, 120, "as above, paths of <=4 bytes, <=2 links met"),
		paths(pm{"n": 2, "target": 4, "links": 2, "loops": 0}, 120, "as above, paths of <=2 bytes, targets of <=4 bytes"),
		paths(pm{"n": 3, "target": 2, "links": 2}, 120, "as above, paths of <=3 bytes, targets of <=2 bytes, with cycles"),
		longpaths(pm{"n": 24}, "paths of 24 elements whose last k (any k) elements are links, relative or absolute"),
		longpaths(pm{"n": 150, "longlinks": 0}, "a path of 150 directories"),
	}, Thorough: []run{
		paths(pm{"n": 8, "target": 4, "links": 1, "loops": 0}, 1800, "paths of <=8 bytes, <=1 link with a target of <=4 bytes"),
		paths(pm{"n": 5, "target": 4, "links": 2, "loops": 0}, 1800, "paths of <=5 bytes, <=2 links with targets of <=4 bytes"),
		paths(pm{"n": 4, "target": 3, "links": 3, "loops": 0, "depth": 3}, 1800, "paths of <=4 bytes, <=3 links with targets of <=3 bytes, trees of depth 3"),
		paths(pm{"n": 3, "target": 3, "links": 2}, 1800, "paths of <=3 bytes, <=2 links with targets of <=3 bytes, with cycles"),
		longpaths(pm{"n": 40}, "paths of 40 elements whose last k (any k) elements are links"),
		longpaths(pm{"n": 600, "longlinks": 0}, "a path of 600 directories"),
	}, Outside: "longer names and paths, deeper trees, changes of the file system during the resolution; a slash after a file in a link target may be refused or not"},
	{ID: "C12", Quick: []run{
		inot("HC12", "inotify_dec.go", pm{}, 60, "every 32-bit event set, watched anew or replacing another arbitrary one; one record of any single kind with or without IN_ISDIR and name, any cookie", "reported", "refused"),
	}, Thorough: []run{
		inot("HC12", "inotify_dec.go", pm{"maporder": 1}, 60, "every 32-bit event set, watched anew or replacing another arbitrary one; one record of any single kind with or without IN_ISDIR and name, any cookie", "reported", "refused"),
	}, Outside: "records carrying several kinds at once (the kernel does not send them)"},
	{ID: "C13", Quick: []run{
		inot("HC13", "inotify_dec.go", pm{"n": 1, "sets": 1}, 60, "0 or 1 record: any kernel mask, descriptor, cookie and name of 0, 1, 15, 16 or 31 arbitrary bytes; an arbitrary event set", "decoded"),
		inot("HC13", "inotify_dec.go", pm{"n": 2}, 120, "<=2 records in one or two reads, as above, two fixed event sets", "decoded"),
		inot("HC13", "inotify_dec.go", pm{"n": 3, "lens": 2}, 120, "<=3 records in one or two reads, names of 0 or 1 byte", "decoded"),
		inot("HC13big", "inotify_dec.go", pm{"n": 64}, 60, "64 records with names of 255 bytes, one of them arbitrary", "decoded"),
	}, Thorough: []run{
		inot("HC13", "inotify_dec.go", pm{"n": 2, "sets": 1}, 2400, "<=2 records, arbitrary event set", "decoded"),
		inot("HC13", "inotify_dec.go", pm{"n": 3, "lens": 3}, 2400, "<=3 records in one or two reads, names of 0, 1 or 16 bytes", "decoded"),
		inot("HC13", "inotify_dec.go", pm{"n": 4, "lens": 2}, 2400, "<=4 records in one or two reads, names of 0 or 1 byte", "decoded"),
		inot("HC13big", "inotify_dec.go", pm{"n": 800}, 600, "800 records with names of 255 bytes, one of them arbitrary", "decoded"),
	}, Outside: "buffers the kernel cannot return; the order of events of different reads"},
	{ID: "C14", Quick: []run{
		inot("HC14", "inotify_dec.go,inotify_hist.go", pm{"k": 4, "paths": 2}, 120, "every sequence of 4 steps on 2 paths: Watch or Rewatch with an arbitrary set, Unwatch, removal, creation, rename, hard link; then one record of any kind on any descriptor", "reported"),
		inot("HC14", "inotify_dec.go,inotify_hist.go", pm{"k": 5, "paths": 1}, 120, "as above, 5 steps on 1 path", "reported"),
		inot("HC14race", "inotify_dec.go,inotify_life.go", pm{"sched": 1, "events": 2}, 120, "arbitrary event sets, records of any kind: Watch of another path, Rewatch or Unwatch next to 2 records being read and reported, and a record after it; every schedule with <=1 deviations; data races", "reported"),
	}, Thorough: []run{
		inot("HC14race", "inotify_dec.go,inotify_life.go", pm{"sched": 2, "events": 2}, 2400, "as quick, <=2 deviations", "reported"),
		inot("HC14", "inotify_dec.go,inotify_hist.go", pm{"k": 5, "paths": 2}, 2400, "5 steps on 2 paths", "reported"),
		inot("HC14", "inotify_dec.go,inotify_hist.go", pm{"k": 4, "paths": 3}, 2400, "4 steps on 3 paths", "reported"),
		inot("HC14", "inotify_dec.go,inotify_hist.go", pm{"k": 8, "paths": 1}, 2400, "8 steps on 1 path", "reported"),
	}, Outside: "requests concurrent with each other (the tree makes them one at a time)"},
	{ID: "C15", Quick: []run{
		inot("HC15", "inotify_dec.go,inotify_life.go", pm{"tries": 3}, 60, "3 requests in which any one system call each (inotify_init1, epoll_create1, pipe, either epoll_ctl, inotify_add_watch) fails, Close, a restart with or without a failure, Close", "failed", "closed", "closed unused", "again"),
		inot("HC15race", "inotify_dec.go,inotify_life.go", pm{"sched": 2, "events": 2}, 120, "Close of 1 or 2 watches next to up to 3 records arriving and being processed; every schedule with <=2 deviations; data races", "closed"),
	}, Thorough: []run{
		inot("HC15", "inotify_dec.go,inotify_life.go", pm{"tries": 5}, 1200, "as quick with 5 requests", "failed", "closed", "closed unused", "again"),
		inot("HC15race", "inotify_dec.go,inotify_life.go", pm{"sched": 3, "events": 1}, 2400, "<=3 deviations, up to 2 records", "closed"),
	}, Outside: "failures of close and write, requests concurrent with Close"},
	{ID: "C16", Quick: []run{
		nat(dispatched("HC16", pm{"k": 3, "paths": 4, "nch": 2}, 180, calls3+", then an event of arbitrary kind on each of 10 paths"), recTree),
		nat(dispatched("HC16", pm{"k": 2, "paths": 4, "root": 1}, 120, calls2root+", then an event of arbitrary kind on each of 7 paths"), recTree),
		nat(dispatched("HC03seq", pm{"k": 2, "paths": 5}, 120, "every sequence of <=2 Watch/Stop calls by <=2 channels over 5 paths with arbitrary event sets, Stop of a channel, then an event of arbitrary kind on each of 10 paths"), ""),
		nat(conc("HC03", pm{"sched": 1, "events": 2}, 120, "stopped", "Stop of a channel with 1 or 2 watchpoints next to 2 events of arbitrary kind and another channel's watchpoint, watches removable or not; every schedule with <=1 deviation from run-to-block order"), ""),
		nat(conc("HC09", pm{"sched": 1}, 120, "slow", "two channels on one directory, one of them full or unbuffered, three events; every schedule with <=1 deviation"), ""),
		nat(conc("HC09recv", pm{}, 60, "received", "a blocked receiver next to an unbuffered channel nobody reads, 3 events"), ""),
		nat(conc("HC10", pm{"sched": 1, "mkdir": 1, "evpaths": 1, "newest": 1}, 120, "joined", "8 pairs of concurrent Watch/Stop calls next to an event, after an earlier Watch, arbitrary event sets; every schedule with <=1 deviation; data races by vector clocks"), ""),
		nat(conc("HC10", pm{"sched": 1, "mkdir": 1, "evpaths": 2, "newest": 1, "early": 1}, 200, "joined", "the 8 pairs next to an event inside or on the watched directory whose dispatch has begun, <=1 deviation"), ""),
		nat(dispatched("HC16", pm{"k": 4, "sib": 1, "paths": 3, "nch": 2, "stopat": 4}, 180, calls4sib+", then an event of arbitrary kind on each of 10 paths"), recTree),
	}, Thorough: []run{
		nat(dispatched("HC16", pm{"k": 3, "paths": 5, "nch": 3, "maporder": 1}, 2400, "as quick with 5 paths, 3 channels, both map iteration directions"), recTree),
		nat(dispatched("HC16", pm{"k": 4, "paths": 3, "nch": 2}, 2400, calls4+", then an event of arbitrary kind on each of 10 paths"), recTree),
		nat(dispatched("HC03seq", pm{"k": 3, "paths": 4}, 1800, "every sequence of <=3 Watch/Stop calls, Stop of a channel, then events"), ""),
		nat(conc("HC03", pm{"sched": 3, "events": 2}, 2400, "stopped", "as quick with <=3 deviations"), ""),
		nat(conc("HC09", pm{"sched": 2}, 2400, "slow", "as quick with <=2 deviations"), ""),
		nat(conc("HC10", pm{"sched": 2, "mkdir": 1}, 2400, "joined", "as quick with <=2 deviations from oldest-first and newest-first order"), ""),
	}, Outside: "longer call sequences, more than 3 channels, other directory layouts, schedules with more deviations; what the OS reports (C18, C19)"},
	{ID: "C17", Quick: []run{
		nat(hist("HC17", pm{"k": 3, "paths": 5, "nch": 2}, 180, calls3+" and a sibling directory"), recTree),
		nat(hist("HC17", pm{"k": 3, "paths": 4, "root": 1}, 180, calls3root), recTree),
		nat(hist("HC17", pm{"k": 4, "paths": 2, "nch": 2}, 180, calls4b), recTree),
		nat(hist("HC17", pm{"k": 4, "paths": 3, "nch": 2, "stopat": 3}, 300, "every sequence Watch, Watch, Stop, Watch by 2 channels over 3 nested directories (recursive and not), each with an arbitrary event set"), recTree),
		nat(hist("HC17", pm{"k": 4, "sib": 1, "paths": 3, "nch": 2, "stopat": 4}, 180, calls4sib), recTree),
	}, Thorough: []run{
		nat(hist("HC17", pm{"k": 4, "paths": 3, "nch": 2}, 1200, calls4), recTree),
		nat(hist("HC17", pm{"k": 3, "paths": 5, "nch": 3, "maporder": 1}, 1200, "<=3 calls by 3 channels on 5 paths, both map iteration directions"), recTree),
		nat(hist("HC17", pm{"k": 5, "paths": 2, "nch": 2}, 3000, "<=5 calls by 2 channels on 2 nested directories"), recTree),
	}, Outside: outTree},
	{ID: "C18", Quick: []run{
		fse("HC18", pm{"n": 1, "bits": 3}, 120, "a watch (recursive or not, created or modified in 4 ways) with an arbitrary set of the 19 flags and 1 record on 8 paths before or after the history-done marker, with arbitrary flags (at most 3 of them requested); then Unwatch or Close", "reported"),
		fse("HC18", pm{"n": 3, "how": 0, "paths": 2, "flags": 0x1700}, 180, "<=3 records of arbitrary flags out of Created, Removed, Modified and InodeMetaMod on 2 paths, arbitrary event set, history-done marker anywhere", "reported"),
		fse("HC18", pm{"n": 2, "how": 0, "paths": 2, "flags": 0x131a, "wrapped": 1, "split": 1}, 120, "<=2 records in one or two batches, of arbitrary flags out of UserDropped, EventIdsWrapped, HistoryDone, Created, Removed and Modified on 2 paths, arbitrary event set", "reported"),
		fse("HC18tree", pm{"k": 1, "paths": 4, "fault": 1}, 120, "a Watch and a Watch the OS refuses (either native call fails) on 4 paths with arbitrary event sets, then a native event of arbitrary kind on each of 10 paths, then Stop", "reported", "refused"),
		fse("HC18tree", pm{"k": 2, "paths": 4, "fault": 0}, 120, "every sequence of <=2 Watch/Stop calls by 2 channels on 4 paths with arbitrary event sets, then a native event of arbitrary kind on each of 10 paths, then Stop", "reported"),
		fse("HC18tree", pm{"k": 2, "paths": 3, "fault": 0, "root": 1}, 120, calls2root+", then a native event of arbitrary kind on each of 7 paths, then Stop", "reported"),
	}, Thorough: []run{
		fse("HC18", pm{"n": 1, "bits": 5}, 1200, "as quick, at most 5 of the flags requested", "reported"),
		fse("HC18", pm{"n": 4, "how": 0, "paths": 2, "flags": 0x1700}, 2400, "<=4 records of arbitrary flags out of Created, Removed, Modified and InodeMetaMod on 2 paths", "reported"),
		fse("HC18", pm{"n": 3, "how": 0, "paths": 2, "flags": 0x131a, "wrapped": 1, "split": 1}, 2400, "<=3 records in several batches, of arbitrary flags out of UserDropped, EventIdsWrapped, HistoryDone, Created, Removed and Modified", "reported"),
		fse("HC18tree", pm{"k": 2, "paths": 4, "fault": 1}, 1200, "every sequence of <=2 Watch/Stop calls and a Watch the OS refuses on 4 paths, then native events", "reported", "refused"),
		fse("HC18tree", pm{"k": 3, "paths": 3, "fault": 0}, 2400, "every sequence of <=3 Watch/Stop calls on 3 paths, then native events", "reported"),
	}, Outside: "what FSEvents itself reports, batches concurrent with requests, records with more flags or longer histories of a path"},
	{ID: "C19", Quick: []run{
		win("HC19", pm{}, 120, "a watch (recursive or not) with an arbitrary 32-bit set, then each of 14 kinds of change on a child and on a deeper path, then Close", "refused", "reported"),
		win("HC19", pm{"rewatch": 1, "mask": 0xd0010b}, 120, "a watch modified to another set out of Create, Write, Rename, FileName, DirName, Size and Security, another recursion, or both; then the changes", "reported"),
		win("HC19", pm{"n": 1, "batch": 1, "paths": 3, "mask": 0x50000b}, 120, "an arbitrary set out of Create, Write, FileName, DirName and Size, a change with one or two records on 3 paths", "reported"),
		win("HC19tree", pm{"k": 1, "paths": 2, "mask": 0xd0010b}, 120, "a Watch of any of 2 nested directories (recursive or not), sets as above, then every change on 3 paths", "delivered"),
		win("HC19tree", pm{"k": 3, "paths": 2, "mask": 0x100008, "gone": 1}, 180, "every sequence of <=3 Watch/Stop calls by 2 channels on 2 nested directories with sets out of Create and Size, the directory possibly removed before the Stop; then changes on 3 paths", "delivered"),
		win("HC19tree", pm{"k": 2, "paths": 2, "mask": 0x500003}, 180, "every sequence of <=2 Watch/Stop calls with sets out of Create, Write, FileName and DirName", "delivered"),
		win("HC19tree", pm{"k": 2, "paths": 2, "mask": 0x100008, "fault": 1}, 180, "every sequence of <=2 Watch/Stop calls, then a Watch during which any one system call fails; sets out of Create and Size; then changes", "delivered", "refused"),
		win("HC19tree", pm{"k": 2, "paths": 2, "mask": 0x100008, "root": 1}, 120, "every sequence of <=2 Watch/Stop calls on the root directory of a volume and a directory in it, sets out of Create and Size", "delivered"),
	}, Thorough: []run{
		win("HC19", pm{"rewatch": 1}, 2400, "a watch modified between arbitrary supported sets", "reported"),
		win("HC19", pm{"n": 2, "batch": 1, "paths": 3, "mask": 0xd0010b}, 2400, "two changes with one or two records on 3 paths", "reported"),
		win("HC19tree", pm{"k": 3, "paths": 3, "mask": 0x10000a, "events": 4}, 2400, "<=3 calls on 3 nested directories with sets out of Create, DirName and Size", "delivered"),
		win("HC19tree", pm{"k": 2, "paths": 2, "mask": 0xd0010b}, 2400, "<=2 calls, sets out of 7 events", "delivered"),
		win("HC19tree", pm{"k": 3, "paths": 2, "mask": 0x100008, "fault": 1}, 2400, "<=3 calls, then a Watch during which any one system call fails", "delivered", "refused"),
		win("HC19tree", pm{"k": 4, "paths": 2, "mask": 0x100008}, 2400, "<=4 calls with sets out of Create and Size", "delivered"),
	}, Outside: "what the system reports; requests during an unfinished rewatch; failures of asynchronous re-registration and of CloseHandle; the moment an unwatched directory is let go"},
	{ID: "C20", Quick: join(
		trig("HC20", pm{"n": 2}, 120, "a directory watched with an arbitrary set, directly or after another set, then every 2 changes (creation, also of a removed name, write, attribute change, removal, rename within or out of it) of it and its entries, Unwatch and Close", "reported"),
		trig("HC20", pm{"n": 3, "hows": 1}, 180, "as above with 3 changes and one Watch", "reported"),
		trig("HC20file", pm{}, 120, "a file watched with an arbitrary set, alone or next to its directory in either order, or after the directory's Unwatch; write, attribute change, then Unwatch, removal or rename", "reported"),
		trig("HC20nest", pm{"n": 1}, 120, "a directory and its parent watched with arbitrary sets in either order, one of them possibly unwatched, then every change below, renames of the watched directory included", "reported"),
		trig("HC20fail", pm{}, 120, "a Watch (of a directory or a file) or Rewatch during which any one system call fails, the parent directory watched or not, writes to every file afterwards", "failed", "watched"),
		trig("HC20start", pm{}, 60, "a start during which any one system call fails", "failed", "started"),
		trig("HC20race", pm{"sched": 1, "newest": 1, "ops": 1}, 240, "a directory watched with an arbitrary set, possibly a file in it on its own, then Watch of the parent, Rewatch, or either Unwatch next to a write, attribute change, creation, removal or renaming being read and reported; every schedule with <=1 deviation, also between the reading of a directory and its use; data races; then a creation, Unwatch and Close", "reported"),
		trig("HC20tree", pm{"k": 1, "n": 2, "paths": 3}, 180, "one Watch of a directory (recursive or not) or file with an arbitrary set, then every 2 changes below, then Stop", "delivered"),
		trig("HC20tree", pm{"k": 2, "n": 1, "paths": 3}, 240, "every sequence of <=2 Watch/Stop calls by 2 channels on 3 paths with arbitrary sets, then every change below, then Stop", "delivered"),
	), Thorough: join(
		trig("HC20", pm{"n": 3}, 1200, "3 changes, directly watched or rewatched", "reported"),
		trig("HC20nest", pm{"n": 2}, 1200, "2 changes", "reported"),
		trig("HC20tree", pm{"k": 2, "n": 1, "paths": 4}, 2400, "<=2 Watch/Stop calls on 4 paths", "delivered"),
		trig("HC20tree", pm{"k": 2, "n": 2, "paths": 3}, 2400, "<=2 Watch/Stop calls on 3 paths, 2 changes", "delivered"),
		trig("HC20fail", pm{}, 120, "any one system call fails", "failed", "watched"),
		trig("HC20file", pm{}, 120, "as quick", "reported"),
		trig("HC20start", pm{}, 60, "as quick", "failed", "started"),
		trig("HC20race", pm{"sched": 1, "newest": 2}, 2400, "as quick, newest-first schedules, too, and any change afterwards", "reported"),
		trig("HC20race", pm{"sched": 2, "newest": 1, "ops": 1}, 2400, "as quick, <=2 deviations", "reported"),
	), Outside: "what kqueue and FEN themselves report; changes that happen before an earlier one is processed; hard links, symlinks, renames onto an existing file"},
	{ID: "C21", Quick: []run{
		names("linux", "names_lin.go", pm{}, 180, allSets),
		names("freebsd", "trigger.go,trigger_tree.go,kern_kqueue.go,names_kqueue.go", pm{}, 120, allSets),
		names("solaris", "trigger.go,trigger_tree.go,kern_fen.go,names_fen.go", pm{}, 120, allSets),
		names("windows", "names_win.go", pm{"lo": 0, "hi": 10}, 120, "every set of the first 10 named events, any one other and any unnamed bits"),
		names("windows", "names_win.go", pm{"lo": 9, "hi": 17}, 120, "every set of the last 8 named events, any one other and any unnamed bits"),
		names("darwin", "cgo_fsevents.go,names_mac.go", pm{"lo": 0, "hi": 10}, 120, "every set of the first 10 named events, any one other and any unnamed bits"),
		names("darwin", "cgo_fsevents.go,names_mac.go", pm{"lo": 9, "hi": 19}, 120, "every set of the last 10 named events, any one other and any unnamed bits"),
	}, Thorough: []run{
		names("linux", "names_lin.go", pm{"maporder": 1}, 900, allSets+", both directions of map iteration"),
		names("freebsd", "trigger.go,trigger_tree.go,kern_kqueue.go,names_kqueue.go", pm{"maporder": 1}, 900, allSets),
		names("solaris", "trigger.go,trigger_tree.go,kern_fen.go,names_fen.go", pm{"maporder": 1}, 900, allSets),
		names("windows", "names_win.go", pm{}, 900, allSets),
		names("darwin", "cgo_fsevents.go,names_mac.go", pm{}, 2400, allSets),
	}, Outside: "the path in the textual form of a notification"},
	{ID: "C22", Quick: []run{
		inot("HC22", "e2e.go", pm{"k": 1, "n": 1}, 120, e2eSets+"one Watch of a directory (recursive or not), then every change (creation, filled or under a name used before, write, attribute change, removal, rename within or out of it) below", "delivered"),
		inot("HC22", "e2e.go", pm{"k": 1, "n": 2, "selfs": 1, "mask": portable}, 120, "one Watch with every set of portable events, then every 2 changes", "delivered"),
		inot("HC22", "e2e.go", pm{"k": 2, "n": 1, "selfs": 1, "mask": portable, "paths": 4}, 180, "every sequence of <=2 Watch/Stop calls by 2 channels on 3 directories and a file with every set of portable events, then every change", "delivered"),
		inot("HC22", "e2e.go", pm{"k": 2, "n": 3, "replace": 1, "selfs": 1, "mask": portable, "paths": 4}, 180, "a recursive Watch and, by another channel, one of a file or directory below with every set of portable events; that is removed and made anew as a file or directory; then every change", "delivered"),
	}, Thorough: []run{
		inot("HC22", "e2e.go", pm{"k": 1, "n": 2}, 2400, e2eSets+"one Watch, then every 2 changes", "delivered"),
		inot("HC22", "e2e.go", pm{"k": 2, "n": 1, "paths": 3}, 2400, "<=2 Watch/Stop calls on 3 paths, arbitrary sets, one change", "delivered"),
		inot("HC22", "e2e.go", pm{"k": 1, "n": 3, "selfs": 1, "mask": portable, "paths": 1}, 2400, "one Watch with every set of portable events, 3 changes", "delivered"),
		inot("HC22", "e2e.go", pm{"k": 1, "n": 2, "mid": 1, "selfs": 1, "mask": portable, "paths": 2}, 2400, "a Watch or Stop between 2 changes", "delivered"),
		inot("HC22", "e2e.go", pm{"k": 2, "n": 2, "selfs": 1, "mask": portable, "paths": 2}, 2400, "<=2 Watch/Stop calls on 2 paths with every set of portable events, 2 changes", "delivered"),
	}, Outside: "changes made before an earlier one is processed (other than the content a new directory comes with); what happens in a directory moved out of every recursive watch, which Linux reports under its old path; what watchpoints on paths that go away are told later, and Watch of such a path while they last; IN_OPEN, IN_ACCESS and IN_CLOSE_NOWRITE"},
}
