package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- decisions

const (
	dBranch uint8 = iota
	dImplied
	dChoice
)

type dnode struct {
	parent *dnode
	kind   uint8
	val    int
	n      int
}

type work struct {
	d     *dnode
	model Model
	depth int
}

// Nondet is a value chosen by the environment.
type Nondet struct {
	Name string
	W    uint8
	T    *Term `json:"-"`
	Val  uint64
}

type ChoiceRec struct {
	Name string
	K    int
}

// Violation is one failed obligation with everything needed to replay it.
type Violation struct {
	Label   string
	Msg     string
	Nondets []Nondet
	Choices []ChoiceRec
	Trace   []string
	Known   string // known-finding id
	Harness string
	Kind    string // assert, panic, deadlock, race
}

// State is the execution state of one worker.
type State struct {
	p        *Program
	ex       *Explorer
	tt       *TermTab
	sol      *Solver
	worker   int
	epoch    int
	globals  []Value
	cov      map[*Func]int
	tolerant bool
	steps    int
	maxSteps int
	nextID   int

	// path
	pc      []*Term
	model   Model
	memo    map[*Term]uint64
	prefix  []*dnode
	ppos    int
	cur     *dnode
	depth   int
	nondets []Nondet
	names   map[string]int
	choices []ChoiceRec
	trace   []string
	reach   map[string]bool

	facts     map[*Term]bool // conjuncts of pc[:pcSeen]
	pcSeen    int
	pending   []obligation
	pendDirty bool

	// concrete replay
	conc        map[string]uint64
	concMode    bool
	concCh      []ChoiceRec
	concChPos   int
	concFailed  []string
	concKnown   map[string]bool
	concAsserts int

	// environment
	mapOrder int
	mapRev   int
	explore  bool
	budget   int
	lifo     bool
	race     bool
	gs       []*G
	runq     []*G
	timers   []*sleeper // sorted by deadline
	now      int64
	timerSt  map[Ptr]*timerState
	cur2     int
	settler  *G
	killing  bool
	abort    interface{}
	wg       sync.WaitGroup
	mutexes  map[Ptr]*mutexState
	wgs      map[Ptr]*wgState
	atomics  map[Ptr][]uint32
	shadow   map[shKey]*shadow
	races    map[string]string
	ptrs     map[uint64]Ptr

	schedTrace []int
	curG       *G
}

func (st *State) setCur(g *G) { st.curG = g }

// Explorer drives one harness.
type Explorer struct {
	p        *Program
	name     string
	fn       *ssa.Function
	params   map[string]int
	tier     string
	maxSteps int
	deadline time.Time
	solver   []string
	nworkers int
	cache    qcache

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []work
	busy    int
	stopped bool
	stopWhy string

	// results
	Paths      int
	Ended      int // paths cut by an assumption
	Forks      int
	Choices    int
	Asserts    int
	AssertQ    int
	Steps      int64
	Incomplete map[string]int
	Reached    map[string]int
	Viol       map[string]*Violation
	KnownHits  map[string]*Violation
	Cov        map[string]int
	SolverStat struct {
		Queries, Cached, Sat, Unsat, Unknown int
		Time                                 time.Duration
	}
	Samples   []string
	Wall      time.Duration
	MaxDepth  int
	MaxViol   int
	dumpFile  *os.File
	sampleMod int
	validate  []*Violation // completed paths to re-run concretely (encoding validation)
}

func newExplorer(p *Program, name string, params map[string]int, tier string) (*Explorer, error) {
	fn := p.pkg.Func(name)
	if fn == nil {
		return nil, fmt.Errorf("harness %s not found", name)
	}
	ex := &Explorer{p: p, name: name, fn: fn, params: params, tier: tier, maxSteps: 20_000_000, nworkers: 8,
		solver: solverArgv(), Incomplete: map[string]int{}, Reached: map[string]int{}, Viol: map[string]*Violation{},
		KnownHits: map[string]*Violation{}, Cov: map[string]int{}, MaxViol: 6}
	ex.cond = sync.NewCond(&ex.mu)
	return ex, nil
}

func (ex *Explorer) run(budget time.Duration) {
	t0 := time.Now()
	ex.deadline = t0.Add(budget)
	ex.queue = []work{{model: Model{}}}
	var wg sync.WaitGroup
	for i := 0; i < ex.nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ex.workerLoop(i)
		}(i)
	}
	wg.Wait()
	ex.Wall = time.Since(t0)
	if n := len(ex.queue); n > 0 {
		ex.Incomplete[fmt.Sprintf("%s: unexplored path prefixes", ex.stopWhy)] += n
	}
}

func (ex *Explorer) get() (work, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped {
			return work{}, false
		}
		if time.Now().After(ex.deadline) {
			ex.stopped, ex.stopWhy = true, "time budget"
			ex.cond.Broadcast()
			return work{}, false
		}
		if n := len(ex.queue); n > 0 {
			w := ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			ex.busy++
			return w, true
		}
		if ex.busy == 0 {
			ex.cond.Broadcast()
			return work{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) put(w work) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, w)
	ex.Forks++
	ex.mu.Unlock()
	ex.cond.Signal()
}

func newState(p *Program, ex *Explorer, id int) *State {
	st := &State{p: p, ex: ex, worker: id, tt: newTermTab(), cov: map[*Func]int{}, maxSteps: 50_000_000}
	st.resetPath()
	st.epoch = 0
	st.initStd()
	st.epoch = 1
	return st
}

func (ex *Explorer) workerLoop(id int) {
	st := newState(ex.p, ex, id)
	st.sol = newSolver(ex.solver, st.tt, 20000, &ex.cache)
	if ex.dumpFile != nil {
		st.sol.dump = nil
	}
	defer st.sol.stop()
	n := 0
	for {
		w, ok := ex.get()
		if !ok {
			break
		}
		if len(st.tt.all) > 3_000_000 || (n > 0 && n%20000 == 0) {
			// bound memory: fresh term table and solver cache
			ex.mergeSolver(st.sol)
			st.sol.stop()
			st.tt = newTermTab()
			st.sol = newSolver(ex.solver, st.tt, 20000, &ex.cache)
		}
		n++
		st.runPath(w)
		ex.mu.Lock()
		ex.busy--
		if ex.busy == 0 && len(ex.queue) == 0 {
			ex.cond.Broadcast()
		}
		ex.mu.Unlock()
	}
	ex.mergeSolver(st.sol)
	ex.mu.Lock()
	for f, n := range st.cov {
		ex.Cov[f.name] += n
	}
	ex.mu.Unlock()
}

func (ex *Explorer) mergeSolver(s *Solver) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.SolverStat.Queries += s.Queries
	ex.SolverStat.Cached += s.Cached
	ex.SolverStat.Sat += s.Sat
	ex.SolverStat.Unsat += s.Unsat
	ex.SolverStat.Unknown += s.Unknown
	ex.SolverStat.Time += s.Time
	if s.broken != nil {
		ex.Incomplete["solver error: "+s.broken.Error()]++
	}
}

func (st *State) resetPath() {
	st.pc = nil
	st.facts, st.pcSeen = map[*Term]bool{}, 0
	st.pending = st.pending[:0]
	st.pendDirty = false
	st.memo = map[*Term]uint64{}
	st.prefix = nil
	st.ppos = 0
	st.cur = nil
	st.depth = 0
	st.nondets = nil
	st.names = map[string]int{}
	st.choices = nil
	st.trace = nil
	st.reach = map[string]bool{}
	st.mapOrder, st.mapRev = 0, -1
	st.explore, st.budget, st.race = false, 0, false
	st.gs, st.runq, st.settler = nil, nil, nil
	st.timers, st.now, st.timerSt = nil, 0, nil
	st.killing, st.abort = false, nil
	st.mutexes = map[Ptr]*mutexState{}
	st.wgs = map[Ptr]*wgState{}
	st.atomics = map[Ptr][]uint32{}
	st.shadow = map[shKey]*shadow{}
	st.races = nil
	st.ptrs = map[uint64]Ptr{}
	st.schedTrace = nil
	st.steps = 0
	st.nextID = 1 << 20
	for i := range st.globals {
		if st.globals[i] != nil && st.p.globalAt(i).Pkg == st.p.pkg {
			st.globals[i] = nil
		}
	}
}

func (st *State) gptr(i int) Value {
	for i >= len(st.globals) {
		st.globals = append(st.globals, nil)
	}
	if v := st.globals[i]; v != nil {
		return v
	}
	g := st.p.globalAt(i)
	o := st.newObj(layoutOf(deref(g.Type())), 1)
	v := Ptr{o, 0}
	st.globals[i] = v
	return v
}

var initPkgs = []string{"errors", "internal/oserror", "unicode/utf8", "unicode", "internal/bytealg", "internal/stringslite", "io", "math/bits", "strconv",
	"internal/itoa", "sync", "sync/atomic", "syscall", "unicode/utf16", "strings", "bytes", "path", "io/fs", "internal/filepathlite", "path/filepath", "os",
	"golang.org/x/sys/unix", "golang.org/x/sys/windows", "slices", "sort", "maps", "internal/syscall/windows", "container/list", "internal/poll", "time", "context"}

// initStd runs the initialisers of the allow-listed std packages in
// dependency order, tolerating anything the engine does not model.
func (st *State) initStd() {
	allow := map[string]bool{}
	for _, n := range initPkgs {
		allow[n] = true
	}
	done := map[string]bool{}
	var visit func(path string)
	visit = func(path string) {
		if done[path] {
			return
		}
		done[path] = true
		pkg := st.p.pkgs[path]
		if pkg == nil {
			return
		}
		for _, imp := range pkg.Pkg.Imports() {
			visit(imp.Path())
		}
		if !allow[path] {
			return
		}
		pkg.Build()
		fn := pkg.Func("init")
		if fn == nil {
			return
		}
		st.tolerant = true
		st.resetSched()
		g := st.newG("init")
		func() {
			defer func() { recover() }()
			g.call(st.p.getFunc(fn), nil, nil, nil, nil)
		}()
		st.tolerant = false
	}
	for _, imp := range st.p.pkg.Pkg.Imports() {
		visit(imp.Path())
	}
}

func (st *State) resetSched() {
	st.gs, st.runq, st.settler = nil, nil, nil
	st.timers, st.now, st.timerSt = nil, 0, nil
	st.killing, st.abort = false, nil
}

type fatalUnsup struct{ msg string }

// runPath executes one path; it returns through its bookkeeping.
func (st *State) runPath(w work) {
	st.resetPath()
	st.model = w.model
	for d := w.d; d != nil; d = d.parent {
		st.prefix = append(st.prefix, d)
	}
	for i, j := 0, len(st.prefix)-1; i < j; i, j = i+1, j-1 {
		st.prefix[i], st.prefix[j] = st.prefix[j], st.prefix[i]
	}
	st.maxSteps = st.ex.maxSteps
	why := st.execMain()
	st.discharge()
	ex := st.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.Steps += int64(st.steps)
	if st.depth > ex.MaxDepth {
		ex.MaxDepth = st.depth
	}
	switch {
	case why == "":
		ex.Paths++
		for l := range st.reach {
			ex.Reached[l]++
		}
		if len(ex.Samples) < 3 || (len(ex.Samples) < 8 && ex.Paths%97 == 0) {
			ex.Samples = append(ex.Samples, st.sample())
		}
		if len(ex.validate) < 4 || (len(ex.validate) < 16 && ex.Paths%211 == 0) {
			v := st.mkViolation("", "", "sample")
			ex.validate = append(ex.validate, v)
		}
	case strings.HasPrefix(why, "assume"):
		ex.Ended++
		for l := range st.reach {
			ex.Reached[l]++
		}
	case why == "violated":
		ex.Paths++
		for l := range st.reach {
			ex.Reached[l]++
		}
	default:
		ex.Incomplete[why]++
	}
	for pair, msg := range st.races {
		lab := "race " + pair
		if ex.Viol[lab] == nil {
			ex.Viol[lab] = st.mkViolation(lab, msg, "race")
		}
	}
	if len(ex.Viol) >= ex.MaxViol && !ex.stopped {
		ex.stopped, ex.stopWhy = true, "violation limit"
		ex.cond.Broadcast()
	}
}

func (st *State) sample() string {
	var p []string
	for _, c := range st.choices {
		p = append(p, fmt.Sprintf("%s=%d", c.Name, c.K))
	}
	for _, n := range st.nondets {
		v := n.Val
		if n.T != nil {
			v = st.eval(n.T)
		}
		p = append(p, fmt.Sprintf("%s=%#x", n.Name, v))
	}
	s := strings.Join(p, " ")
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// execMain runs notify's initialisers and the harness on a fresh main goroutine.
func (st *State) execMain() (why string) {
	g := st.newG("main")
	st.cov0()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil:
			case pathEnd:
				why = r.why
			case unsupported:
				why = "unsupported: " + r.msg
			case *goPanic:
				msg := "uncaught panic: " + st.fmtValue(r.val) + " at " + r.pos
				st.violate("panic:"+r.pos, msg, "panic", "")
				why = "violated"
			case *deadlock:
				st.violate("deadlock", "deadlock: "+r.what, "deadlock", "")
				why = "violated"
			default:
				why = fmt.Sprintf("engine error: %v", r)
				if os.Getenv("VERIF_DEBUG") != "" {
					why += string(debug.Stack())
				}
			}
		}()
		init := st.p.getFunc(st.p.pkg.Func("init"))
		g.call(init, nil, nil, nil, nil)
		st.settle(g)
		g.call(st.p.getFunc(st.ex.fn), nil, nil, nil, nil)
	}()
	<-done
	st.killAll()
	return why
}

func (st *State) cov0() {}

func (st *State) eval(t *Term) uint64 {
	return evalTerm(t, st.model, st.memo)
}

func (st *State) record(kind uint8, val, n int) {
	st.cur = &dnode{parent: st.cur, kind: kind, val: val, n: n}
	st.depth++
}

func (st *State) branch(cond *Term) bool {
	if cond.op == OConst {
		return cond.v == 1
	}
	if st.ex == nil || st.concMode {
		panic(fmt.Sprintf("symbolic branch in concrete mode: %v", cond))
	}
	if st.ppos < len(st.prefix) {
		d := st.prefix[st.ppos]
		st.ppos++
		st.cur = d
		st.depth++
		if d.kind == dChoice {
			panic("replay divergence: branch met choice")
		}
		take := d.val == 1
		if d.kind == dBranch {
			if take {
				st.pc = append(st.pc, cond)
			} else {
				st.pc = append(st.pc, st.tt.BNot(cond))
			}
		}
		return take
	}
	if v, ok := st.known(cond); ok {
		st.record(dImplied, b2i(v), 1)
		return v
	}
	side := st.eval(cond) == 1
	mine, other := cond, st.tt.BNot(cond)
	if !side {
		mine, other = other, mine
	}
	r, m := st.sol.Check(st.pc, other)
	switch r {
	case rSat:
		st.ex.put(work{d: &dnode{parent: st.cur, kind: dBranch, val: b2i(!side)}, model: overlay(st.model, m)})
		st.record(dBranch, b2i(side), 2)
		st.pc = append(st.pc, mine)
	case rUnsat:
		st.record(dImplied, b2i(side), 1)
	default:
		st.ex.mu.Lock()
		st.ex.Incomplete["solver unknown on a branch"]++
		st.ex.mu.Unlock()
		st.record(dBranch, b2i(side), 2)
		st.pc = append(st.pc, mine)
	}
	return side
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// known looks cond up among the conjuncts of the path condition.
func (st *State) known(cond *Term) (val, ok bool) {
	for ; st.pcSeen < len(st.pc); st.pcSeen++ {
		st.addFact(st.pc[st.pcSeen], true)
	}
	val, ok = st.facts[cond]
	return
}

func (st *State) addFact(t *Term, v bool) {
	st.facts[t] = v
	st.facts[st.tt.BNot(t)] = !v
	switch {
	case t.op == OBNot:
		st.addFact0(t.a, !v)
	case t.op == OBAnd && v, t.op == OBOr && !v:
		st.addFact0(t.a, v)
		st.addFact0(t.b, v)
	}
}

func (st *State) addFact0(t *Term, v bool) {
	if _, ok := st.facts[t]; !ok {
		st.addFact(t, v)
	}
}

func overlay(a, b Model) Model {
	r := make(Model, len(a)+len(b))
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		r[k] = v
	}
	return r
}

// choice forks over n alternatives not controlled by data.
func (st *State) choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if st.concMode {
		k := 0
		if st.concChPos < len(st.concCh) {
			c := st.concCh[st.concChPos]
			st.concChPos++
			if c.Name != name {
				panic(pathEnd{fmt.Sprintf("replay divergence: choice %s vs %s", name, c.Name)})
			}
			k = c.K
		}
		st.choices = append(st.choices, ChoiceRec{name, k})
		return k
	}
	if st.ppos < len(st.prefix) {
		d := st.prefix[st.ppos]
		st.ppos++
		st.cur = d
		st.depth++
		if d.kind != dChoice {
			panic("replay divergence: choice met branch")
		}
		st.choices = append(st.choices, ChoiceRec{name, d.val})
		return d.val
	}
	for k := n - 1; k >= 1; k-- {
		st.ex.put(work{d: &dnode{parent: st.cur, kind: dChoice, val: k, n: n}, model: st.model})
	}
	st.record(dChoice, 0, n)
	st.choices = append(st.choices, ChoiceRec{name, 0})
	return 0
}

func (st *State) fresh(name string, w uint8) Value {
	st.names[name]++
	full := fmt.Sprintf("%s#%d", name, st.names[name])
	if st.concMode {
		v := st.conc[full] & maskB(w)
		st.nondets = append(st.nondets, Nondet{Name: full, W: w, Val: v})
		if w == 0 {
			return v == 1
		}
		return v
	}
	t := st.tt.Var(w, fmt.Sprintf("%s_%d", full, w))
	st.nondets = append(st.nondets, Nondet{Name: full, W: w, T: t})
	return t
}

func (st *State) assume(v Value) {
	switch v := v.(type) {
	case bool:
		if !v {
			panic(pathEnd{"assume"})
		}
	case *Term:
		if st.eval(v) == 1 {
			st.pc = append(st.pc, v)
			return
		}
		r, m := st.sol.Check(st.pc, v)
		switch r {
		case rSat:
			st.model = overlay(st.model, m)
			st.memo = map[*Term]uint64{}
			st.pc = append(st.pc, v)
		case rUnsat:
			panic(pathEnd{"assume"})
		default:
			panic(pathEnd{"solver unknown on an assumption"})
		}
	}
}

func (st *State) assert(v Value, known Value, label, kf string) {
	if st.concMode {
		st.concAsserts++
		if b, ok := v.(bool); ok {
			if !b {
				if k, _ := known.(bool); k {
					st.concKnown[kf] = true
				} else {
					st.concFailed = append(st.concFailed, label)
				}
			}
			return
		}
		panic("symbolic assertion in concrete mode")
	}
	replaying := st.ppos < len(st.prefix)
	if !replaying {
		st.ex.mu.Lock()
		st.ex.Asserts++
		st.ex.mu.Unlock()
	}
	if b, ok := v.(bool); ok && b {
		return
	}
	neg := st.term(st.not(v), 0)
	kt := st.term(known, 0)
	if kt != st.tt.F {
		// known finding: report it separately, never as a violation
		if !replaying {
			hit := st.tt.BAnd(neg, kt)
			st.ex.mu.Lock()
			have := st.ex.KnownHits[kf] != nil
			st.ex.mu.Unlock()
			if !have && hit != st.tt.F {
				if r, m := st.check(hit); r == rSat {
					st.recordViol(m, label, "known finding "+kf, "assert", kf)
				}
			}
		}
		neg = st.tt.BAnd(neg, st.tt.BNot(kt))
	}
	if neg == st.tt.F {
		return
	}
	if neg == st.tt.T || st.eval(neg) == 1 {
		st.recordViol(Model{}, label, "assertion failed: "+label, "assert", "")
		panic(pathEnd{"violated"})
	}
	if !replaying {
		st.ex.mu.Lock()
		st.ex.AssertQ++
		st.ex.mu.Unlock()
	}
	// Decided together with the other obligations of the path when it ends
	// (every path through this point carries the obligation along).
	st.pending = append(st.pending, obligation{neg, label})
	st.pendDirty = st.pendDirty || !replaying
}

type obligation struct {
	neg   *Term
	label string
}

// discharge decides the obligations collected on the path.
func (st *State) discharge() {
	if len(st.pending) == 0 || st.concMode {
		return
	}
	any := st.tt.F
	for _, o := range st.pending {
		any = st.tt.BOr(any, o.neg)
	}
	r, m := st.check(any)
	switch r {
	case rSat:
		mm := overlay(st.model, m)
		memo := map[*Term]uint64{}
		for _, o := range st.pending {
			if evalTerm(o.neg, mm, memo) == 1 {
				st.recordViol(m, o.label, "assertion failed: "+o.label, "assert", "")
				break
			}
		}
	case rUnknown:
		st.ex.mu.Lock()
		st.ex.Incomplete["solver unknown on the obligations of a path"]++
		st.ex.mu.Unlock()
	}
	st.pending = st.pending[:0]
}

// check decides pc /\ c, using the current model first.
func (st *State) check(c *Term) (int, Model) {
	if c == st.tt.T {
		return rSat, Model{}
	}
	if st.eval(c) == 1 {
		return rSat, Model{}
	}
	return st.sol.Check(st.pc, c)
}

func (st *State) violate(label, msg, kind, kf string) {
	if st.concMode {
		st.concFailed = append(st.concFailed, label+" "+msg)
		return
	}
	st.recordViol(Model{}, label, msg, kind, kf)
}

func (st *State) recordViol(m Model, label, msg, kind, kf string) {
	save, smemo := st.model, st.memo
	st.model, st.memo = overlay(st.model, m), map[*Term]uint64{}
	v := st.mkViolation(label, msg, kind)
	v.Known = kf
	st.model, st.memo = save, smemo
	ex := st.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if kf != "" {
		if ex.KnownHits[kf] == nil {
			ex.KnownHits[kf] = v
		}
		return
	}
	if ex.Viol[label] == nil {
		ex.Viol[label] = v
	}
}

func (st *State) mkViolation(label, msg, kind string) *Violation {
	v := &Violation{Label: label, Msg: msg, Kind: kind, Harness: st.ex.name}
	for _, n := range st.nondets {
		x := n
		if n.T != nil {
			x.Val = st.eval(n.T)
			x.T = nil
		}
		v.Nondets = append(v.Nondets, x)
	}
	v.Choices = append(v.Choices, st.choices...)
	v.Trace = append(v.Trace, st.trace...)
	return v
}

// concResult is the outcome of a concrete re-execution.
type concResult struct {
	Failed  []string
	Known   []string
	Why     string
	Trace   []string
	Races   map[string]string
	Asserts int
	Reached []string
}

// replayConcrete re-executes a recorded path with every environment value
// concrete.
func (ex *Explorer) replayConcrete(v *Violation) (r concResult) {
	st := newState(ex.p, ex, 99)
	st.resetPath()
	st.concMode = true
	st.conc = map[string]uint64{}
	st.concKnown = map[string]bool{}
	for _, n := range v.Nondets {
		st.conc[n.Name] = n.Val
	}
	st.concCh = v.Choices
	st.maxSteps = ex.maxSteps
	st.model = Model{}
	r.Why = st.execMain()
	for k := range st.concKnown {
		r.Known = append(r.Known, k)
	}
	for l := range st.reach {
		r.Reached = append(r.Reached, l)
	}
	sort.Strings(r.Reached)
	r.Failed, r.Trace, r.Races, r.Asserts = st.concFailed, st.trace, st.races, st.concAsserts
	return
}

// ---- harness API

var harnessAPI map[string]intrinsic

func init() {
	fresh := func(w uint8) intrinsic {
		return func(g *G, fr *frame, a []Value) Value { return g.st.fresh(a[0].(string), w) }
	}
	harnessAPI = map[string]intrinsic{
		"vU8": fresh(8), "vU16": fresh(16), "vU32": fresh(32), "vU64": fresh(64), "vBool": fresh(0), "vI32": fresh(32),
		"vStr": func(g *G, fr *frame, a []Value) Value {
			n := g.st.concInt(a[1], 64)
			b := make([]Value, n)
			for i := range b {
				b[i] = g.st.fresh(a[0].(string), 8)
			}
			return mkStr(b)
		},
		"vChoose": func(g *G, fr *frame, a []Value) Value {
			return uint64(g.st.choice(a[0].(string), g.st.concInt(a[1], 64)))
		},
		"vAssume": func(g *G, fr *frame, a []Value) Value { g.st.assume(a[0]); return nil },
		"vAssert": func(g *G, fr *frame, a []Value) Value { g.st.assert(a[0], false, a[1].(string), ""); return nil },
		"vAssertKF": func(g *G, fr *frame, a []Value) Value {
			g.st.assert(a[0], a[1], a[2].(string), a[3].(string))
			return nil
		},
		"vFail":   func(g *G, fr *frame, a []Value) Value { g.st.assert(false, false, g.st.concStr(a[0]), ""); return nil },
		"vReach":  func(g *G, fr *frame, a []Value) Value { g.st.reach[a[0].(string)] = true; return nil },
		"vSettle": func(g *G, fr *frame, a []Value) Value { g.st.settle(g); return nil },
		"vYield":  func(g *G, fr *frame, a []Value) Value { g.st.schedPoint(g, "yield"); return nil },
		"vRace":   func(g *G, fr *frame, a []Value) Value { g.st.race = a[0].(bool); return nil },
		"vExplore": func(g *G, fr *frame, a []Value) Value {
			g.st.budget = g.st.concInt(a[0], 64)
			g.st.explore = g.st.budget > 0
			return nil
		},
		"vNewest":   func(g *G, fr *frame, a []Value) Value { g.st.lifo = a[0].(bool); return nil },
		"vMapOrder": func(g *G, fr *frame, a []Value) Value { g.st.mapOrder = g.st.concInt(a[0], 64); return nil },
		"vAnd":      func(g *G, fr *frame, a []Value) Value { return g.st.and(a[0], a[1]) },
		"vOr":       func(g *G, fr *frame, a []Value) Value { return g.st.or(a[0], a[1]) },
		"vNot":      func(g *G, fr *frame, a []Value) Value { return g.st.not(a[0]) },
		"vImplies":  func(g *G, fr *frame, a []Value) Value { return g.st.or(g.st.not(a[0]), a[1]) },
		"vEq": func(g *G, fr *frame, a []Value) Value { // string equality without forking
			return g.st.strEq(a[0], a[1])
		},
		"vIte32": func(g *G, fr *frame, a []Value) Value {
			switch c := a[0].(type) {
			case bool:
				if c {
					return a[1]
				}
				return a[2]
			case *Term:
				return g.st.ite(c, a[1], a[2], rtUint32)
			}
			return nil
		},
		"vIteB": func(g *G, fr *frame, a []Value) Value {
			return g.st.or(g.st.and(a[0], a[1]), g.st.and(g.st.not(a[0]), a[2]))
		},
		"vBlocked": func(g *G, fr *frame, a []Value) Value { // goroutines stuck in a send or lock
			n := 0
			for _, o := range g.st.gs {
				if !o.dead && !o.harness && o != g && (strings.HasPrefix(o.blocked, "chan send") || strings.Contains(o.blocked, "lock") ||
					strings.HasPrefix(o.blocked, "send on nil") || strings.HasPrefix(o.blocked, "waitgroup")) {
					n++
				}
			}
			return uint64(n)
		},
		"vLive": func(g *G, fr *frame, a []Value) Value { // live goroutines of the code under test
			n := 0
			for _, o := range g.st.gs {
				if !o.dead && !o.harness && o != g {
					n++
				}
			}
			return uint64(n)
		},
		"vParam": func(g *G, fr *frame, a []Value) Value {
			if v, ok := g.st.ex.params[a[0].(string)]; ok {
				return uint64(int64(v))
			}
			return a[1]
		},
		"vEnd": func(g *G, fr *frame, a []Value) Value { panic(pathEnd{"assume"}) },
		"vTrace": func(g *G, fr *frame, a []Value) Value {
			s := ""
			sl := a[0].(Slice)
			for i := 0; i < sl.len; i++ {
				v := sl.o.get(sl.off + i).(Iface)
				if g.st.concMode {
					s += g.st.fmtValue(v.v) + " "
				} else {
					switch x := v.v.(type) {
					case string:
						s += x + " "
					default:
						s += g.st.fmtValue(v.v) + " "
					}
				}
			}
			g.st.trace = append(g.st.trace, s)
			return nil
		},
		"vNative": func(g *G, fr *frame, a []Value) Value { return false },
		"vConc": func(g *G, fr *frame, a []Value) Value {
			return uint64(uint32(g.st.concInt(a[0], 32)))
		},
	}
}

func sortedMap(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
