package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var repoDir = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

// outDir receives evidence and replay files.
var outDir = func() string {
	if d := os.Getenv("VERIF_OUT"); d != "" {
		return d
	}
	return filepath.Join(verifDir, "evidence")
}()

func main() {
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	go func() { <-sig; cleanScratch(); os.Exit(4) }()
	code := 2
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "try":
			code = try()
		case "check":
			code = check(os.Args[2], tierOf(os.Args[3:]))
		case "replay":
			code = replayCmd(os.Args[2])
		case "list":
			for _, c := range allChecks {
				fmt.Println(c.ID)
			}
			code = 0
		}
	}
	cleanScratch()
	os.Exit(code)
}

func tierOf(a []string) string {
	t := os.Getenv("VERIF_TIER")
	for i, x := range a {
		if x == "--tier" && i+1 < len(a) {
			t = a[i+1]
		}
	}
	if t != "thorough" {
		t = "quick"
	}
	return t
}

func try() int {
	goos, native := "linux", false
	args := os.Args[2:]
	for len(args) > 0 && strings.HasPrefix(args[0], "-") {
		if args[0] == "-native" {
			native = true
		} else {
			goos = args[0][1:]
		}
		args = args[1:]
	}
	h := hfiles(strings.Split(args[0], ","))
	p, err := load(LoadSpec{Repo: repoDir, GOOS: goos, Harness: h, Stubs: true})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	pp := params(args[2:])
	ex, err := newExplorer(p, args[1], pp, "quick")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	secs := 60
	if s, ok := pp["secs"]; ok {
		secs = s
	}
	ex.run(time.Duration(secs) * time.Second)
	fmt.Printf("paths %d ended %d forks %d asserts %d/%d steps %d wall %v solver %+v\n", ex.Paths, ex.Ended, ex.Forks, ex.Asserts, ex.AssertQ, ex.Steps, ex.Wall, ex.SolverStat)
	fmt.Println("incomplete", ex.Incomplete)
	fmt.Println("reached", ex.Reached)
	if os.Getenv("VERIF_COV") != "" {
		covDebug(ex)
	}
	var nb *nativeBin
	if native {
		t0 := time.Now()
		if nb, err = buildNative(repoDir, p, h, ""); err != nil {
			fmt.Println(err)
		}
		fmt.Println("native build", time.Since(t0))
	}
	show := func(v *Violation) {
		fmt.Printf("  concrete: %+v\n", ex.replayConcrete(v))
		if nb != nil {
			o, err := nb.run(v, pp, 20*time.Second)
			fmt.Printf("  native: %+v %v\n", o, err)
		}
	}
	for l, v := range ex.Viol {
		fmt.Println("VIOL", l, v.Msg, v.Nondets, v.Choices, v.Trace)
		show(v)
	}
	for l, v := range ex.KnownHits {
		fmt.Println("KNOWN", l, v.Msg, v.Nondets, v.Choices, v.Trace)
		show(v)
	}
	for i, s := range ex.Samples {
		if i < 4 {
			fmt.Println("sample", s)
		}
	}
	if native {
		for i, v := range ex.validate {
			if i < 3 {
				show(v)
			}
		}
	}
	return 0
}

func hfiles(fs []string) map[string]string {
	r := map[string]string{"zz_verif_rt.go": verifDir + "/harness/rt_sym.go"}
	for _, f := range fs {
		if !strings.Contains(f, "/") {
			f = verifDir + "/harness/" + f
		}
		r["zz_verif_"+f[strings.LastIndexByte(f, '/')+1:]] = f
	}
	return r
}

func params(a []string) map[string]int {
	r := map[string]int{}
	for _, x := range a {
		k, v, _ := strings.Cut(x, "=")
		r[k], _ = strconv.Atoi(v)
	}
	return r
}

// ---- known findings

type finding struct{ id, prop, text string }

// loadFindings reads known_findings.txt: lines
//
//	known: property=<id> id=<KF-x> <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadFindings() map[string]finding {
	r := map[string]finding{}
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			continue
		}
		prop, rest, _ := strings.Cut(rest, " ")
		id, text, _ := strings.Cut(strings.TrimPrefix(rest, "id="), " ")
		r[prop+"/"+id] = finding{id, prop, text}
	}
	return r
}

// ---- check

type replayFile struct {
	Property    string         `json:"property"`
	Label       string         `json:"label"`
	Message     string         `json:"message"`
	Kind        string         `json:"kind"`
	Harness     string         `json:"harness"`
	Files       string         `json:"files"`
	GOOS        string         `json:"goos"`
	Params      map[string]int `json:"params"`
	Nondets     []Nondet       `json:"values"`
	Choices     []ChoiceRec    `json:"choices"`
	Trace       []string       `json:"trace"`
	ConfirmedBy []string       `json:"confirmed_by"`
	HowTo       string         `json:"how_to"`
}

type runReport struct {
	Harness    string         `json:"harness"`
	GOOS       string         `json:"goos"`
	Bounds     string         `json:"bounds"`
	Params     map[string]int `json:"params"`
	Paths      int            `json:"paths"`
	Pruned     int            `json:"paths_cut_by_assumptions"`
	Forks      int            `json:"forks"`
	MaxDepth   int            `json:"max_decisions_on_a_path"`
	Steps      int64          `json:"instructions"`
	Asserts    int            `json:"obligations"`
	AssertsSym int            `json:"obligations_with_symbolic_condition"`
	Queries    int            `json:"queries"`
	Cached     int            `json:"queries_answered_from_cache"`
	Sat        int            `json:"sat"`
	Unsat      int            `json:"unsat"`
	Unknown    int            `json:"unknown"`
	SolverS    float64        `json:"solver_s"`
	WallS      float64        `json:"wall_s"`
	Complete   bool           `json:"bound_fully_explored"`
	Incomplete map[string]int `json:"not_explored,omitempty"`
	Reached    map[string]int `json:"witnesses"`
	Missing    []string       `json:"witnesses_missing,omitempty"`
	Validated  int            `json:"paths_replayed_natively"`
	Mismatch   []string       `json:"native_mismatches,omitempty"`
	Notes      []string       `json:"notes,omitempty"`
	Samples    []string       `json:"samples"`
}

type progKey struct{ files, goos string }

func check(id, tier string) int {
	t0 := time.Now()
	var def *checkDef
	for i := range allChecks {
		if allChecks[i].ID == id {
			def = &allChecks[i]
		}
	}
	if def == nil {
		fmt.Println("unknown check", id)
		return 2
	}
	runs := def.Quick
	if tier == "thorough" {
		runs = def.Thorough
	}
	known := loadFindings()
	progs := map[progKey]*Program{}
	natives := map[progKey]*nativeBin{}
	nativeErr := map[progKey]error{}
	var reports []runReport
	cov := map[string]int{}
	var loadErrs []string
	var viol []*replayFile
	var unconfirmed []string
	knownHit := map[string]bool{}
	nviol := 0

	for _, r := range runs {
		if len(viol) > 0 {
			break
		}
		if r.GOOS == "" {
			r.GOOS = "linux"
		}
		k := progKey{r.Files, r.GOOS}
		h := hfiles(strings.Split(r.Files, ","))
		p := progs[k]
		if p == nil {
			var err error
			if p, err = load(LoadSpec{Repo: repoDir, GOOS: r.GOOS, Harness: h, Stubs: true}); err != nil {
				loadErrs = append(loadErrs, fmt.Sprintf("%s (%s): %v", r.Fn, r.GOOS, err))
				fmt.Printf("NOT-EXPLORED %s: %v\n", r.Fn, err)
				continue
			}
			progs[k] = p
		}
		ex, err := newExplorer(p, r.Fn, r.P, tier)
		if err != nil {
			loadErrs = append(loadErrs, err.Error())
			continue
		}
		// the native twin is compiled while the solver runs
		var nb *nativeBin
		var nerr error
		var bw sync.WaitGroup
		if r.Native && natives[k] == nil && nativeErr[k] == nil {
			bw.Add(1)
			go func() {
				defer bw.Done()
				nb, nerr = buildNative(repoDir, p, h, "")
			}()
		} else {
			nb, nerr = natives[k], nativeErr[k]
		}
		ex.run(time.Duration(r.Secs) * time.Second)
		bw.Wait()
		if r.Native {
			natives[k], nativeErr[k] = nb, nerr
		}
		rep := runReport{Harness: r.Fn, GOOS: r.GOOS, Bounds: r.Bounds, Params: r.P, Paths: ex.Paths, Pruned: ex.Ended, Forks: ex.Forks, MaxDepth: ex.MaxDepth,
			Steps: ex.Steps, Asserts: ex.Asserts, AssertsSym: ex.AssertQ, Queries: ex.SolverStat.Queries, Cached: ex.SolverStat.Cached, Sat: ex.SolverStat.Sat,
			Unsat: ex.SolverStat.Unsat, Unknown: ex.SolverStat.Unknown, SolverS: ex.SolverStat.Time.Seconds(), WallS: ex.Wall.Seconds(),
			Complete: len(ex.Incomplete) == 0, Incomplete: ex.Incomplete, Reached: ex.Reached, Samples: ex.Samples}
		for _, l := range r.Reach {
			if ex.Reached[l] == 0 {
				rep.Missing = append(rep.Missing, l)
			}
		}
		if nerr != nil {
			rep.Notes = append(rep.Notes, "native twin unavailable: "+nerr.Error())
		}
		for f, n := range ex.Cov {
			cov[f] += n
		}

		confirm := func(v *Violation) *replayFile {
			rf := &replayFile{Property: id, Label: v.Label, Message: v.Msg, Kind: v.Kind, Harness: r.Fn, Files: r.Files, GOOS: r.GOOS, Params: r.P,
				Nondets: v.Nondets, Choices: v.Choices, Trace: v.Trace, HowTo: "sh check.sh --replay <this file>"}
			how, why := confirmViolation(ex, v, nb, r.P)
			if len(how) == 0 {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s/%s: %s", r.Fn, v.Label, why))
				return nil
			}
			rf.ConfirmedBy = how
			return rf
		}
		var labels []string
		for l := range ex.Viol {
			labels = append(labels, l)
		}
		sort.Strings(labels)
		for _, l := range labels {
			if rf := confirm(ex.Viol[l]); rf != nil {
				viol = append(viol, rf)
			}
		}
		var kfs []string
		for kf := range ex.KnownHits {
			kfs = append(kfs, kf)
		}
		sort.Strings(kfs)
		for _, kf := range kfs {
			rf := confirm(ex.KnownHits[kf])
			if rf == nil {
				continue
			}
			if f, ok := known[id+"/"+kf]; ok {
				if !knownHit[kf] {
					knownHit[kf] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, f.id, f.text)
				}
			} else {
				viol = append(viol, rf)
			}
		}
		// encoding validation: completed symbolic paths replayed natively
		if nb != nil && nerr == nil && len(ex.Viol) == 0 {
			rep.Validated, rep.Mismatch = validate(ex, nb, r.P)
		}
		reports = append(reports, rep)
		fmt.Printf("%s %s: paths=%d pruned=%d obligations=%d queries=%d (sat %d unsat %d unknown %d) solver=%.1fs wall=%.1fs complete=%v validated=%d\n", id, r.Fn, rep.Paths, rep.Pruned,
			rep.Asserts, rep.Queries, rep.Sat, rep.Unsat, rep.Unknown, rep.SolverS, rep.WallS, rep.Complete, rep.Validated)
		for w, n := range rep.Incomplete {
			fmt.Printf("  not explored: %s (%d)\n", w, n)
		}
		for _, m := range rep.Missing {
			fmt.Printf("  witness not reached: %s\n", m)
		}
		for _, m := range rep.Mismatch {
			fmt.Printf("  native mismatch: %s\n", m)
		}
		for _, m := range rep.Notes {
			fmt.Printf("  note: %s\n", m)
		}
	}
	for _, u := range unconfirmed {
		fmt.Println("  unconfirmed counterexample (not reported):", u)
	}
	nviol = len(viol)
	explored := false
	for _, r := range reports {
		if r.Paths > 0 {
			explored = true
		}
	}
	writeEvidence(def, id, tier, reports, cov, loadErrs, unconfirmed, knownHit, nviol, time.Since(t0))
	if nviol > 0 {
		dir := filepath.Join(outDir, "replays")
		os.MkdirAll(dir, 0o755)
		for i, rf := range viol {
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i+1))
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("  %s [%s] confirmed by %s\n", rf.Message, rf.Harness, strings.Join(rf.ConfirmedBy, ", "))
			for _, t := range rf.Trace {
				fmt.Println("    ", t)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
		return 1
	}
	if !explored {
		fmt.Println("nothing could be explored")
		return 3
	}
	return 0
}

func hasChoice(v *Violation, names ...string) bool {
	for _, c := range v.Choices {
		for _, n := range names {
			if c.Name == n {
				return true
			}
		}
	}
	return false
}

// confirmViolation replays a counterexample: by concrete re-execution of the
// encoded program and, where the path needs no particular schedule, natively.
func confirmViolation(ex *Explorer, v *Violation, nb *nativeBin, params map[string]int) (how []string, why string) {
	cr := ex.replayConcrete(v)
	ok := false
	if v.Known != "" {
		for _, k := range cr.Known {
			ok = ok || k == v.Known
		}
	} else if v.Kind == "race" {
		_, ok = cr.Races[strings.TrimPrefix(v.Label, "race ")]
	} else {
		for _, f := range cr.Failed {
			ok = ok || f == v.Label || strings.HasPrefix(f, v.Label+" ")
		}
	}
	if !ok {
		return nil, fmt.Sprintf("concrete re-execution does not fail (%v %s)", cr.Failed, cr.Why)
	}
	how = append(how, "concrete re-execution of the encoded program")
	if nb == nil {
		return how, ""
	}
	if v.Kind == "race" || hasChoice(v, "sched", "select", "newest") {
		return append(how, "schedule replayed by the interpreter"), ""
	}
	tries := 3
	if hasChoice(v, "maporder") {
		tries = 40
	}
	var last replayOutput
	for i := 0; i < tries; i++ {
		o, err := nb.run(v, params, 20*time.Second)
		if err != nil {
			return how, err.Error()
		}
		last = o
		hit := false
		if v.Known != "" {
			for _, k := range o.Known {
				hit = hit || k == v.Known
			}
		}
		for _, f := range o.Failed {
			hit = hit || f == v.Label
		}
		if o.crash != "" && v.Kind == "panic" || o.hang && v.Kind == "deadlock" {
			hit = true
		}
		if hit {
			return append(how, "native run of the compiled code"), ""
		}
	}
	if hasChoice(v, "maporder") || v.Kind == "deadlock" {
		return how, ""
	}
	return nil, fmt.Sprintf("native run does not fail (%+v)", last)
}

// validate replays completed paths natively and compares with the concrete
// re-execution of the encoding.
func validate(ex *Explorer, nb *nativeBin, params map[string]int) (n int, bad []string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	for i, v := range ex.validate {
		if i >= 12 || hasChoice(v, "sched", "select", "newest") {
			continue
		}
		wg.Add(1)
		go func(v *Violation) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cr := ex.replayConcrete(v)
			o, err := nb.run(v, params, 20*time.Second)
			mu.Lock()
			defer mu.Unlock()
			sort.Strings(o.Reached)
			rs := strings.Join(uniq(o.Reached), ",")
			switch {
			case err != nil:
				bad = append(bad, err.Error())
			case len(o.Failed) > 0 || o.crash != "" || o.hang:
				bad = append(bad, fmt.Sprintf("path passes symbolically, native run fails: %v hang=%v %.300s (%s)", o.Failed, o.hang, o.crash, strings.Join(v.Trace, "; ")))
			case len(cr.Failed) > 0:
				bad = append(bad, fmt.Sprintf("path passes symbolically, concrete re-execution fails: %v", cr.Failed))
			case o.Asserts != cr.Asserts || rs != strings.Join(cr.Reached, ","):
				bad = append(bad, fmt.Sprintf("different executions: %d/%d assertions, reached %s/%v (%s)", o.Asserts, cr.Asserts, rs, cr.Reached, strings.Join(v.Trace, "; ")))
			default:
				n++
			}
		}(v)
	}
	wg.Wait()
	return
}

func uniq(a []string) (r []string) {
	for i, x := range a {
		if i == 0 || x != a[i-1] {
			r = append(r, x)
		}
	}
	return
}

func writeEvidence(def *checkDef, id, tier string, reports []runReport, cov map[string]int, loadErrs, unconfirmed []string, knownHit map[string]bool, nviol int, wall time.Duration) {
	funcs, std := []string{}, []string{}
	for f := range cov {
		if strings.Contains(f, "rjeczalik/notify") {
			funcs = append(funcs, strings.ReplaceAll(f, "github.com/rjeczalik/notify.", ""))
		} else if !strings.HasSuffix(f, ".init") && !strings.Contains(f, ".init#") {
			std = append(std, f)
		}
	}
	sort.Strings(funcs)
	sort.Strings(std)
	states, trans, val, q := 0, 0, 0, 0
	var steps int64
	var solver float64
	complete := true
	samples := []string{}
	for _, r := range reports {
		states += r.Paths
		trans += r.Forks
		val += r.Validated
		q += r.Queries
		solver += r.SolverS
		steps += r.Steps
		complete = complete && r.Complete
		for i, s := range r.Samples {
			if i < 3 {
				samples = append(samples, r.Harness+": "+s)
			}
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	kh := []string{}
	if unconfirmed == nil {
		unconfirmed = []string{}
	}
	if loadErrs == nil {
		loadErrs = []string{}
	}
	for k := range knownHit {
		kh = append(kh, k)
	}
	sort.Strings(kh)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(), "violations": nviol,
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples, "exhaustive": complete && len(reports) > 0,
			"explanation": "states: symbolic end states (execution paths of the encoded code, each standing for every assignment of its symbolic inputs); transitions: decisions where both sides are feasible; " +
				"traces_validated_against_impl: completed paths replayed natively on the compiled code with equal outcome",
			"functions_encoded": funcs, "library_functions_encoded": std, "queries": q, "solver_s": solver, "instructions_executed_symbolically": steps,
			"solver": strings.Join(solverArgv(), " "), "runs": reports, "known_findings_met": kh, "unconfirmed_counterexamples": unconfirmed, "not_loaded": loadErrs,
		},
		"assumptions": assumptionsOf(def),
	}
	dir := outDir
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), b, 0o644)
}

func assumptionsOf(def *checkDef) []string {
	r := []string{
		"bounded: " + "the bounds of every run are listed under coverage.runs",
		"SSA form built by golang.org/x/tools/go/ssa from /repo's current tree; std packages encoded from source except sync, sync/atomic, fmt, sort.Slice and runtime, which are modelled",
		"map iteration follows insertion order, or the reverse where the bounds say so",
	}
	if def.Outside != "" {
		r = append(r, "outside the claim: "+def.Outside)
	}
	return r
}

// replayCmd re-runs a recorded counterexample against the current tree.
func replayCmd(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	h := hfiles(strings.Split(rf.Files, ","))
	p, err := load(LoadSpec{Repo: repoDir, GOOS: rf.GOOS, Harness: h, Stubs: true})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	ex, err := newExplorer(p, rf.Harness, rf.Params, "quick")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	v := &Violation{Label: rf.Label, Msg: rf.Message, Kind: rf.Kind, Harness: rf.Harness, Nondets: rf.Nondets, Choices: rf.Choices, Trace: rf.Trace}
	var nb *nativeBin
	if rf.GOOS == "linux" {
		if nb, err = buildNative(repoDir, p, h, ""); err != nil {
			fmt.Println("native twin unavailable:", err)
		}
	}
	cr := ex.replayConcrete(v)
	for _, t := range cr.Trace {
		fmt.Println("  ", t)
	}
	how, why := confirmViolation(ex, v, nb, rf.Params)
	if len(how) > 0 {
		fmt.Println("reproduced by", strings.Join(how, ", "))
		return 1
	}
	fmt.Println("not reproduced:", why)
	return 0
}

var _ = io.EOF

func init() {
	covDebug = func(ex *Explorer) {
		for f, n := range ex.Cov {
			fmt.Println("cov", f, n)
		}
	}
}

var covDebug func(*Explorer)
