package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Solver drives one z3 process over a pipe. Terms are defined once at the base
// level; constraints are asserted inside push/pop scopes.
type Solver struct {
	argv    []string
	tt      *TermTab
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	cache   *qcache
	Queries int
	Cached  int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	dump    func(string) // optional query log (for cross-checking)
	timeout int
	broken  error
	stack   []*Term // path condition asserted in the open scope
}

type cacheEnt struct {
	res int
	m   Model
}

const (
	rUnsat = iota
	rSat
	rUnknown
)

// qcache remembers decided queries by structure, for all workers.
type qcache struct {
	mu [64]sync.Mutex
	m  [64]map[[2]uint64]cacheEnt
}

func (q *qcache) get(k [2]uint64) (cacheEnt, bool) {
	i := k[0] & 63
	q.mu[i].Lock()
	defer q.mu[i].Unlock()
	e, ok := q.m[i][k]
	return e, ok
}

func (q *qcache) put(k [2]uint64, e cacheEnt) {
	i := k[0] & 63
	q.mu[i].Lock()
	defer q.mu[i].Unlock()
	if q.m[i] == nil || len(q.m[i]) > 200000 {
		q.m[i] = map[[2]uint64]cacheEnt{}
	}
	q.m[i][k] = e
}

func newSolver(argv []string, tt *TermTab, timeoutMs int, cache *qcache) *Solver {
	s := &Solver{argv: argv, tt: tt, cache: cache, timeout: timeoutMs}
	return s
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int]bool{}
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n")
	if strings.Contains(s.argv[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	}
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-logic QF_BV)\n(push 1)\n")
	s.stack = nil
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(t *Term, sb *strings.Builder) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const |%s| %s)\n", t.name, t.sort())
		s.defined[t.id] = true
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x, sb)
		}
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, t.sort(), t.body())
	s.defined[t.id] = true
}

// slice keeps only the constraints of pc connected to cond through variables.
func sliceConstraints(pc []*Term, cond *Term) []*Term {
	want := map[int]bool{}
	for _, v := range cond.vars {
		want[v] = true
	}
	used := make([]bool, len(pc))
	var res []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if want[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				res = append(res, c)
				for _, v := range c.vars {
					want[v] = true
				}
			}
		}
	}
	return res
}

// Check decides pc /\ cond. On sat the returned model covers the variables of
// the relevant slice only; the caller overlays it on a model of pc.
func (s *Solver) Check(pc []*Term, cond *Term) (int, Model) {
	if cond == s.tt.F {
		return rUnsat, nil
	}
	sl := sliceConstraints(pc, cond)
	sl = append(sl, cond)
	ts := append([]*Term(nil), sl...)
	sort.Slice(ts, func(i, j int) bool { return ts[j].after(ts[i]) })
	var key [2]uint64
	for i, t := range ts {
		if i > 0 && t == ts[i-1] {
			continue
		}
		key[0], key[1] = mix(key[0], t.h1), mix(key[1], t.h2)
	}
	if e, ok := s.cache.get(key); ok {
		s.Cached++
		return e.res, e.m
	}
	r, m := s.query(pc, cond, sl)
	if r != rUnknown {
		s.cache.put(key, cacheEnt{r, m})
	}
	return r, m
}

// query decides pc /\ cond, keeping pc asserted from query to query; cs is the
// slice whose variables the model covers.
func (s *Solver) query(pc []*Term, cond *Term, cs []*Term) (int, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if s.cmd != nil && len(s.defined) > 60000 {
		s.stop()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.broken = err
			s.Unknown++
			return rUnknown, nil
		}
	}
	s.Queries++
	var sb strings.Builder
	vars := map[int]bool{}
	var vl []*Term
	for _, c := range pc {
		s.define(c, &sb)
	}
	for _, c := range cs {
		s.define(c, &sb)
		for _, v := range c.vars {
			if !vars[v] {
				vars[v] = true
				vl = append(vl, s.tt.all[v])
			}
		}
	}
	same := len(s.stack) <= len(pc)
	for i := 0; same && i < len(s.stack); i++ {
		same = s.stack[i] == pc[i]
	}
	if !same {
		sb.WriteString("(pop 1)\n(push 1)\n")
		s.stack = s.stack[:0]
	}
	for _, c := range pc[len(s.stack):] {
		fmt.Fprintf(&sb, "(assert %s)\n", c.ref())
		s.stack = append(s.stack, c)
	}
	fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n(check-sat)\n", cond.ref())
	if s.dump != nil {
		s.dump(sb.String())
	}
	s.in.WriteString(sb.String())
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.fail(err)
		return rUnknown, nil
	}
	res := rUnknown
	var m Model
	switch line {
	case "sat":
		res = rSat
		s.Sat++
		m = Model{}
		if len(vl) > 0 {
			sb.Reset()
			sb.WriteString("(get-value (")
			for _, v := range vl {
				sb.WriteString(v.ref())
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			s.in.WriteString(sb.String())
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil {
				s.fail(err)
				return rUnknown, nil
			}
			if strings.HasPrefix(txt, "(error") {
				s.fail(fmt.Errorf("%s", txt))
				return rUnknown, nil
			}
			parseModel(txt, m)
		}
	case "unsat":
		res = rUnsat
		s.Unsat++
	default:
		s.Unknown++
		if strings.HasPrefix(line, "(error") {
			s.fail(fmt.Errorf("solver: %s", line))
			return rUnknown, nil
		}
	}
	s.in.WriteString("(pop 1)\n")
	return res, m
}

func (s *Solver) fail(err error) {
	s.Unknown++
	s.broken = err
	s.stop()
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
		if err != nil {
			return "", err
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth, started, inbar := 0, false, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			inbar = !inbar
		}
		if inbar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return strings.TrimSpace(sb.String()), nil
		}
	}
}

func parseModel(txt string, m Model) {
	i := 0
	n := len(txt)
	skip := func() {
		for i < n && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
	}
	tok := func() string {
		skip()
		if i >= n {
			return ""
		}
		st := i
		switch txt[i] {
		case '(', ')':
			i++
			return txt[st:i]
		case '|':
			i++
			for i < n && txt[i] != '|' {
				i++
			}
			i++
			return txt[st:i]
		}
		for i < n && !strings.ContainsRune(" \n\t\r()", rune(txt[i])) {
			i++
		}
		return txt[st:i]
	}
	tok() // (
	for {
		t := tok()
		if t != "(" {
			return
		}
		name := strings.Trim(tok(), "|")
		v := tok()
		var val uint64
		switch {
		case v == "true":
			val = 1
		case v == "false":
			val = 0
		case strings.HasPrefix(v, "#x"):
			val, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			val, _ = strconv.ParseUint(v[2:], 2, 64)
		case v == "(": // (_ bvN w)
			tok()
			bv := tok()
			val, _ = strconv.ParseUint(strings.TrimPrefix(bv, "bv"), 10, 64)
			tok()
			tok()
		}
		m[name] = val
		tok() // )
	}
}

func solverArgv() []string {
	if s := os.Getenv("VERIF_SOLVER"); s != "" {
		if s == "cvc5" {
			return []string{"cvc5", "--incremental", "--lang=smt2"}
		}
		return strings.Fields(s)
	}
	return []string{"z3-new", "-in", "-smt2"}
}
