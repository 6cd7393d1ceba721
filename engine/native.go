package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Native replay: the same harness compiled by the Go tool chain together with
// the repository's current sources; the calls into the environment are
// redirected to the same harness models as in the symbolic run.

type replayInput struct {
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Values  map[string]uint64 `json:"values"`
	Choices []ChoiceRec       `json:"choices"`
}

type replayOutput struct {
	Failed  []string `json:"failed"`
	Known   []string `json:"known"`
	Asserts int      `json:"asserts"`
	Reached []string `json:"reached"`
	Ended   bool     `json:"ended"`
	Done    bool     `json:"done"`
	crash   string
	hang    bool
}

type nativeBin struct {
	path string
	dir  string
}

var keepUsed = map[string]string{"os": "Getpid", "golang.org/x/sys/unix": "Getpid", "path/filepath": "Clean", "time": "Now", "runtime": "GC", "syscall": "Getpid", "io/ioutil": "ReadAll", "bytes": "Equal"}

// buildNative compiles the replay binary for a set of harness files.
func buildNative(repo string, p *Program, harness map[string]string, tags string) (*nativeBin, error) {
	dir := scratch("native")
	ov := map[string]string{}
	ents, err := os.ReadDir(repo)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			ov[filepath.Join(repo, e.Name())] = ""
		}
	}
	var names []string
	for name, src := range harness {
		if name == "zz_verif_rt.go" {
			src = filepath.Join(filepath.Dir(src), "rt_native.go")
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		dst := filepath.Join(dir, name)
		if err := os.WriteFile(dst, b, 0o644); err != nil {
			return nil, err
		}
		ov[filepath.Join(repo, name)] = dst
		f, err := parser.ParseFile(token.NewFileSet(), name, b, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "H") && fd.Type.Params.NumFields() == 0 && fd.Type.Results == nil {
				names = append(names, fd.Name.Name)
			}
		}
	}
	sort.Strings(names)
	var tb strings.Builder
	tb.WriteString("package notify\n\nimport \"testing\"\n\nfunc TestVerifReplay(t *testing.T) {\n\tzreplayMain(map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&tb, "\t\t%q: %s,\n", n, n)
	}
	tb.WriteString("\t})\n}\n")
	tf := filepath.Join(dir, "zz_verif_replay_test.go")
	if err := os.WriteFile(tf, []byte(tb.String()), 0o644); err != nil {
		return nil, err
	}
	ov[filepath.Join(repo, "zz_verif_replay_test.go")] = tf
	for _, f := range p.files {
		if filepath.Dir(f) != repo || strings.HasPrefix(filepath.Base(f), "zz_verif_") {
			continue
		}
		b, err := redirect(f, p)
		if err != nil {
			return nil, err
		}
		dst := filepath.Join(dir, filepath.Base(f))
		if err := os.WriteFile(dst, b, 0o644); err != nil {
			return nil, err
		}
		ov[f] = dst
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, oj, 0o644)
	mod, err := modfileCopy(repo)
	if err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "replay.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-modfile=" + mod, "-o", bin}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("native build: %v: %.2000s", err, out)
	}
	return &nativeBin{bin, dir}, nil
}

// redirect rewrites references to replaced environment functions.
func redirect(file string, p *Program) ([]byte, error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	imp := map[string]string{}
	for _, i := range f.Imports {
		path := strings.Trim(i.Path.Value, `"`)
		n := path[strings.LastIndexByte(path, '/')+1:]
		if i.Name != nil {
			n = i.Name.Name
		}
		imp[n] = path
	}
	type edit struct {
		from, to int
		s        string
	}
	var eds []edit
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok || id.Obj != nil || imp[id.Name] == "" {
			return true
		}
		if r := p.replace[imp[id.Name]+"."+se.Sel.Name]; r != nil {
			eds = append(eds, edit{fset.Position(se.Pos()).Offset, fset.Position(se.End()).Offset, r.Name()})
			used[id.Name] = true
		}
		return true
	})
	sort.Slice(eds, func(i, j int) bool { return eds[i].from < eds[j].from })
	var out bytes.Buffer
	at := 0
	for _, e := range eds {
		out.Write(src[at:e.from])
		out.WriteString(e.s)
		at = e.to
	}
	out.Write(src[at:])
	for n := range used {
		k := keepUsed[imp[n]]
		if k == "" {
			return nil, fmt.Errorf("native replay: cannot redirect package %s", imp[n])
		}
		fmt.Fprintf(&out, "\nvar _ = %s.%s\n", n, k)
	}
	return out.Bytes(), nil
}

// run executes one recorded path natively.
func (nb *nativeBin) run(v *Violation, params map[string]int, timeout time.Duration) (replayOutput, error) {
	in := replayInput{Harness: v.Harness, Params: params, Values: map[string]uint64{}}
	for _, n := range v.Nondets {
		in.Values[n.Name] = n.Val
	}
	for _, c := range v.Choices {
		if c.Name != "sched" && c.Name != "select" && c.Name != "maporder" {
			in.Choices = append(in.Choices, c)
		}
	}
	var out replayOutput
	tf, err := os.CreateTemp(nb.dir, "in-*.json")
	if err != nil {
		return out, err
	}
	json.NewEncoder(tf).Encode(in)
	tf.Close()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, nb.path, "-test.run", "^TestVerifReplay$", "-test.timeout", "0")
	cmd.Dir = nb.dir
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+tf.Name(), "VERIF_REPLAY_OUT="+tf.Name()+".out", "NOTIFY_TMP="+nb.dir)
	o, err := cmd.CombinedOutput()
	b, rerr := os.ReadFile(tf.Name() + ".out")
	if rerr == nil {
		json.Unmarshal(b, &out)
	}
	if ctx.Err() != nil {
		out.hang = true
	} else if err != nil && bytes.Contains(o, []byte("panic:")) {
		out.crash = string(o)
	} else if rerr != nil {
		return out, fmt.Errorf("native replay failed: %v %.500s", err, o)
	}
	return out, nil
}
