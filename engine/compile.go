package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Func struct {
	sf       *ssa.Function
	p        *Program
	name     string
	once     sync.Once
	nregs    int
	blocks   []blk
	params   []int
	free     []int
	hasDefer bool
	recover  int // block index or -1
	inRepo   bool
	harness  bool
	intr     intrinsic
	noBody   bool
	res      *Layout
	id       int
}

type phiMove struct {
	dst int
	src opnd
}

type edge struct {
	to    int
	moves []phiMove
}

type blk struct {
	ins   []func(fr *frame)
	term  func(fr *frame) int // successor index, or -1 to return
	edges []edge
	pure  bool // only speculatable instructions
}

type opnd struct {
	k uint8 // 0 register, 1 constant, 2 global
	i int
	c Value
}

func (o *opnd) get(fr *frame) Value {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.c
	}
	return fr.g.st.gptr(o.i)
}

type unsupported struct{ msg string }

func unsup(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func (p *Program) getFunc(sf *ssa.Function) *Func {
	if v, ok := p.funcs.Load(sf); ok {
		return v.(*Func)
	}
	f := &Func{sf: sf, p: p, name: sf.String(), recover: -1}
	if r := p.replace[f.name]; r != nil && r != sf {
		rf := p.getFunc(r)
		v, _ := p.funcs.LoadOrStore(sf, rf)
		return v.(*Func)
	}
	f.intr = intrinsics[f.name]
	if f.intr == nil && sf.Origin() != nil {
		f.intr = intrinsics[sf.Origin().String()]
	}
	pkg := sf.Pkg
	if pkg == nil && sf.Origin() != nil {
		pkg = sf.Origin().Pkg
	}
	if pkg == p.pkg {
		f.inRepo = true
		if sf.Pos().IsValid() {
			file := p.prog.Fset.Position(sf.Pos()).Filename
			if i := strings.LastIndexByte(file, '/'); i >= 0 && strings.HasPrefix(file[i+1:], "zz_verif") {
				f.harness = true
			}
		}
		if f.harness && f.intr == nil && sf.Signature.Recv() == nil {
			f.intr = harnessAPI[sf.Name()]
		}
	}
	v, _ := p.funcs.LoadOrStore(sf, f)
	return v.(*Func)
}

var deniedPkgs = map[string]bool{"runtime": true, "reflect": true, "internal/reflectlite": true, "internal/runtime/atomic": true,
	"internal/poll": true, "testing": true, "log": true, "net": true, "internal/abi": true, "internal/goarch": true}

var compileMu sync.Mutex

func (f *Func) compile() {
	f.once.Do(func() {
		sf := f.sf
		if f.intr != nil {
			return
		}
		compileMu.Lock()
		defer compileMu.Unlock()
		pkg := sf.Pkg
		if pkg == nil && sf.Origin() != nil {
			pkg = sf.Origin().Pkg
		}
		if pkg != nil {
			pkg.Build()
			if deniedPkgs[pkg.Pkg.Path()] && sf.Name() != "init" {
				f.noBody = true
				return
			}
		}
		if len(sf.Blocks) == 0 {
			f.noBody = true
			return
		}
		c := &compiler{f: f, p: f.p, regs: map[ssa.Value]int{}}
		c.run()
	})
}

type compiler struct {
	f    *Func
	p    *Program
	regs map[ssa.Value]int
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.f.nregs
	c.f.nregs++
	c.regs[v] = r
	return r
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{k: 1, c: constVal(v)}
	case *ssa.Global:
		return opnd{k: 2, i: c.p.globalIndex(v)}
	case *ssa.Function:
		return opnd{k: 1, c: &Closure{fn: c.p.getFunc(v), name: v.Name()}}
	case *ssa.Builtin:
		return opnd{k: 1, c: nil}
	}
	return opnd{i: c.reg(v)}
}

func constVal(v *ssa.Const) Value {
	t := v.Type()
	if v.Value == nil {
		return layoutOf(t).zero()
	}
	if tp, ok := t.(*types.TypeParam); ok {
		unsup("type parameter constant %v", tp)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return constant.BoolVal(v.Value)
		case u.Info()&types.IsInteger != 0:
			w, signed, _ := intInfo(t)
			if signed {
				i := v.Int64()
				return uint64(i) & mask(w)
			}
			return v.Uint64() & mask(w)
		case u.Info()&types.IsString != 0:
			return constant.StringVal(v.Value)
		case u.Info()&types.IsFloat != 0:
			return v.Float64()
		}
	}
	return nil // unsupported constant: fails on use
}

func (c *compiler) run() {
	sf := c.f.sf
	f := c.f
	f.res = layoutOf(sf.Signature.Results())
	for _, p := range sf.Params {
		f.params = append(f.params, c.reg(p))
	}
	for _, p := range sf.FreeVars {
		f.free = append(f.free, c.reg(p))
	}
	f.blocks = make([]blk, len(sf.Blocks))
	for i, b := range sf.Blocks {
		bb := &f.blocks[i]
		bb.pure = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				continue
			case *ssa.Defer:
				f.hasDefer = true
				bb.pure = false
			case *ssa.BinOp:
				if !pureBin(in) {
					bb.pure = false
				}
			case *ssa.UnOp:
				if in.Op == token.MUL || in.Op == token.ARROW {
					bb.pure = false
				}
			case *ssa.Convert:
				_, _, o1 := intInfo(in.X.Type())
				_, _, o2 := intInfo(in.Type())
				if !o1 || !o2 {
					bb.pure = false
				}
			case *ssa.ChangeType:
			default:
				bb.pure = false
			}
		}
		if hasPhi(b) && false {
			bb.pure = false
		}
	}
	for i, b := range sf.Blocks {
		bb := &f.blocks[i]
		for k, s := range b.Succs {
			// occurrence number of this edge among duplicates
			occ := 0
			for j := 0; j < k; j++ {
				if b.Succs[j] == s {
					occ++
				}
			}
			pi := -1
			for j, p := range s.Preds {
				if p == b {
					if occ == 0 {
						pi = j
						break
					}
					occ--
				}
			}
			e := edge{to: s.Index}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				e.moves = append(e.moves, phiMove{c.reg(ph), c.op(ph.Edges[pi])})
			}
			bb.edges = append(bb.edges, e)
		}
	}
	for i, b := range sf.Blocks {
		bb := &f.blocks[i]
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				bb.term = c.terminator(b, in)
				continue
			}
			if x := c.instr(in); x != nil {
				bb.ins = append(bb.ins, x)
			}
		}
	}
	if sf.Recover != nil {
		f.recover = sf.Recover.Index
	}
}

func hasPhi(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 0 {
		_, ok := b.Instrs[0].(*ssa.Phi)
		return ok
	}
	return false
}

func pureBin(in *ssa.BinOp) bool {
	switch in.Op {
	case token.QUO, token.REM, token.SHL, token.SHR:
		return false
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0 && (u.Info()&types.IsString == 0 || in.Op != token.ADD)
	case *types.Pointer, *types.Chan, *types.Signature, *types.Map, *types.Slice:
		return true
	}
	return false
}

func isIntOrBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

func (c *compiler) terminator(b *ssa.BasicBlock, in ssa.Instruction) func(fr *frame) int {
	switch in := in.(type) {
	case *ssa.Jump:
		return func(fr *frame) int { return 0 }
	case *ssa.Return:
		ops := c.ops(in.Results)
		switch len(ops) {
		case 0:
			return func(fr *frame) int { return -1 }
		case 1:
			o := ops[0]
			return func(fr *frame) int { fr.result = o.get(fr); return -1 }
		}
		return func(fr *frame) int {
			t := make(Tuple, len(ops))
			for i := range ops {
				t[i] = ops[i].get(fr)
			}
			fr.result = t
			return -1
		}
	case *ssa.Panic:
		x := c.op(in.X)
		pos := c.pos(in.Pos())
		return func(fr *frame) int {
			panic(&goPanic{val: x.get(fr), pos: pos})
		}
	case *ssa.If:
		cond := c.op(in.Cond)
		mg := c.mergePlan(b)
		return func(fr *frame) int {
			switch v := cond.get(fr).(type) {
			case bool:
				if v {
					return 0
				}
				return 1
			case *Term:
				if mg != nil {
					if k, ok := mg(fr, v); ok {
						return k
					}
				}
				if fr.g.st.branch(v) {
					return 0
				}
				return 1
			default:
				panic(fmt.Sprintf("if on %T", v))
			}
		}
	}
	panic("terminator")
}

// mergePlan recognises small pure diamonds/triangles and folds them into
// if-then-else terms instead of forking.
func (c *compiler) mergePlan(b *ssa.BasicBlock) func(fr *frame, cond *Term) (int, bool) {
	f := c.f
	s := b.Succs
	if s[0] == s[1] {
		return nil
	}
	single := func(x *ssa.BasicBlock) bool { // pure, single predecessor, plain jump
		if len(x.Preds) != 1 || !f.blocks[x.Index].pure || len(x.Succs) != 1 || hasPhi(x) {
			return false
		}
		return len(x.Instrs) <= 24
	}
	var join *ssa.BasicBlock
	var side [2]*ssa.BasicBlock
	switch {
	case single(s[0]) && single(s[1]) && s[0].Succs[0] == s[1].Succs[0]:
		join, side[0], side[1] = s[0].Succs[0], s[0], s[1]
	case single(s[0]) && s[0].Succs[0] == s[1]:
		join, side[0] = s[1], s[0]
	case single(s[1]) && s[1].Succs[0] == s[0]:
		join, side[1] = s[0], s[1]
	}
	if join != nil && join != b {
		for _, in := range join.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !isIntOrBool(ph.Type()) {
				return nil
			}
		}
		var edges [2]*edge
		for k := 0; k < 2; k++ {
			if side[k] != nil {
				edges[k] = &f.blocks[side[k].Index].edges[0]
			} else {
				edges[k] = &f.blocks[b.Index].edges[k]
			}
		}
		lays := []*Layout{}
		for _, in := range join.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			lays = append(lays, layoutOf(ph.Type()))
		}
		jidx := join.Index
		return func(fr *frame, cond *Term) (int, bool) {
			st := fr.g.st
			if st.tt == nil {
				return 0, false
			}
			for k := 0; k < 2; k++ {
				if side[k] != nil {
					for _, x := range f.blocks[side[k].Index].ins {
						x(fr)
					}
				}
			}
			n := len(edges[0].moves)
			res := make([]Value, n)
			for i := 0; i < n; i++ {
				a, bb := edges[0].moves[i].src.get(fr), edges[1].moves[i].src.get(fr)
				res[i] = st.ite(cond, a, bb, lays[i].t)
			}
			for i := 0; i < n; i++ {
				fr.regs[edges[0].moves[i].dst] = res[i]
			}
			fr.jump = jidx
			return -2, true
		}
	}
	// short-circuit folding: b: if A goto L else F; L: if B goto T else F  (pure L)
	for k := 0; k < 2; k++ {
		L, F := s[k], s[1-k]
		if len(L.Preds) != 1 || !f.blocks[L.Index].pure || len(L.Succs) != 2 || hasPhi(L) || len(L.Instrs) > 24 {
			continue
		}
		var j int
		switch {
		case L.Succs[0] == F && L.Succs[1] != F:
			j = 0
		case L.Succs[1] == F && L.Succs[0] != F:
			j = 1
		default:
			continue
		}
		if hasPhi(F) {
			// require identical phi inputs along both edges
			e1, e2 := f.blocks[b.Index].edges[1-k], f.blocks[L.Index].edges[j]
			same := len(e1.moves) == len(e2.moves)
			for i := 0; same && i < len(e1.moves); i++ {
				x, y := e1.moves[i], e2.moves[i]
				if x.dst != y.dst || x.src.k != y.src.k || x.src.i != y.src.i {
					same = false
				} else if x.src.k == 1 {
					switch x.src.c.(type) {
					case uint64, bool, string:
						if x.src.c != y.src.c {
							same = false
						}
					default:
						same = false
					}
				}
			}
			if !same {
				continue
			}
		}
		lif, ok := L.Instrs[len(L.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		lc := c.op(lif.Cond)
		k := k
		Lidx := L.Index
		return func(fr *frame, cond *Term) (int, bool) {
			st := fr.g.st
			for _, x := range f.blocks[Lidx].ins {
				x(fr)
			}
			var bt *Term
			switch v := lc.get(fr).(type) {
			case bool:
				bt = st.tt.Bool(v)
			case *Term:
				bt = v
			}
			toL := cond
			if k == 1 {
				toL = st.tt.BNot(cond)
			}
			toT := bt // L goes to its non-F successor
			if j == 0 {
				toT = st.tt.BNot(bt)
			}
			if st.branch(st.tt.BAnd(toL, toT)) {
				// take L's other edge
				fr.takeEdge(&f.blocks[Lidx].edges[1-j])
				return -2, true
			}
			return 1 - k, true
		}
	}
	return nil
}

func (c *compiler) ops(vs []ssa.Value) []opnd {
	r := make([]opnd, len(vs))
	for i, v := range vs {
		r[i] = c.op(v)
	}
	return r
}

func (c *compiler) pos(p token.Pos) string {
	if !p.IsValid() {
		return c.f.name
	}
	q := c.p.prog.Fset.Position(p)
	i := strings.LastIndexByte(q.Filename, '/')
	return fmt.Sprintf("%s:%d", q.Filename[i+1:], q.Line)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (c *compiler) instr(in ssa.Instruction) func(fr *frame) {
	pos := c.pos(in.Pos())
	switch in := in.(type) {
	case *ssa.Alloc:
		d := c.reg(in)
		lay := layoutOf(deref(in.Type()))
		return func(fr *frame) { fr.regs[d] = Ptr{fr.g.st.newObj(lay, 1), 0} }
	case *ssa.BinOp:
		return c.binop(in, pos)
	case *ssa.UnOp:
		return c.unop(in, pos)
	case *ssa.Call:
		d := c.reg(in)
		call := c.call(&in.Call, pos)
		return func(fr *frame) { fr.regs[d] = call(fr) }
	case *ssa.ChangeInterface:
		d, x := c.reg(in), c.op(in.X)
		return func(fr *frame) { fr.regs[d] = x.get(fr) }
	case *ssa.ChangeType:
		d, x := c.reg(in), c.op(in.X)
		return func(fr *frame) { fr.regs[d] = x.get(fr) }
	case *ssa.Convert:
		d, x := c.reg(in), c.op(in.X)
		cv := c.convert(in.X.Type(), in.Type(), pos)
		return func(fr *frame) { fr.regs[d] = cv(fr, x.get(fr)) }
	case *ssa.MultiConvert:
		d, x := c.reg(in), c.op(in.X)
		cv := c.convert(in.X.Type(), in.Type(), pos)
		return func(fr *frame) { fr.regs[d] = cv(fr, x.get(fr)) }
	case *ssa.DebugRef:
		return nil
	case *ssa.Extract:
		d, x, i := c.reg(in), c.op(in.Tuple), in.Index
		return func(fr *frame) { fr.regs[d] = x.get(fr).(Tuple)[i] }
	case *ssa.Field:
		d, x := c.reg(in), c.op(in.X)
		l := layoutOf(in.X.Type())
		off, fl := l.foff[in.Field], l.fields[in.Field]
		return func(fr *frame) { fr.regs[d] = aggSub(x.get(fr).(Agg), off, fl) }
	case *ssa.FieldAddr:
		d, x := c.reg(in), c.op(in.X)
		st := deref(in.X.Type())
		l := layoutOf(st)
		off := l.foff[in.Field]
		sizes := c.p.sizes
		idx := in.Field
		return func(fr *frame) {
			switch p := x.get(fr).(type) {
			case Ptr:
				if p.o == nil {
					nilPanic(pos)
				}
				fr.regs[d] = Ptr{p.o, p.off + off}
			case RPtr:
				s := st.Underlying().(*types.Struct)
				var fs []*types.Var
				for i := 0; i < s.NumFields(); i++ {
					fs = append(fs, s.Field(i))
				}
				bo := sizes.Offsetsof(fs)[idx]
				fr.regs[d] = RPtr{p.o, p.off + int(bo), s.Field(idx).Type()}
			}
		}
	case *ssa.Index:
		d, x, i := c.reg(in), c.op(in.X), c.op(in.Index)
		iw, is, _ := intInfo(in.Index.Type())
		if isString(in.X.Type()) {
			return func(fr *frame) {
				s := x.get(fr)
				k := fr.g.st.index(i.get(fr), iw, is, strLen(s), pos)
				if str, ok := s.(string); ok {
					fr.regs[d] = uint64(str[k])
				} else {
					fr.regs[d] = s.(*SymStr).b[k]
				}
			}
		}
		l := layoutOf(in.X.Type())
		return func(fr *frame) {
			k := fr.g.st.index(i.get(fr), iw, is, l.alen, pos)
			fr.regs[d] = aggSub(x.get(fr).(Agg), k*l.elem.n, l.elem)
		}
	case *ssa.IndexAddr:
		d, x, i := c.reg(in), c.op(in.X), c.op(in.Index)
		iw, is, _ := intInfo(in.Index.Type())
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			en := layoutOf(u.Elem()).n
			return func(fr *frame) {
				s := x.get(fr).(Slice)
				k := fr.g.st.index(i.get(fr), iw, is, s.len, pos)
				fr.regs[d] = Ptr{s.o, s.off + k*en}
			}
		default: // pointer to array
			at := deref(in.X.Type())
			l := layoutOf(at)
			sizes := c.p.sizes
			return func(fr *frame) {
				switch p := x.get(fr).(type) {
				case Ptr:
					if p.o == nil {
						nilPanic(pos)
					}
					k := fr.g.st.index(i.get(fr), iw, is, l.alen, pos)
					fr.regs[d] = Ptr{p.o, p.off + k*l.elem.n}
				case RPtr:
					k := fr.g.st.index(i.get(fr), iw, is, l.alen, pos)
					et := at.Underlying().(*types.Array).Elem()
					fr.regs[d] = RPtr{p.o, p.off + k*int(sizes.Sizeof(et)), et}
				}
			}
		}
	case *ssa.Lookup:
		d, x, i := c.reg(in), c.op(in.X), c.op(in.Index)
		if isString(in.X.Type()) {
			iw, is, _ := intInfo(in.Index.Type())
			return func(fr *frame) {
				s := x.get(fr)
				k := fr.g.st.index(i.get(fr), iw, is, strLen(s), pos)
				if str, ok := s.(string); ok {
					fr.regs[d] = uint64(str[k])
				} else {
					fr.regs[d] = s.(*SymStr).b[k]
				}
			}
		}
		mt := in.X.Type().Underlying().(*types.Map)
		vl := layoutOf(mt.Elem())
		commaOk := in.CommaOk
		return func(fr *frame) {
			m := x.get(fr).(*MapV)
			fr.g.st.accessMap(fr, m, false, pos)
			j := fr.g.st.mapFind(m, i.get(fr))
			var v Value
			if j >= 0 {
				v = m.vals[j]
			} else {
				v = vl.zero()
			}
			if commaOk {
				fr.regs[d] = Tuple{v, j >= 0}
			} else {
				fr.regs[d] = v
			}
		}
	case *ssa.MakeChan:
		d, x := c.reg(in), c.op(in.Size)
		return func(fr *frame) {
			fr.regs[d] = fr.g.st.newChan(fr.g.st.concInt(x.get(fr), 64), pos)
		}
	case *ssa.MakeClosure:
		d := c.reg(in)
		fn := c.p.getFunc(in.Fn.(*ssa.Function))
		ops := c.ops(in.Bindings)
		return func(fr *frame) {
			cl := &Closure{fn: fn, name: fn.name, free: make([]Value, len(ops))}
			for i := range ops {
				cl.free[i] = ops[i].get(fr)
			}
			fr.regs[d] = cl
		}
	case *ssa.MakeInterface:
		d, x := c.reg(in), c.op(in.X)
		rt := rtypeOf(in.X.Type())
		return func(fr *frame) { fr.regs[d] = Iface{rt, x.get(fr)} }
	case *ssa.MakeMap:
		d := c.reg(in)
		mt := in.Type().Underlying().(*types.Map)
		kl, vl := layoutOf(mt.Key()), layoutOf(mt.Elem())
		t := in.Type()
		return func(fr *frame) { fr.regs[d] = fr.g.st.newMap(kl, vl, t) }
	case *ssa.MakeSlice:
		d, l, cp := c.reg(in), c.op(in.Len), c.op(in.Cap)
		el := layoutOf(in.Type().Underlying().(*types.Slice).Elem())
		lw, _, _ := intInfo(in.Len.Type())
		cw, _, _ := intInfo(in.Cap.Type())
		return func(fr *frame) {
			n := fr.g.st.concInt(l.get(fr), lw)
			m := fr.g.st.concInt(cp.get(fr), cw)
			if n < 0 || m < n || m > 1<<26 {
				rtPanic(pos, "makeslice: len out of range")
			}
			fr.regs[d] = Slice{fr.g.st.newObj(el, m), 0, n, m}
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		return func(fr *frame) {
			mm := m.get(fr).(*MapV)
			if mm == nil {
				rtPanic(pos, "assignment to entry in nil map")
			}
			fr.g.st.accessMap(fr, mm, true, pos)
			fr.g.st.mapSet(mm, k.get(fr), v.get(fr))
		}
	case *ssa.Next:
		d, x := c.reg(in), c.op(in.Iter)
		tup := in.Type().(*types.Tuple)
		var kz, vz Value
		if t := tup.At(1).Type(); t != types.Typ[types.Invalid] {
			kz = layoutOf(t).zero()
		}
		if t := tup.At(2).Type(); t != types.Typ[types.Invalid] {
			vz = layoutOf(t).zero()
		}
		return func(fr *frame) {
			fr.regs[d] = fr.g.st.iterNext(fr, x.get(fr).(*IterV), kz, vz, pos)
		}
	case *ssa.Range:
		d, x := c.reg(in), c.op(in.X)
		inRepo := c.f.inRepo && !c.f.harness
		return func(fr *frame) { fr.regs[d] = fr.g.st.newIter(fr, x.get(fr), inRepo, pos) }
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Defer:
		cl := c.prepCall(&in.Call, pos)
		return func(fr *frame) { fr.defers = append(fr.defers, cl(fr)) }
	case *ssa.Go:
		cl := c.prepCall(&in.Call, pos)
		return func(fr *frame) {
			fr.g.st.spawn(fr.g, cl(fr), pos)
		}
	case *ssa.Select:
		return c.selectInstr(in, pos)
	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		return func(fr *frame) {
			fr.g.chanSend(ch.get(fr).(*ChanV), x.get(fr), pos)
		}
	case *ssa.Slice:
		return c.sliceInstr(in, pos)
	case *ssa.SliceToArrayPointer:
		d, x := c.reg(in), c.op(in.X)
		al := layoutOf(deref(in.Type()))
		return func(fr *frame) {
			s := x.get(fr).(Slice)
			if s.len < al.alen {
				rtPanic(pos, "cannot convert slice to array pointer: too short")
			}
			fr.regs[d] = Ptr{s.o, s.off}
		}
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		l := layoutOf(in.Val.Type())
		return func(fr *frame) { fr.g.st.store(fr, a.get(fr), l, v.get(fr), pos) }
	case *ssa.TypeAssert:
		return c.typeAssert(in, pos)
	}
	panic(fmt.Sprintf("instr %T in %s", in, c.f.name))
}

func aggSub(a Agg, off int, l *Layout) Value {
	if !l.agg {
		return a[off]
	}
	return a[off : off+l.n : off+l.n]
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (c *compiler) typeAssert(in *ssa.TypeAssert, pos string) func(fr *frame) {
	d, x := c.reg(in), c.op(in.X)
	at := in.AssertedType
	commaOk := in.CommaOk
	_, isIface := at.Underlying().(*types.Interface)
	if isIface {
		it := at.Underlying().(*types.Interface)
		var cache sync.Map
		impl := func(rt *RType) bool {
			if v, ok := cache.Load(rt); ok {
				return v.(bool)
			}
			r := types.Implements(rt.t, it)
			cache.Store(rt, r)
			return r
		}
		return func(fr *frame) {
			v := x.get(fr).(Iface)
			ok := v.t != nil && impl(v.t)
			if commaOk {
				if !ok {
					v = Iface{}
				}
				fr.regs[d] = Tuple{v, ok}
				return
			}
			if !ok {
				rtPanic(pos, "interface conversion failed: "+at.String())
			}
			fr.regs[d] = v
		}
	}
	rt := rtypeOf(at)
	return func(fr *frame) {
		v := x.get(fr).(Iface)
		ok := v.t == rt
		var r Value
		if ok {
			r = v.v
		} else {
			if !commaOk {
				rtPanic(pos, "interface conversion: interface is not "+at.String())
			}
			r = rt.lay.zero()
		}
		if commaOk {
			fr.regs[d] = Tuple{r, ok}
		} else {
			fr.regs[d] = r
		}
	}
}

func (c *compiler) sliceInstr(in *ssa.Slice, pos string) func(fr *frame) {
	d, x := c.reg(in), c.op(in.X)
	var lo, hi, mx *opnd
	get := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := c.op(v)
		return &o
	}
	lo, hi, mx = get(in.Low), get(in.High), get(in.Max)
	wOf := func(v ssa.Value) uint8 {
		if v == nil {
			return 64
		}
		w, _, _ := intInfo(v.Type())
		return w
	}
	lw, hw, mw := wOf(in.Low), wOf(in.High), wOf(in.Max)
	bound := func(fr *frame, o *opnd, w uint8, def int) int {
		if o == nil {
			return def
		}
		return fr.g.st.concInt(o.get(fr), w)
	}
	if isString(in.X.Type()) {
		return func(fr *frame) {
			s := x.get(fr)
			n := strLen(s)
			l := bound(fr, lo, lw, 0)
			h := bound(fr, hi, hw, n)
			if l < 0 || h < l || h > n {
				rtPanic(pos, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			if str, ok := s.(string); ok {
				fr.regs[d] = str[l:h]
			} else {
				fr.regs[d] = mkStr(s.(*SymStr).b[l:h])
			}
		}
	}
	if u, ok := in.X.Type().Underlying().(*types.Slice); ok {
		en := layoutOf(u.Elem()).n
		return func(fr *frame) {
			s := x.get(fr).(Slice)
			l := bound(fr, lo, lw, 0)
			h := bound(fr, hi, hw, s.len)
			m := bound(fr, mx, mw, s.cap)
			if l < 0 || h < l || m < h || m > s.cap {
				rtPanic(pos, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, s.cap))
			}
			fr.regs[d] = Slice{s.o, s.off + l*en, h - l, m - l}
		}
	}
	// pointer to array
	al := layoutOf(deref(in.X.Type()))
	et := deref(in.X.Type()).Underlying().(*types.Array).Elem()
	sizes := c.p.sizes
	return func(fr *frame) {
		l := bound(fr, lo, lw, 0)
		h := bound(fr, hi, hw, al.alen)
		m := bound(fr, mx, mw, al.alen)
		if l < 0 || h < l || m < h || m > al.alen {
			rtPanic(pos, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, al.alen))
		}
		switch p := x.get(fr).(type) {
		case Ptr:
			if p.o == nil {
				nilPanic(pos)
			}
			fr.regs[d] = Slice{p.o, p.off + l*al.elem.n, h - l, m - l}
		case RPtr:
			// materialise a copy view (read-only use)
			es := int(sizes.Sizeof(et))
			o := fr.g.st.newObj(al.elem, h-l)
			for k := l; k < h; k++ {
				o.set(k-l, fr.g.st.rload(RPtr{p.o, p.off + k*es, et}, et, pos))
			}
			fr.regs[d] = Slice{o, 0, h - l, h - l}
		}
	}
}

func (c *compiler) unop(in *ssa.UnOp, pos string) func(fr *frame) {
	d, x := c.reg(in), c.op(in.X)
	switch in.Op {
	case token.MUL:
		l := layoutOf(in.Type())
		return func(fr *frame) { fr.regs[d] = fr.g.st.load(fr, x.get(fr), l, pos) }
	case token.NOT:
		return func(fr *frame) { fr.regs[d] = fr.g.st.not(x.get(fr)) }
	case token.ARROW:
		commaOk := in.CommaOk
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		l := layoutOf(et)
		return func(fr *frame) {
			v, ok := fr.g.chanRecv(x.get(fr).(*ChanV), pos)
			if !ok {
				v = l.zero()
			}
			if commaOk {
				fr.regs[d] = Tuple{v, ok}
			} else {
				fr.regs[d] = v
			}
		}
	case token.SUB:
		w, _, ok := intInfo(in.Type())
		if !ok {
			return func(fr *frame) { fr.regs[d] = -x.get(fr).(float64) }
		}
		return func(fr *frame) { fr.regs[d] = fr.g.st.arith(OSub, w, uint64(0), x.get(fr)) }
	case token.XOR:
		w, _, _ := intInfo(in.Type())
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case uint64:
				fr.regs[d] = ^v & mask(w)
			case *Term:
				fr.regs[d] = normT(fr.g.st.tt.Not(v))
			}
		}
	}
	panic("unop")
}

func (c *compiler) binop(in *ssa.BinOp, pos string) func(fr *frame) {
	d, x, y := c.reg(in), c.op(in.X), c.op(in.Y)
	xt := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ
		yt := in.Y.Type()
		// mixed interface/concrete comparisons do not occur in SSA
		_ = yt
		eq := eqFunc(xt)
		if eq == nil {
			return func(fr *frame) { unsup("comparison of %s at %s", xt, pos) }
		}
		return func(fr *frame) {
			r := eq(fr.g.st, x.get(fr), y.get(fr))
			if neg {
				r = fr.g.st.not(r)
			}
			fr.regs[d] = r
		}
	}
	b, ok := xt.Underlying().(*types.Basic)
	if !ok {
		return func(fr *frame) { unsup("binop on %s", xt) }
	}
	switch {
	case b.Info()&types.IsString != 0:
		switch in.Op {
		case token.ADD:
			return func(fr *frame) { fr.regs[d] = strConcat(x.get(fr), y.get(fr)) }
		default:
			op := in.Op
			return func(fr *frame) {
				r := fr.g.st.strCmp(x.get(fr), y.get(fr))
				var v bool
				switch op {
				case token.LSS:
					v = r < 0
				case token.LEQ:
					v = r <= 0
				case token.GTR:
					v = r > 0
				case token.GEQ:
					v = r >= 0
				}
				fr.regs[d] = v
			}
		}
	case b.Info()&types.IsFloat != 0:
		op := in.Op
		return func(fr *frame) {
			a, bb := x.get(fr).(float64), y.get(fr).(float64)
			switch op {
			case token.ADD:
				fr.regs[d] = a + bb
			case token.SUB:
				fr.regs[d] = a - bb
			case token.MUL:
				fr.regs[d] = a * bb
			case token.QUO:
				fr.regs[d] = a / bb
			case token.LSS:
				fr.regs[d] = a < bb
			case token.LEQ:
				fr.regs[d] = a <= bb
			case token.GTR:
				fr.regs[d] = a > bb
			case token.GEQ:
				fr.regs[d] = a >= bb
			}
		}
	}
	w, signed, ok := intInfo(xt)
	if !ok {
		return func(fr *frame) { unsup("binop on %s", xt) }
	}
	switch in.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op, swap := OUlt, false
		switch in.Op {
		case token.LEQ:
			op = OUle
		case token.GTR:
			swap = true
		case token.GEQ:
			op, swap = OUle, true
		}
		if signed {
			if op == OUlt {
				op = OSlt
			} else {
				op = OSle
			}
		}
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if swap {
				a, b = b, a
			}
			ca, o1 := a.(uint64)
			cb, o2 := b.(uint64)
			if o1 && o2 {
				fr.regs[d] = evalCmp(op, w, ca, cb)
				return
			}
			st := fr.g.st
			fr.regs[d] = normT(st.tt.Cmp(op, st.term(a, w), st.term(b, w)))
		}
	case token.SHL, token.SHR:
		yw, ysigned, _ := intInfo(in.Y.Type())
		op := OShl
		if in.Op == token.SHR {
			op = OLShr
			if signed {
				op = OAShr
			}
		}
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			ca, o1 := a.(uint64)
			cb, o2 := b.(uint64)
			if o2 && ysigned && sext(cb, yw) < 0 {
				rtPanic(pos, "negative shift amount")
			}
			if o1 && o2 {
				fr.regs[d] = evalBin(op, w, ca, cb)
				return
			}
			st := fr.g.st
			if o2 {
				if cb > 255 {
					cb = 255
				}
				if cb >= uint64(w) && w < 64 {
					cb = uint64(w)
				}
				if cb >= uint64(w) {
					if op == OAShr {
						cb = uint64(w) - 1
					} else {
						fr.regs[d] = uint64(0)
						return
					}
				}
				fr.regs[d] = normT(st.tt.Bin(op, st.term(a, w), st.tt.Const(w, cb)))
				return
			}
			cv := uint64(st.concInt(b, yw))
			if ysigned && sext(cv, 64) < 0 {
				rtPanic(pos, "negative shift amount")
			}
			if o1 {
				fr.regs[d] = evalBin(op, w, ca, cv)
			} else if cv >= uint64(w) && op != OAShr {
				fr.regs[d] = uint64(0)
			} else {
				if cv >= uint64(w) {
					cv = uint64(w) - 1
				}
				fr.regs[d] = normT(st.tt.Bin(op, st.term(a, w), st.tt.Const(w, cv)))
			}
		}
	case token.QUO, token.REM:
		op := OUDiv
		if in.Op == token.REM {
			op = OURem
		}
		if signed {
			op += 2
		}
		return func(fr *frame) {
			st := fr.g.st
			b := y.get(fr)
			z := st.not(st.eqInt(b, uint64(0), w))
			if !st.truth(z) {
				rtPanic(pos, "integer divide by zero")
			}
			fr.regs[d] = st.arith(op, w, x.get(fr), b)
		}
	case token.AND_NOT:
		return func(fr *frame) {
			st := fr.g.st
			switch v := y.get(fr).(type) {
			case uint64:
				fr.regs[d] = st.arith(OAnd, w, x.get(fr), ^v&mask(w))
			case *Term:
				fr.regs[d] = st.arith(OAnd, w, x.get(fr), normT(st.tt.Not(v)))
			}
		}
	}
	var op Op
	switch in.Op {
	case token.ADD:
		op = OAdd
	case token.SUB:
		op = OSub
	case token.MUL:
		op = OMul
	case token.AND:
		op = OAnd
	case token.OR:
		op = OOr
	case token.XOR:
		op = OXor
	default:
		panic("binop " + in.Op.String())
	}
	return func(fr *frame) {
		a, b := x.get(fr), y.get(fr)
		if ca, ok := a.(uint64); ok {
			if cb, ok := b.(uint64); ok {
				fr.regs[d] = evalBin(op, w, ca, cb)
				return
			}
		}
		fr.regs[d] = fr.g.st.arith(op, w, a, b)
	}
}

func (c *compiler) convert(from, to types.Type, pos string) func(fr *frame, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fw, fs, fi := intInfo(from)
	tw, ts, ti := intInfo(to)
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	switch {
	case fi && ti:
		return func(fr *frame, v Value) Value { return fr.g.st.convInt(v, fw, fs, tw) }
	case fi && tb != nil && tb.Info()&types.IsFloat != 0:
		return func(fr *frame, v Value) Value {
			u, ok := v.(uint64)
			if !ok {
				u = uint64(fr.g.st.concInt(v, fw))
			}
			if fs {
				return float64(sext(u, fw))
			}
			return float64(u)
		}
	case fb != nil && fb.Info()&types.IsFloat != 0 && ti:
		return func(fr *frame, v Value) Value {
			f := v.(float64)
			if ts {
				return uint64(int64(f)) & mask(tw)
			}
			return uint64(f) & mask(tw)
		}
	case fb != nil && fb.Info()&types.IsFloat != 0 && tb != nil && tb.Info()&types.IsFloat != 0:
		return func(fr *frame, v Value) Value {
			if tb.Kind() == types.Float32 {
				return float64(float32(v.(float64)))
			}
			return v
		}
	case fi && tb != nil && tb.Info()&types.IsString != 0:
		return func(fr *frame, v Value) Value {
			u := fr.g.st.concInt(v, fw)
			return string(rune(u))
		}
	case isString(from) && isString(to):
		return func(fr *frame, v Value) Value { return v }
	case isString(from):
		if s, ok := tu.(*types.Slice); ok {
			el := layoutOf(s.Elem())
			if w, _, _ := intInfo(s.Elem()); w == 8 {
				return func(fr *frame, v Value) Value {
					b := strBytes(v)
					o := fr.g.st.newObj(el, len(b))
					for i, x := range b {
						o.set(i, x)
					}
					return Slice{o, 0, len(b), len(b)}
				}
			}
			return func(fr *frame, v Value) Value {
				str := fr.g.st.concStr(v)
				rs := []rune(str)
				o := fr.g.st.newObj(el, len(rs))
				for i, x := range rs {
					o.set(i, uint64(uint32(x)))
				}
				return Slice{o, 0, len(rs), len(rs)}
			}
		}
	case isString(to):
		if s, ok := fu.(*types.Slice); ok {
			if w, _, _ := intInfo(s.Elem()); w == 8 {
				return func(fr *frame, v Value) Value {
					sl := v.(Slice)
					fr.g.st.accessRange(fr, sl, 1, false, pos)
					b := make([]Value, sl.len)
					for i := range b {
						b[i] = sl.o.get(sl.off + i)
					}
					return mkStr(b)
				}
			}
			return func(fr *frame, v Value) Value {
				sl := v.(Slice)
				rs := make([]rune, sl.len)
				for i := range rs {
					rs[i] = rune(fr.g.st.concInt(sl.o.get(sl.off+i), 32))
				}
				return string(rs)
			}
		}
	case fb != nil && fb.Kind() == types.UnsafePointer:
		if pt, ok := tu.(*types.Pointer); ok {
			et := pt.Elem()
			return func(fr *frame, v Value) Value {
				switch p := v.(type) {
				case Ptr:
					if p.o == nil {
						return p
					}
					return castPtr(p, et)
				case RPtr:
					return castPtr(Ptr{p.o, p.off}, et)
				}
				return v
			}
		}
		if ti { // uintptr
			return func(fr *frame, v Value) Value {
				if p, ok := v.(Ptr); ok && p.o == nil {
					return uint64(0)
				}
				return fr.g.st.ptrToInt(v)
			}
		}
	case tb != nil && tb.Kind() == types.UnsafePointer:
		if fi {
			return func(fr *frame, v Value) Value { return fr.g.st.intToPtr(v) }
		}
		return func(fr *frame, v Value) Value { return v }
	}
	if types.Identical(fu, tu) {
		return func(fr *frame, v Value) Value { return v }
	}
	// slice/array conversions and other representation-preserving ones
	if _, ok := fu.(*types.Slice); ok {
		if a, ok := tu.(*types.Array); ok {
			l := layoutOf(to)
			return func(fr *frame, v Value) Value {
				s := v.(Slice)
				if s.len < int(a.Len()) {
					rtPanic(pos, "cannot convert slice to array")
				}
				return fr.g.st.load(fr, Ptr{s.o, s.off}, l, pos)
			}
		}
		return func(fr *frame, v Value) Value { return v }
	}
	switch fu.(type) {
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature, *types.Interface, *types.Struct:
		return func(fr *frame, v Value) Value { return v }
	}
	return func(fr *frame, v Value) Value { unsup("conversion %s -> %s at %s", from, to, pos); return nil }
}

// castPtr reinterprets p as pointer to et: if the object has a nested variable
// of that type at the offset the pointer stays typed, otherwise it becomes a
// raw little-endian view of a byte array.
func castPtr(p Ptr, et types.Type) Value {
	l := p.o.t
	off := p.off
	if l.n > 0 && p.o.rep > 1 {
		off %= l.n
	}
	for {
		if off == 0 && (types.Identical(l.t, et) || types.Identical(l.t.Underlying(), et.Underlying())) {
			return p
		}
		if l.elem != nil {
			if l.elem.n == 0 {
				break
			}
			if off == 0 {
				// array of et?
				if a, ok := et.Underlying().(*types.Array); ok && types.Identical(a.Elem(), l.elem.t) {
					return p
				}
			}
			off %= l.elem.n
			l = l.elem
			continue
		}
		if l.fields != nil {
			k := len(l.fields) - 1
			for k > 0 && (l.foff[k] > off || l.fields[k].n == 0) {
				k--
			}
			off -= l.foff[k]
			l = l.fields[k]
			continue
		}
		break
	}
	if w, _, ok := intInfo(l.t); ok && w == 8 {
		return RPtr{p.o, p.off, et}
	}
	// same-size scalars or arrays starting here of unknown length
	if a, ok := et.Underlying().(*types.Array); ok && types.Identical(a.Elem(), l.t) {
		return p
	}
	w1, _, o1 := intInfo(l.t)
	w2, _, o2 := intInfo(et)
	if o1 && o2 && w1 == w2 {
		return p
	}
	unsup("unsafe cast of %s to *%s", l.t, et)
	return nil
}

var _ = math.Pi
