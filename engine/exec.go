package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type goPanic struct {
	val   Value
	pos   string
	rt    bool // run-time error
	trace []string
}

type killSig struct{}
type pathEnd struct{ why string }

func rtPanic(pos, msg string) {
	panic(&goPanic{val: Iface{rtypeOf(types.Typ[types.String]), "runtime error: " + msg}, pos: pos, rt: true})
}

func nilPanic(pos string) { rtPanic(pos, "invalid memory address or nil pointer dereference") }

type deferred struct {
	fn   *Closure
	args []Value
	bi   func(g *G, fr *frame, args []Value) Value
	pos  string
}

type frame struct {
	g         *G
	fn        *Func
	regs      []Value
	result    Value
	jump      int
	defers    []*deferred
	panicking *goPanic
	deferOf   *frame // frame whose deferred call this is
	caller    *frame
}

func (fr *frame) takeEdge(e *edge) {
	switch len(e.moves) {
	case 0:
	case 1:
		m := &e.moves[0]
		fr.regs[m.dst] = m.src.get(fr)
	default:
		var buf [8]Value
		vs := buf[:0]
		for i := range e.moves {
			vs = append(vs, e.moves[i].src.get(fr))
		}
		for i := range e.moves {
			fr.regs[e.moves[i].dst] = vs[i]
		}
	}
	fr.jump = e.to
}

func (fr *frame) loop(b int) {
	f := fr.fn
	st := fr.g.st
	for {
		bb := &f.blocks[b]
		st.steps += len(bb.ins) + 1
		if st.steps > st.maxSteps {
			panic(pathEnd{"step bound exceeded in " + f.name})
		}
		for _, x := range bb.ins {
			x(fr)
		}
		k := bb.term(fr)
		if k == -1 {
			return
		}
		if k >= 0 {
			fr.takeEdge(&bb.edges[k])
		}
		b = fr.jump
	}
}

// call runs fn to completion on goroutine g.
func (g *G) call(fn *Func, args []Value, free []Value, caller *frame, deferOf *frame) Value {
	fn.compile()
	st := g.st
	if fn.intr != nil {
		return fn.intr(g, caller, args)
	}
	if fn.noBody {
		if st.tolerant {
			return fn.zeroResult()
		}
		unsup("call to %s", fn.name)
	}
	if !fn.harness {
		st.cov[fn]++
	}
	g.depth++
	if g.depth > 400 {
		unsup("recursion depth in %s", fn.name)
	}
	fr := &frame{g: g, fn: fn, regs: make([]Value, fn.nregs), caller: caller, deferOf: deferOf}
	for i, r := range fn.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fn.free {
		fr.regs[r] = free[i]
	}
	if fn.hasDefer {
		fr.runProtected()
	} else {
		fr.loop(0)
	}
	g.depth--
	return fr.result
}

func (f *Func) zeroResult() Value {
	r := f.sf.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return layoutOf(r.At(0).Type()).zero()
	}
	t := make(Tuple, r.Len())
	for i := range t {
		t[i] = layoutOf(r.At(i).Type()).zero()
	}
	return t
}

func protect(f func()) (p *goPanic) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(*goPanic); ok {
				p = gp
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (fr *frame) runProtected() {
	d := fr.g.depth
	p := protect(func() { fr.loop(0) })
	if p == nil {
		return
	}
	fr.g.depth = d
	fr.panicking = p
	fr.runDefersPanicking()
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	fr.g.depth = d
	if fr.fn.recover >= 0 {
		fr.loop(fr.fn.recover)
	} else {
		fr.result = fr.fn.zeroResult()
	}
}

func (fr *frame) runDefersPanicking() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if p := protect(func() { fr.runDeferred(d) }); p != nil {
			fr.panicking = p
		}
	}
}

func (fr *frame) runDeferred(d *deferred) {
	if d.bi != nil {
		d.bi(fr.g, fr, d.args)
		return
	}
	fr.g.callClosure(d.fn, d.args, fr, fr, d.pos)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDeferred(d)
	}
}

func (g *G) callClosure(c *Closure, args []Value, caller *frame, deferOf *frame, pos string) Value {
	if c == nil {
		nilPanic(pos)
	}
	if c.native != nil {
		return c.native(g, args)
	}
	return g.call(c.fn, args, c.free, caller, deferOf)
}

func (c *compiler) call(cc *ssa.CallCommon, pos string) func(fr *frame) Value {
	args := c.ops(cc.Args)
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		p := c.p
		mc := newMethodCache(p, m)
		return func(fr *frame) Value {
			r := recv.get(fr).(Iface)
			if r.t == nil {
				if fr.g.st.tolerant {
					unsup("nil invoke in init")
				}
				nilPanic(pos)
			}
			fn := mc.find(r.t)
			av := make([]Value, len(args)+1)
			av[0] = r.v
			for i := range args {
				av[i+1] = args[i].get(fr)
			}
			return fr.g.call(fn, av, nil, fr, nil)
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		bi := c.builtin(v, cc, pos)
		return func(fr *frame) Value {
			var buf [4]Value
			av := buf[:0]
			for i := range args {
				av = append(av, args[i].get(fr))
			}
			return bi(fr.g, fr, av)
		}
	case *ssa.Function:
		fn := c.p.getFunc(v)
		return func(fr *frame) Value {
			av := make([]Value, len(args))
			for i := range args {
				av[i] = args[i].get(fr)
			}
			if v.Synthetic == "package initializer" {
				return nil // initialisation order is driven by the engine
			}
			if fr.g.st.tolerant {
				return fr.g.tolerantCall(fn, av, nil, fr)
			}
			return fr.g.call(fn, av, nil, fr, nil)
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) Value {
		av := make([]Value, len(args))
		for i := range args {
			av[i] = args[i].get(fr)
		}
		return fr.g.callClosure(fv.get(fr).(*Closure), av, fr, nil, pos)
	}
}

func (g *G) tolerantCall(fn *Func, av []Value, free []Value, fr *frame) (res Value) {
	d := g.depth
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case killSig, pathEnd:
				panic(r)
			}
			g.depth = d
			res = fn.zeroResult()
		}
	}()
	return g.call(fn, av, free, fr, nil)
}

// prepCall evaluates callee and arguments now (defer/go).
func (c *compiler) prepCall(cc *ssa.CallCommon, pos string) func(fr *frame) *deferred {
	args := c.ops(cc.Args)
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		mc := newMethodCache(c.p, cc.Method)
		return func(fr *frame) *deferred {
			r := recv.get(fr).(Iface)
			if r.t == nil {
				nilPanic(pos)
			}
			fn := mc.find(r.t)
			av := []Value{r.v}
			for i := range args {
				av = append(av, args[i].get(fr))
			}
			return &deferred{fn: &Closure{fn: fn, name: fn.name}, args: av, pos: pos}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		bi := c.builtin(b, cc, pos)
		return func(fr *frame) *deferred {
			var av []Value
			for i := range args {
				av = append(av, args[i].get(fr))
			}
			return &deferred{bi: bi, args: av, pos: pos}
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) *deferred {
		var av []Value
		for i := range args {
			av = append(av, args[i].get(fr))
		}
		cl := fv.get(fr).(*Closure)
		return &deferred{fn: cl, args: av, pos: pos}
	}
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, pos string) func(g *G, fr *frame, a []Value) Value {
	switch b.Name() {
	case "len":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			return func(g *G, fr *frame, a []Value) Value { return uint64(strLen(a[0])) }
		case *types.Slice:
			return func(g *G, fr *frame, a []Value) Value { return uint64(a[0].(Slice).len) }
		case *types.Map:
			return func(g *G, fr *frame, a []Value) Value {
				m := a[0].(*MapV)
				if m == nil {
					return uint64(0)
				}
				g.st.accessMap(fr, m, false, pos)
				return uint64(m.n)
			}
		case *types.Chan:
			return func(g *G, fr *frame, a []Value) Value {
				ch := a[0].(*ChanV)
				if ch == nil {
					return uint64(0)
				}
				return uint64(len(ch.buf))
			}
		case *types.Array:
			return func(g *G, fr *frame, a []Value) Value { return uint64(u.Len()) }
		case *types.Pointer:
			n := uint64(u.Elem().Underlying().(*types.Array).Len())
			return func(g *G, fr *frame, a []Value) Value { return n }
		}
	case "cap":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return func(g *G, fr *frame, a []Value) Value { return uint64(a[0].(Slice).cap) }
		case *types.Chan:
			return func(g *G, fr *frame, a []Value) Value { return uint64(a[0].(*ChanV).cap) }
		case *types.Array:
			return func(g *G, fr *frame, a []Value) Value { return uint64(u.Len()) }
		case *types.Pointer:
			n := uint64(u.Elem().Underlying().(*types.Array).Len())
			return func(g *G, fr *frame, a []Value) Value { return n }
		}
	case "append":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		el := layoutOf(et)
		return func(g *G, fr *frame, a []Value) Value {
			s := a[0].(Slice)
			var add []Value
			n := 0
			switch y := a[1].(type) {
			case Slice:
				g.st.accessRange(fr, y, el.n, false, pos)
				n = y.len
				add = make([]Value, n*el.n)
				for i := range add {
					add[i] = y.o.get(y.off + i)
				}
			default:
				add = strBytes(y)
				n = len(add)
			}
			if n == 0 {
				return s
			}
			if s.len+n <= s.cap {
				for i, v := range add {
					g.st.access(fr, s.o, s.off+s.len*el.n+i, true, pos)
					s.o.set(s.off+s.len*el.n+i, v)
				}
				return Slice{s.o, s.off, s.len + n, s.cap}
			}
			nc := s.len + n
			if s.cap > 0 && nc < 2*s.cap {
				nc = 2 * s.cap
			}
			o := g.st.newObj(el, nc)
			for i := 0; i < s.len*el.n; i++ {
				o.set(i, s.o.get(s.off+i))
			}
			for i, v := range add {
				o.set(s.len*el.n+i, v)
			}
			return Slice{o, 0, s.len + n, nc}
		}
	case "copy":
		el := layoutOf(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		return func(g *G, fr *frame, a []Value) Value {
			dst := a[0].(Slice)
			var src []Value
			n := 0
			switch y := a[1].(type) {
			case Slice:
				n = min(dst.len, y.len)
				src = make([]Value, n*el.n)
				for i := range src {
					src[i] = y.o.get(y.off + i)
				}
			default:
				b := strBytes(y)
				n = min(dst.len, len(b))
				src = b[:n]
			}
			for i := 0; i < n*el.n; i++ {
				g.st.access(fr, dst.o, dst.off+i, true, pos)
				dst.o.set(dst.off+i, src[i])
			}
			return uint64(n)
		}
	case "delete":
		return func(g *G, fr *frame, a []Value) Value {
			m := a[0].(*MapV)
			if m == nil {
				return nil
			}
			g.st.accessMap(fr, m, true, pos)
			g.st.mapDelete(m, a[1])
			return nil
		}
	case "clear":
		return func(g *G, fr *frame, a []Value) Value {
			switch m := a[0].(type) {
			case *MapV:
				if m != nil {
					g.st.accessMap(fr, m, true, pos)
					m.keys, m.vals, m.live, m.n, m.nsym = nil, nil, nil, 0, 0
					m.index = map[interface{}]int{}
				}
			case Slice:
				el := layoutOf(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := 0; i < m.len*el.n; i++ {
					m.o.set(m.off+i, el.zeroAt(i%el.n))
				}
			}
			return nil
		}
	case "close":
		return func(g *G, fr *frame, a []Value) Value { g.chanClose(a[0].(*ChanV), pos); return nil }
	case "panic":
		return func(g *G, fr *frame, a []Value) Value { panic(&goPanic{val: a[0], pos: pos}) }
	case "recover":
		return func(g *G, fr *frame, a []Value) Value {
			if fr.deferOf != nil && fr.deferOf.panicking != nil {
				v := fr.deferOf.panicking.val
				fr.deferOf.panicking = nil
				return v
			}
			return Iface{}
		}
	case "min", "max":
		isMin := b.Name() == "min"
		w, signed, ok := intInfo(cc.Args[0].Type())
		if ok {
			t := cc.Args[0].Type()
			return func(g *G, fr *frame, a []Value) Value {
				r := a[0]
				op := OUlt
				if signed {
					op = OSlt
				}
				for _, x := range a[1:] {
					c := normT(g.st.tt2().Cmp(op, g.st.term(x, w), g.st.term(r, w)))
					if !isMin {
						c = normT(g.st.tt2().Cmp(op, g.st.term(r, w), g.st.term(x, w)))
					}
					switch cv := c.(type) {
					case bool:
						if cv {
							r = x
						}
					case *Term:
						r = g.st.ite(cv, x, r, t)
					}
				}
				return r
			}
		}
	case "print", "println":
		return func(g *G, fr *frame, a []Value) Value { return nil }
	case "ssa:wrapnilchk":
		return func(g *G, fr *frame, a []Value) Value {
			if p, ok := a[0].(Ptr); ok && p.o == nil {
				nilPanic(pos)
			}
			return a[0]
		}
	case "String": // unsafe.String(ptr, len)
		return func(g *G, fr *frame, a []Value) Value {
			n := g.st.concInt(a[1], 64)
			if n == 0 {
				return ""
			}
			p := a[0].(Ptr)
			bs := make([]Value, n)
			for i := range bs {
				bs[i] = p.o.get(p.off + i)
			}
			return mkStr(bs)
		}
	case "StringData":
		el := layoutOf(types.Typ[types.Uint8])
		return func(g *G, fr *frame, a []Value) Value {
			bs := strBytes(a[0])
			o := g.st.newObj(el, len(bs))
			for i, x := range bs {
				o.set(i, x)
			}
			return Ptr{o, 0}
		}
	case "SliceData":
		return func(g *G, fr *frame, a []Value) Value {
			s := a[0].(Slice)
			return Ptr{s.o, s.off}
		}
	case "Slice": // unsafe.Slice(ptr, len)
		el := layoutOf(deref(cc.Args[0].Type()))
		et := el.t
		return func(g *G, fr *frame, a []Value) Value {
			n := g.st.concInt(a[1], 64)
			switch p := a[0].(type) {
			case Ptr:
				if p.o == nil {
					return Slice{}
				}
				return Slice{p.o, p.off, n, n}
			case RPtr:
				es := int(c.p.sizes.Sizeof(et))
				o := g.st.newObj(el, n)
				for k := 0; k < n; k++ {
					o.set(k, g.st.rload(RPtr{p.o, p.off + k*es, et}, et, pos))
				}
				return Slice{o, 0, n, n}
			}
			return nil
		}
	case "Add": // unsafe.Add
		return func(g *G, fr *frame, a []Value) Value {
			n := g.st.concInt(a[1], 64)
			switch p := a[0].(type) {
			case Ptr:
				if w, _, ok := intInfo(leaf(p.o.t, p.off)); ok && w == 8 {
					return Ptr{p.o, p.off + n}
				}
			case RPtr:
				return RPtr{p.o, p.off + n, types.Typ[types.Uint8]}
			}
			unsup("unsafe.Add at %s", pos)
			return nil
		}
	}
	name := b.Name()
	return func(g *G, fr *frame, a []Value) Value { unsup("builtin %s at %s", name, pos); return nil }
}

func leaf(l *Layout, off int) types.Type {
	for {
		switch {
		case l.elem != nil && l.elem.n > 0:
			off %= l.elem.n
			l = l.elem
		case l.fields != nil:
			k := len(l.fields) - 1
			for k > 0 && (l.foff[k] > off || l.fields[k].n == 0) {
				k--
			}
			off -= l.foff[k]
			l = l.fields[k]
		default:
			return l.t
		}
	}
}

// ---- method lookup

type methodCache struct {
	p *Program
	m *types.Func
}

func newMethodCache(p *Program, m *types.Func) *methodCache { return &methodCache{p, m} }

type mkey struct {
	rt *RType
	m  string
}

func (mc *methodCache) find(rt *RType) *Func { return mc.p.findMethod(rt, mc.m.Pkg(), mc.m.Name()) }

func (p *Program) findMethod(rt *RType, pkg *types.Package, name string) *Func {
	k := mkey{rt, name}
	if v, ok := p.funcs.Load(k); ok {
		if v == nil {
			return nil
		}
		return v.(*Func)
	}
	compileMu.Lock()
	sel := p.prog.MethodSets.MethodSet(rt.t).Lookup(pkg, name)
	if sel == nil {
		compileMu.Unlock()
		unsup("method %s not found on %s", name, rt.str)
	}
	sf := p.prog.MethodValue(sel)
	compileMu.Unlock()
	if sf == nil {
		unsup("no method value %s.%s", rt.str, name)
	}
	f := p.getFunc(sf)
	p.funcs.Store(k, f)
	return f
}

func (p *Program) hasMethod(rt *RType, name string) bool {
	compileMu.Lock()
	defer compileMu.Unlock()
	ms := p.prog.MethodSets.MethodSet(rt.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// ---- maps

func (st *State) newMap(kl, vl *Layout, t types.Type) *MapV {
	st.nextID++
	return &MapV{index: map[interface{}]int{}, id: st.nextID, keyT: kl, valT: vl, t: t, epoch: st.epoch}
}

func (st *State) mapFind(m *MapV, k Value) int {
	if m == nil {
		return -1
	}
	ck, conc := concKey(k)
	if conc && m.nsym == 0 {
		if i, ok := m.index[ck]; ok {
			return i
		}
		return -1
	}
	if conc {
		if i, ok := m.index[ck]; ok {
			return i
		}
	}
	eq := eqFunc(m.keyT.t)
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if conc {
			if _, c := concKey(m.keys[i]); c {
				continue
			}
		}
		if st.truth(eq(st, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (st *State) mapSet(m *MapV, k, v Value) {
	if i := st.mapFind(m, k); i >= 0 {
		m.vals[i] = v
		return
	}
	if ck, ok := concKey(k); ok {
		m.index[ck] = len(m.keys)
	} else {
		m.nsym++
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.live = append(m.live, true)
	m.n++
}

func (st *State) mapDelete(m *MapV, k Value) {
	i := st.mapFind(m, k)
	if i < 0 {
		return
	}
	if ck, ok := concKey(m.keys[i]); ok {
		delete(m.index, ck)
	} else {
		m.nsym--
	}
	m.live[i] = false
	m.n--
}

// ---- iteration

type IterV struct {
	m     *MapV
	order []int // indices planned so far
	pos   int
	seen  int // entries of m.keys already planned
	str   Value
	rev   bool
	perm  bool
}

func (st *State) newIter(fr *frame, x Value, inRepo bool, pos string) *IterV {
	switch x := x.(type) {
	case *MapV:
		it := &IterV{m: x}
		if x == nil {
			return it
		}
		st.accessMap(fr, x, false, pos)
		if inRepo && x.n > 1 {
			switch st.mapOrder {
			case 1: // one global choice per path
				if st.mapRev < 0 {
					st.mapRev = st.choice("maporder", 2)
				}
				it.rev = st.mapRev == 1
			case 2:
				it.perm = true
			case 3:
				it.rev = true
			}
		}
		for i := range x.keys {
			if x.live[i] {
				it.order = append(it.order, i)
			}
		}
		it.seen = len(x.keys)
		if it.rev {
			for a, b := 0, len(it.order)-1; a < b; a, b = a+1, b-1 {
				it.order[a], it.order[b] = it.order[b], it.order[a]
			}
		}
		return it
	default:
		return &IterV{str: x}
	}
}

func (st *State) iterNext(fr *frame, it *IterV, kz, vz Value, pos string) Value {
	if it.str != nil {
		n := strLen(it.str)
		if it.pos >= n {
			return Tuple{false, kz, vz}
		}
		p := it.pos
		if ss, ok := it.str.(*SymStr); ok {
			// treat symbolic bytes below 0x80 as runes; otherwise concretise
			b := ss.b[p]
			t, sym := b.(*Term)
			if sym && st.truth(normT(st.tt.Cmp(OUlt, t, st.tt.Const(8, 0x80)))) {
				it.pos++
				return Tuple{true, uint64(p), normT(st.tt.ZExt(t, 32))}
			}
			if c, ok := b.(uint64); ok && c < 0x80 {
				it.pos++
				return Tuple{true, uint64(p), c}
			}
			it.str = st.concStr(it.str)
		}
		s := it.str.(string)
		for i, r := range s[p:] {
			if i == 0 {
				n := len(string(r))
				if r == 0xFFFD {
					// invalid encodings advance one byte
					n = 1
					if strings.HasPrefix(s[p:], "\uFFFD") {
						n = 3
					}
				}
				it.pos = p + n
				return Tuple{true, uint64(p), uint64(uint32(r))}
			}
		}
	}
	m := it.m
	if m == nil {
		return Tuple{false, kz, vz}
	}
	st.accessMap(fr, m, false, pos)
	// entries added during iteration are visited (allowed by the language)
	for ; it.seen < len(m.keys); it.seen++ {
		if m.live[it.seen] {
			it.order = append(it.order, it.seen)
		}
	}
	for it.pos < len(it.order) {
		if it.perm {
			// choose any remaining live entry
			var rem []int
			for j := it.pos; j < len(it.order); j++ {
				if m.live[it.order[j]] {
					rem = append(rem, j)
				}
			}
			if len(rem) > 1 {
				j := rem[st.choice("maporder", len(rem))]
				// rotate j to the front, keeping the relative order of the others
				v := it.order[j]
				copy(it.order[it.pos+1:j+1], it.order[it.pos:j])
				it.order[it.pos] = v
			}
		}
		i := it.order[it.pos]
		it.pos++
		if m.live[i] {
			k, v := m.keys[i], m.vals[i]
			if kz == nil {
				k = nil
			}
			if vz == nil {
				v = nil
			}
			return Tuple{true, k, v}
		}
	}
	return Tuple{false, kz, vz}
}

// ---- memory

func (st *State) newObj(l *Layout, rep int) *Obj {
	st.nextID++
	o := &Obj{t: l, n: l.n * rep, rep: rep, id: st.nextID, epoch: st.epoch}
	if o.n > denseMax {
		o.pages = map[int][]Value{}
		return o
	}
	o.vals = make([]Value, o.n)
	if l.zeros != nil {
		if len(l.zeros) == 1 {
			z := l.zeros[0]
			for i := range o.vals {
				o.vals[i] = z
			}
		} else {
			for i := 0; i < rep; i++ {
				copy(o.vals[i*l.n:], l.zeros)
			}
		}
	} else {
		for i := range o.vals {
			o.vals[i] = l.zeroAt(i % l.n)
		}
	}
	return o
}

func (st *State) load(fr *frame, p Value, l *Layout, pos string) Value {
	switch p := p.(type) {
	case Ptr:
		if p.o == nil {
			nilPanic(pos)
		}
		if p.off+l.n > p.o.n || p.off < 0 {
			rtPanic(pos, "out-of-bounds memory access")
		}
		if !l.agg {
			st.access(fr, p.o, p.off, false, pos)
			return p.o.get(p.off)
		}
		a := make(Agg, l.n)
		for i := range a {
			st.access(fr, p.o, p.off+i, false, pos)
			a[i] = p.o.get(p.off + i)
		}
		return a
	case RPtr:
		return st.rload(p, l.t, pos)
	}
	panic(fmt.Sprintf("load through %T at %s", p, pos))
}

func (st *State) rload(p RPtr, t types.Type, pos string) Value {
	sz := st.p.sizes
	l := layoutOf(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := make(Agg, 0, l.n)
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := sz.Offsetsof(fs)
		for i := range fs {
			v := st.rload(RPtr{p.o, p.off + int(offs[i]), fs[i].Type()}, fs[i].Type(), pos)
			if va, ok := v.(Agg); ok {
				a = append(a, va...)
			} else {
				a = append(a, v)
			}
		}
		return a
	case *types.Array:
		es := int(sz.Sizeof(u.Elem()))
		a := make(Agg, 0, l.n)
		for i := 0; i < int(u.Len()); i++ {
			v := st.rload(RPtr{p.o, p.off + i*es, u.Elem()}, u.Elem(), pos)
			if va, ok := v.(Agg); ok {
				a = append(a, va...)
			} else {
				a = append(a, v)
			}
		}
		return a
	}
	w, _, ok := intInfo(t)
	if !ok {
		unsup("raw load of %s", t)
	}
	n := int(w) / 8
	lo, hi := st.byteBounds(p)
	if p.off < lo || p.off+n > hi {
		rtPanic(pos, "out-of-bounds memory access (unsafe)")
	}
	var v *Term
	conc := true
	var cv uint64
	for i := n - 1; i >= 0; i-- {
		b := p.o.get(p.off + i)
		if c, ok := b.(uint64); ok && conc {
			cv = cv<<8 | c
		} else {
			if conc {
				conc = false
				if i != n-1 {
					v = st.tt.Const(uint8(8*(n-1-i)), cv)
				}
			}
			bt := st.term(b, 8)
			if v == nil {
				v = bt
			} else {
				v = st.tt.Concat(v, bt)
			}
		}
	}
	if conc {
		return cv
	}
	return normT(v)
}

// byteBounds returns the extent of the byte array containing p.
func (st *State) byteBounds(p RPtr) (int, int) {
	l := p.o.t
	base := 0
	off := p.off
	if p.o.rep > 1 || (!l.agg) {
		if w, _, ok := intInfo(l.t); ok && w == 8 {
			return 0, p.o.n
		}
		if l.n > 0 {
			base = off / l.n * l.n
			off %= l.n
		}
	}
	for {
		if l.elem != nil {
			if w, _, ok := intInfo(l.elem.t); ok && w == 8 {
				return base, base + l.n
			}
			if l.elem.n == 0 {
				return 0, 0
			}
			k := off / l.elem.n
			base += k * l.elem.n
			off -= k * l.elem.n
			l = l.elem
			continue
		}
		if l.fields != nil {
			k := len(l.fields) - 1
			for k > 0 && (l.foff[k] > off || l.fields[k].n == 0) {
				k--
			}
			base += l.foff[k]
			off -= l.foff[k]
			l = l.fields[k]
			continue
		}
		return 0, 0
	}
}

func (st *State) store(fr *frame, p Value, l *Layout, v Value, pos string) {
	switch p := p.(type) {
	case Ptr:
		if p.o == nil {
			nilPanic(pos)
		}
		if p.off+l.n > p.o.n {
			rtPanic(pos, "out-of-bounds memory access")
		}
		if !l.agg {
			st.access(fr, p.o, p.off, true, pos)
			p.o.set(p.off, v)
			return
		}
		a := v.(Agg)
		for i := 0; i < l.n; i++ {
			st.access(fr, p.o, p.off+i, true, pos)
			p.o.set(p.off+i, a[i])
		}
		return
	case RPtr:
		w, _, ok := intInfo(l.t)
		if !ok {
			unsup("raw store of %s", l.t)
		}
		lo, hi := st.byteBounds(p)
		n := int(w) / 8
		if p.off < lo || p.off+n > hi {
			rtPanic(pos, "out-of-bounds memory access (unsafe)")
		}
		for i := 0; i < n; i++ {
			switch x := v.(type) {
			case uint64:
				p.o.set(p.off+i, x>>(8*uint(i))&0xff)
			case *Term:
				p.o.set(p.off+i, normT(st.tt.Extract(uint8(8*i+7), uint8(8*i), x)))
			}
		}
		return
	}
	panic(fmt.Sprintf("store through %T at %s", p, pos))
}

// ---- scalar helpers

func normT(t *Term) Value {
	if t.op == OConst {
		if t.w == 0 {
			return t.v == 1
		}
		return t.v
	}
	return t
}

func (st *State) tt2() *TermTab {
	if st.tt == nil {
		st.tt = newTermTab()
	}
	return st.tt
}

func (st *State) term(v Value, w uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return st.tt2().Const(w, v)
	case bool:
		return st.tt2().Bool(v)
	}
	panic(fmt.Sprintf("term of %T", v))
}

func (st *State) not(v Value) Value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return normT(st.tt.BNot(v))
	}
	panic(fmt.Sprintf("not of %T", v))
}

func (st *State) arith(op Op, w uint8, a, b Value) Value {
	ca, o1 := a.(uint64)
	cb, o2 := b.(uint64)
	if o1 && o2 {
		return evalBin(op, w, ca, cb)
	}
	return normT(st.tt.Bin(op, st.term(a, w), st.term(b, w)))
}

func (st *State) eqInt(a, b Value, w uint8) Value {
	ca, o1 := a.(uint64)
	cb, o2 := b.(uint64)
	if o1 && o2 {
		return ca == cb
	}
	return normT(st.tt.Cmp(OEq, st.term(a, w), st.term(b, w)))
}

func (st *State) ite(c *Term, a, b Value, t types.Type) Value {
	w, _, ok := intInfo(t)
	if !ok {
		w = 0
	}
	if x, ok := a.(uint64); ok {
		if y, ok := b.(uint64); ok && x == y {
			return a
		}
	}
	return normT(st.tt.Ite(c, st.term(a, w), st.term(b, w)))
}

func (st *State) convInt(v Value, fw uint8, fs bool, tw uint8) Value {
	switch v := v.(type) {
	case uint64:
		if tw <= fw {
			return v & mask(tw)
		}
		if fs {
			return uint64(sext(v, fw)) & mask(tw)
		}
		return v
	case *Term:
		switch {
		case tw == fw:
			return v
		case tw < fw:
			return normT(st.tt.Extract(tw-1, 0, v))
		case fs:
			return normT(st.tt.SExt(v, tw))
		default:
			return normT(st.tt.ZExt(v, tw))
		}
	}
	panic(fmt.Sprintf("convInt %T", v))
}

// truth forks on a possibly symbolic boolean.
func (st *State) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return st.branch(v)
	}
	panic(fmt.Sprintf("truth of %T", v))
}

// concInt returns a concrete signed value, forking over all feasible values.
func (st *State) concInt(v Value, w uint8) int {
	switch v := v.(type) {
	case uint64:
		return int(sext(v, w))
	case *Term:
		return int(sext(st.concretize(v), w))
	}
	panic(fmt.Sprintf("concInt %T", v))
}

func (st *State) concretize(t *Term) uint64 {
	for n := 0; ; n++ {
		if n > 4096 {
			unsup("concretisation of an unbounded value")
		}
		v := st.eval(t)
		if st.branch(st.tt.Cmp(OEq, t, st.tt.Const(t.w, v))) {
			return v
		}
	}
}

func (st *State) concStr(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			switch x := x.(type) {
			case uint64:
				b[i] = byte(x)
			case *Term:
				b[i] = byte(st.concretize(x))
			}
		}
		return string(b)
	}
	panic(fmt.Sprintf("concStr %T", v))
}

func (st *State) index(v Value, w uint8, signed bool, n int, pos string) int {
	var i int64
	switch v := v.(type) {
	case uint64:
		if signed {
			i = sext(v, w)
		} else {
			i = int64(v)
			if i < 0 {
				i = 1 << 62
			}
		}
	case *Term:
		// out of range?
		in := st.tt.T
		ext := v
		if w < 64 {
			if signed {
				ext = st.tt.SExt(v, 64)
			} else {
				ext = st.tt.ZExt(v, 64)
			}
		}
		in = st.tt.Cmp(OUlt, ext, st.tt.Const(64, uint64(n)))
		if !st.branch(in) {
			rtPanic(pos, fmt.Sprintf("index out of range with length %d", n))
		}
		return int(st.concretize(v))
	}
	if i < 0 || i >= int64(n) {
		rtPanic(pos, fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i)
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	return mkStr(append(append([]Value(nil), strBytes(a)...), strBytes(b)...))
}

func (st *State) strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	if strLen(a) != strLen(b) {
		return false
	}
	x, y := strBytes(a), strBytes(b)
	r := st.tt.T
	for i := range x {
		c := st.eqInt(x[i], y[i], 8)
		switch c := c.(type) {
		case bool:
			if !c {
				return false
			}
		case *Term:
			r = st.tt.BAnd(r, c)
			if r == st.tt.F {
				return false
			}
		}
	}
	return normT(r)
}

func (st *State) strCmp(a, b Value) int {
	x, y := strBytes(a), strBytes(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		cx, o1 := x[i].(uint64)
		cy, o2 := y[i].(uint64)
		if o1 && o2 {
			if cx != cy {
				if cx < cy {
					return -1
				}
				return 1
			}
			continue
		}
		if st.truth(st.eqInt(x[i], y[i], 8)) {
			continue
		}
		if st.truth(normT(st.tt.Cmp(OUlt, st.term(x[i], 8), st.term(y[i], 8)))) {
			return -1
		}
		return 1
	}
	return len(x) - len(y)
}

// eqFunc returns the equality function for a static type.
func eqFunc(t types.Type) func(st *State, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			w, _, _ := intInfo(t)
			return func(st *State, a, b Value) Value { return st.eqInt(a, b, w) }
		case u.Info()&types.IsBoolean != 0:
			return func(st *State, a, b Value) Value {
				if x, ok := a.(bool); ok {
					if y, ok := b.(bool); ok {
						return x == y
					}
				}
				return normT(st.tt.Cmp(OEq, st.term(a, 0), st.term(b, 0)))
			}
		case u.Info()&types.IsString != 0:
			return func(st *State, a, b Value) Value { return st.strEq(a, b) }
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return func(st *State, a, b Value) Value { return a == b }
		case u.Info()&types.IsFloat != 0:
			return func(st *State, a, b Value) Value { return a.(float64) == b.(float64) }
		}
	case *types.Pointer, *types.Chan:
		return func(st *State, a, b Value) Value { return a == b }
	case *types.Map:
		return func(st *State, a, b Value) Value { return a.(*MapV) == b.(*MapV) }
	case *types.Signature:
		return func(st *State, a, b Value) Value { return a.(*Closure) == b.(*Closure) }
	case *types.Slice:
		return func(st *State, a, b Value) Value { // only comparison with nil
			x, y := a.(Slice), b.(Slice)
			return x.o == nil && y.o == nil
		}
	case *types.Interface:
		return func(st *State, a, b Value) Value {
			x, y := a.(Iface), b.(Iface)
			if x.t != y.t {
				return false
			}
			if x.t == nil {
				return true
			}
			f := eqFunc(x.t.t)
			if f == nil {
				rtPanic("interface comparison", "comparing uncomparable type "+x.t.str)
			}
			switch x.t.t.Underlying().(type) {
			case *types.Map, *types.Slice, *types.Signature:
				rtPanic("interface comparison", "comparing uncomparable type "+x.t.str)
			}
			return f(st, x.v, y.v)
		}
	case *types.Struct:
		l := layoutOf(t)
		var fs []func(st *State, a, b Value) Value
		for i := 0; i < u.NumFields(); i++ {
			f := eqFunc(u.Field(i).Type())
			if f == nil {
				return nil
			}
			fs = append(fs, f)
		}
		return func(st *State, a, b Value) Value {
			x, y := a.(Agg), b.(Agg)
			var r Value = true
			for i, f := range fs {
				r = st.and(r, f(st, aggSub(x, l.foff[i], l.fields[i]), aggSub(y, l.foff[i], l.fields[i])))
			}
			return r
		}
	case *types.Array:
		l := layoutOf(t)
		f := eqFunc(u.Elem())
		if f == nil {
			return nil
		}
		return func(st *State, a, b Value) Value {
			x, y := a.(Agg), b.(Agg)
			var r Value = true
			for i := 0; i < l.alen; i++ {
				r = st.and(r, f(st, aggSub(x, i*l.elem.n, l.elem), aggSub(y, i*l.elem.n, l.elem)))
			}
			return r
		}
	}
	return nil
}

func (st *State) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return normT(st.tt.BAnd(a.(*Term), b.(*Term)))
}

func (st *State) or(a, b Value) Value { return st.not(st.and(st.not(a), st.not(b))) }

// Pointers as integers: object number and byte offset. Within arrays of scalars
// integer arithmetic works as in memory; elsewhere only identity matters.
func (st *State) ptrToInt(v Value) Value {
	switch p := v.(type) {
	case Ptr:
		u := uint64(p.o.id)<<32 | uint64(p.off*p.o.scalarSize())
		st.ptrs[uint64(p.o.id)<<32] = Ptr{p.o, 0}
		return u
	}
	unsup("uintptr of %T", v)
	return nil
}

// scalarSize is the size of the elements of an array of scalars, 1 for others.
func (o *Obj) scalarSize() int {
	l := o.t
	for l.elem != nil {
		l = l.elem
	}
	if l.agg {
		return 1
	}
	if w, _, ok := intInfo(l.t); ok {
		return int(w) / 8
	}
	switch l.t.Underlying().(type) {
	case *types.Pointer:
		return 8
	}
	return 1
}

func (st *State) intToPtr(v Value) Value {
	u, ok := v.(uint64)
	if !ok {
		unsup("symbolic uintptr to pointer")
	}
	if u == 0 {
		return Ptr{}
	}
	if p, ok := st.ptrs[u&^0xffffffff]; ok {
		off, sz := int(u&0xffffffff), p.o.scalarSize()
		if off%sz == 0 && off/sz < p.o.n {
			return Ptr{p.o, off / sz}
		}
		rtPanic("", "out-of-bounds memory access (integer to pointer)")
	}
	unsup("integer %#x to pointer", u)
	return nil
}

// fmtValue renders a value for traces and messages.
func (st *State) fmtValue(v Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case uint64:
		return fmt.Sprint(int64(v))
	case bool:
		return fmt.Sprint(v)
	case string:
		return v
	case *SymStr:
		var sb strings.Builder
		for _, x := range v.b {
			switch x := x.(type) {
			case uint64:
				sb.WriteByte(byte(x))
			case *Term:
				sb.WriteByte(byte(st.eval(x)))
			}
		}
		return sb.String()
	case *Term:
		return fmt.Sprint(st.eval(v))
	case Iface:
		if v.t == nil {
			return "<nil>"
		}
		return fmt.Sprintf("%s(%s)", v.t.str, st.fmtValue(v.v))
	case Ptr:
		if v.o == nil {
			return "nil"
		}
		return fmt.Sprintf("&obj%d+%d", v.o.id, v.off)
	case Agg:
		var p []string
		for _, x := range v {
			p = append(p, st.fmtValue(x))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Slice:
		var p []string
		for i := 0; i < v.len && i < 16; i++ {
			p = append(p, st.fmtValue(v.o.get(v.off+i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprintf("%T", v)
}

var _ = sort.Strings
