package main

import (
	"fmt"
	"go/types"
	"strings"
)

type intrinsic func(g *G, fr *frame, args []Value) Value

var strType = types.Typ[types.String]

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

func callerPos(fr *frame) string {
	if fr == nil {
		return "?"
	}
	return fr.fn.name
}

func nop(g *G, fr *frame, a []Value) Value { return nil }

func ident(g *G, fr *frame, a []Value) Value { return a[0] }

var intrinsics map[string]intrinsic

func init() {
	lockI := func(write bool) intrinsic {
		return func(g *G, fr *frame, a []Value) Value { g.lock(a[0].(Ptr), write, callerPos(fr)); return nil }
	}
	unlockI := func(write bool) intrinsic {
		return func(g *G, fr *frame, a []Value) Value { g.unlock(a[0].(Ptr), write, callerPos(fr)); return nil }
	}
	tryI := func(write bool) intrinsic {
		return func(g *G, fr *frame, a []Value) Value { return g.tryLock(a[0].(Ptr), write) }
	}
	intrinsics = map[string]intrinsic{
		"(*sync.Mutex).Lock":       lockI(true),
		"(*sync.Mutex).Unlock":     unlockI(true),
		"(*sync.Mutex).TryLock":    tryI(true),
		"(*sync.RWMutex).Lock":     lockI(true),
		"(*sync.RWMutex).Unlock":   unlockI(true),
		"(*sync.RWMutex).RLock":    lockI(false),
		"(*sync.RWMutex).RUnlock":  unlockI(false),
		"(*sync.RWMutex).TryLock":  tryI(true),
		"(*sync.RWMutex).TryRLock": tryI(false),
		"(*sync.WaitGroup).Add": func(g *G, fr *frame, a []Value) Value {
			g.wgAdd(fr, a[0].(Ptr), g.st.concInt(a[1], 64), callerPos(fr))
			return nil
		},
		"(*sync.WaitGroup).Done": func(g *G, fr *frame, a []Value) Value {
			g.wgAdd(fr, a[0].(Ptr), -1, callerPos(fr))
			return nil
		},
		"(*sync.WaitGroup).Wait": func(g *G, fr *frame, a []Value) Value {
			g.wgWait(fr, a[0].(Ptr), callerPos(fr))
			return nil
		},
		"(*sync.WaitGroup).Go": func(g *G, fr *frame, a []Value) Value {
			p := a[0].(Ptr)
			f := a[1].(*Closure)
			g.wgAdd(fr, p, 1, callerPos(fr))
			cl := &Closure{name: f.name, native: func(g2 *G, _ []Value) Value {
				g2.callClosure(f, nil, nil, nil, "")
				g2.wgAdd(nil, p, -1, f.name)
				return nil
			}}
			g.st.spawn(g, &deferred{fn: cl}, callerPos(fr))
			return nil
		},
		"(*sync.Pool).Get": func(g *G, fr *frame, a []Value) Value {
			p := a[0].(Ptr)
			l := p.o.t
			nf := l.n - 1
			f, _ := p.o.get(p.off + nf).(*Closure)
			if f == nil {
				return Iface{}
			}
			return g.callClosure(f, nil, fr, nil, "")
		},
		"(*sync.Pool).Put":                          nop,
		"internal/abi.NoEscape":                     ident,
		"internal/abi.Escape":                       ident,
		"internal/race.Enable":                      nop,
		"internal/race.Disable":                     nop,
		"runtime.SetFinalizer":                      nop,
		"runtime.KeepAlive":                         nop,
		"runtime.GC":                                nop,
		"runtime.Callers":                           func(g *G, fr *frame, a []Value) Value { return uint64(0) },
		"runtime.Gosched":                           func(g *G, fr *frame, a []Value) Value { g.st.schedPoint(g, "gosched"); return nil },
		"runtime.LockOSThread":                      nop,
		"runtime.UnlockOSThread":                    nop,
		"runtime.FuncForPC":                         func(g *G, fr *frame, a []Value) Value { return Ptr{} },
		"internal/godebug.New":                      func(g *G, fr *frame, a []Value) Value { return Ptr{} },
		"(*internal/godebug.Setting).Value":         func(g *G, fr *frame, a []Value) Value { return "" },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"os.LookupEnv":                              func(g *G, fr *frame, a []Value) Value { return Tuple{"", false} },
		"os.Getenv":                                 func(g *G, fr *frame, a []Value) Value { return "" },
		"log.Print":                                 nop,
		"log.Println":                               nop,
		"log.Printf":                                nop,
		"log.SetOutput":                             nop,
		"log.SetFlags":                              nop,
		"internal/testlog.Open":                     nop,
		"internal/testlog.Stat":                     nop,
		"internal/testlog.Getenv":                   nop,
		"fmt.Sprintf":                               func(g *G, fr *frame, a []Value) Value { return g.sprintf(a[0], a[1].(Slice)) },
		"fmt.Sprint":                                func(g *G, fr *frame, a []Value) Value { return g.sprint(a[0].(Slice), "") },
		"fmt.Sprintln":                              func(g *G, fr *frame, a []Value) Value { return strConcat(g.sprint(a[0].(Slice), " "), "\n") },
		"fmt.Errorf":                                func(g *G, fr *frame, a []Value) Value { return g.errorf(a[0], a[1].(Slice)) },
		"fmt.Println":                               func(g *G, fr *frame, a []Value) Value { return Tuple{uint64(0), Iface{}} },
		"fmt.Printf":                                func(g *G, fr *frame, a []Value) Value { return Tuple{uint64(0), Iface{}} },
		"time.Sleep": func(g *G, fr *frame, a []Value) Value {
			g.sleepUntil(g.st.now+int64(g.st.concInt(a[0], 64)), callerPos(fr))
			return nil
		},
		"time.runtimeNow": func(g *G, fr *frame, a []Value) Value {
			return Tuple{uint64(1700000000 + g.st.now/1e9), uint64(g.st.now % 1e9), uint64(g.st.now + 1)}
		},
		"time.runtimeNano": func(g *G, fr *frame, a []Value) Value { return uint64(g.st.now + 1) },
		"time.newTimer": func(g *G, fr *frame, a []Value) Value {
			t := g.st.p.pkgs["time"].Pkg.Scope().Lookup("Timer").Type()
			p := Ptr{g.st.newObj(layoutOf(t), 1), 0}
			p.o.set(1, true) // initTimer
			ts := &timerState{f: a[2].(*Closure), arg: a[3]}
			if g.st.timerSt == nil {
				g.st.timerSt = map[Ptr]*timerState{}
			}
			g.st.timerSt[p] = ts
			g.startTimer(p, ts, int64(g.st.concInt(a[0], 64)), int64(g.st.concInt(a[1], 64)), callerPos(fr))
			return p
		},
		"time.runtimeIsBubbled": func(g *G, fr *frame, a []Value) Value { return false },
		"time.syncTimer": func(g *G, fr *frame, a []Value) Value { return Ptr{} },
		"time.stopTimer": func(g *G, fr *frame, a []Value) Value {
			ts := g.st.timerSt[a[0].(Ptr)]
			if ts == nil {
				return false
			}
			was := ts.active
			ts.active = false
			ts.gen++
			return was
		},
		"time.resetTimer": func(g *G, fr *frame, a []Value) Value {
			p := a[0].(Ptr)
			ts := g.st.timerSt[p]
			if ts == nil {
				unsup("reset of an unknown timer")
			}
			was := ts.active
			g.startTimer(p, ts, int64(g.st.concInt(a[1], 64)), int64(g.st.concInt(a[2], 64)), callerPos(fr))
			return was
		},
		"errors.Is":        errorsIs,
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"internal/bytealg.MakeNoZero": func(g *G, fr *frame, a []Value) Value {
			n := g.st.concInt(a[0], 64)
			return Slice{g.st.newObj(layoutOf(types.Typ[types.Uint8]), n), 0, n, n}
		},
		"internal/bytealg.IndexByte": func(g *G, fr *frame, a []Value) Value {
			return g.st.indexByte(sliceBytes(a[0].(Slice)), a[1], false)
		},
		"internal/bytealg.IndexByteString": func(g *G, fr *frame, a []Value) Value {
			return g.st.indexByte(strBytes(a[0]), a[1], false)
		},
		"internal/bytealg.LastIndexByte": func(g *G, fr *frame, a []Value) Value {
			return g.st.indexByte(sliceBytes(a[0].(Slice)), a[1], true)
		},
		"internal/bytealg.LastIndexByteString": func(g *G, fr *frame, a []Value) Value {
			return g.st.indexByte(strBytes(a[0]), a[1], true)
		},
		"internal/bytealg.CountString": func(g *G, fr *frame, a []Value) Value {
			return g.st.countByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.Count": func(g *G, fr *frame, a []Value) Value {
			return g.st.countByte(sliceBytes(a[0].(Slice)), a[1])
		},
		"internal/bytealg.Equal": func(g *G, fr *frame, a []Value) Value {
			return g.st.strEq(mkStr(sliceBytes(a[0].(Slice))), mkStr(sliceBytes(a[1].(Slice))))
		},
		"bytes.Equal": func(g *G, fr *frame, a []Value) Value {
			return g.st.strEq(mkStr(sliceBytes(a[0].(Slice))), mkStr(sliceBytes(a[1].(Slice))))
		},
		"internal/bytealg.Compare": func(g *G, fr *frame, a []Value) Value {
			return uint64(int64(g.st.strCmp(mkStr(sliceBytes(a[0].(Slice))), mkStr(sliceBytes(a[1].(Slice))))))
		},
		"internal/bytealg.CompareString": func(g *G, fr *frame, a []Value) Value {
			return uint64(int64(sign(g.st.strCmp(a[0], a[1]))))
		},
		"internal/bytealg.IndexString": func(g *G, fr *frame, a []Value) Value {
			return uint64(int64(g.st.indexStr(strBytes(a[0]), strBytes(a[1]))))
		},
		"internal/bytealg.Index": func(g *G, fr *frame, a []Value) Value {
			return uint64(int64(g.st.indexStr(sliceBytes(a[0].(Slice)), sliceBytes(a[1].(Slice)))))
		},
		"internal/stringslite.Clone": ident,
		"strings.Clone":              ident,
	}
	for _, w := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		w := w
		for _, pre := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			intrinsics[pre+"Load"+w.n] = func(g *G, fr *frame, a []Value) Value {
				p := a[0].(Ptr)
				g.atomicOp(fr, p, false, callerPos(fr))
				return p.o.get(p.off)
			}
			intrinsics[pre+"Store"+w.n] = func(g *G, fr *frame, a []Value) Value {
				p := a[0].(Ptr)
				g.atomicOp(fr, p, true, callerPos(fr))
				p.o.set(p.off, a[1])
				return nil
			}
			intrinsics[pre+"Swap"+w.n] = func(g *G, fr *frame, a []Value) Value {
				p := a[0].(Ptr)
				g.atomicOp(fr, p, true, callerPos(fr))
				v := p.o.get(p.off)
				p.o.set(p.off, a[1])
				return v
			}
			intrinsics[pre+"CompareAndSwap"+w.n] = func(g *G, fr *frame, a []Value) Value {
				p := a[0].(Ptr)
				g.atomicOp(fr, p, true, callerPos(fr))
				var eq Value
				if w.w == 0 {
					eq = p.o.get(p.off) == a[1]
				} else {
					eq = g.st.eqInt(p.o.get(p.off), a[1], w.w)
				}
				if g.st.truth(eq) {
					p.o.set(p.off, a[2])
					return true
				}
				return false
			}
			if w.w != 0 {
				intrinsics[pre+"Add"+w.n] = func(g *G, fr *frame, a []Value) Value {
					p := a[0].(Ptr)
					g.atomicOp(fr, p, true, callerPos(fr))
					v := g.st.arith(OAdd, w.w, p.o.get(p.off), a[1])
					p.o.set(p.off, v)
					return v
				}
				intrinsics[pre+"And"+w.n] = func(g *G, fr *frame, a []Value) Value {
					p := a[0].(Ptr)
					g.atomicOp(fr, p, true, callerPos(fr))
					v := p.o.get(p.off)
					p.o.set(p.off, g.st.arith(OAnd, w.w, v, a[1]))
					return v
				}
				intrinsics[pre+"Or"+w.n] = func(g *G, fr *frame, a []Value) Value {
					p := a[0].(Ptr)
					g.atomicOp(fr, p, true, callerPos(fr))
					v := p.o.get(p.off)
					p.o.set(p.off, g.st.arith(OOr, w.w, v, a[1]))
					return v
				}
			}
		}
	}
	// atomic.Value and Once are interpreted from source except for their runtime hooks
	intrinsics["(*sync/atomic.Value).Load"] = func(g *G, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		g.atomicOp(fr, p, false, callerPos(fr))
		return p.o.get(p.off)
	}
	intrinsics["(*sync/atomic.Value).Store"] = func(g *G, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		g.atomicOp(fr, p, true, callerPos(fr))
		p.o.set(p.off, a[1])
		return nil
	}
}

func sign(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

func sliceBytes(s Slice) []Value {
	r := make([]Value, s.len)
	for i := range r {
		r[i] = s.o.get(s.off + i)
	}
	return r
}

func (st *State) indexByte(b []Value, c Value, last bool) Value {
	for k := range b {
		i := k
		if last {
			i = len(b) - 1 - k
		}
		if st.truth(st.eqInt(b[i], c, 8)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (st *State) countByte(b []Value, c Value) Value {
	n := 0
	for i := range b {
		if st.truth(st.eqInt(b[i], c, 8)) {
			n++
		}
	}
	return uint64(n)
}

func (st *State) indexStr(s, sub []Value) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if st.truth(st.strEq(mkStr(s[i:i+len(sub)]), mkStr(sub))) {
			return i
		}
	}
	return -1
}

// ---- errors and formatting

func (g *G) callMethod(v Iface, name string, args ...Value) Value {
	fn := g.st.p.findMethod(v.t, nil, name)
	return g.call(fn, append([]Value{v.v}, args...), nil, nil, nil)
}

func errorsIs(g *G, fr *frame, a []Value) Value {
	err, target := a[0].(Iface), a[1].(Iface)
	if err.t == nil || target.t == nil {
		return err.t == target.t
	}
	eq := eqFunc(types.NewInterfaceType(nil, nil))
	for n := 0; err.t != nil && n < 20; n++ {
		if _, ok := err.t.t.Underlying().(*types.Struct); !ok || err.t == target.t {
			if g.st.truth(eq(g.st, err, target)) {
				return true
			}
		}
		if g.st.p.hasMethod(err.t, "Is") {
			if g.st.truth(g.callMethod(err, "Is", target)) {
				return true
			}
		}
		if !g.st.p.hasMethod(err.t, "Unwrap") {
			return false
		}
		u := g.callMethod(err, "Unwrap")
		switch u := u.(type) {
		case Iface:
			err = u
		case Slice:
			for i := 0; i < u.len; i++ {
				if errorsIs(g, fr, []Value{u.o.get(u.off + i), target}).(bool) {
					return true
				}
			}
			return false
		}
	}
	return false
}

func sortSlice(g *G, fr *frame, a []Value) Value {
	sl := a[0].(Iface)
	s := sl.v.(Slice)
	en := layoutOf(sl.t.t.Underlying().(*types.Slice).Elem()).n
	less := a[1].(*Closure)
	// insertion sort (stable)
	for i := 1; i < s.len; i++ {
		for j := i; j > 0; j-- {
			if !g.st.truth(g.callClosure(less, []Value{uint64(j), uint64(j - 1)}, fr, nil, "sort")) {
				break
			}
			for k := 0; k < en; k++ {
				x, y := s.o.get(s.off+j*en+k), s.o.get(s.off+(j-1)*en+k)
				s.o.set(s.off+j*en+k, y)
				s.o.set(s.off+(j-1)*en+k, x)
			}
		}
	}
	return nil
}

func (g *G) fmtArg(v Iface, verb byte) Value {
	if v.t == nil {
		return "<nil>"
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if types.Implements(v.t.t, errorIface) {
			if p, ok := v.v.(Ptr); !ok || p.o != nil {
				return g.callMethod(v, "Error")
			}
		}
		if g.st.p.hasMethod(v.t, "String") {
			if p, ok := v.v.(Ptr); !ok || p.o != nil {
				if !isTermVal(v.v) {
					return g.callMethod(v, "String")
				}
			}
		}
	}
	switch x := v.v.(type) {
	case string, *SymStr:
		if verb == 'q' {
			return strConcat(strConcat("\"", x), "\"")
		}
		return x
	case uint64:
		w, signed, _ := intInfo(v.t.t)
		switch verb {
		case 'x':
			return fmt.Sprintf("%x", x)
		case 'c':
			return string(rune(x))
		}
		if signed {
			return fmt.Sprint(sext(x, w))
		}
		return fmt.Sprint(x)
	case bool:
		return fmt.Sprint(x)
	case *Term:
		return "<sym>"
	}
	return "<" + v.t.str + ">"
}

func isTermVal(v Value) bool { _, ok := v.(*Term); return ok }

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (g *G) sprintf(f Value, args Slice) Value {
	format := g.st.concStr(f)
	var out Value = ""
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out = strConcat(out, string(c))
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			out = strConcat(out, "%")
			continue
		}
		if n < args.len {
			out = strConcat(out, g.fmtArg(args.o.get(args.off+n).(Iface), format[i]))
		}
		n++
	}
	return out
}

func (g *G) sprint(args Slice, sep string) Value {
	var out Value = ""
	for i := 0; i < args.len; i++ {
		if i > 0 {
			out = strConcat(out, sep)
		}
		out = strConcat(out, g.fmtArg(args.o.get(args.off+i).(Iface), 'v'))
	}
	return out
}

func (g *G) errorf(f Value, args Slice) Value {
	s := g.sprintf(f, args)
	fp := g.st.p.pkgs["fmt"]
	format := g.st.concStr(f)
	if fp != nil && strings.Contains(format, "%w") {
		var w Iface
		for i := 0; i < args.len; i++ {
			v := args.o.get(args.off + i).(Iface)
			if v.t != nil && types.Implements(v.t.t, errorIface) {
				w = v
			}
		}
		t := fp.Pkg.Scope().Lookup("wrapError").Type()
		o := g.st.newObj(layoutOf(t), 1)
		o.set(0, s)
		o.set(1, w)
		return Iface{rtypeOf(types.NewPointer(t)), Ptr{o, 0}}
	}
	ep := g.st.p.pkgs["errors"]
	t := ep.Pkg.Scope().Lookup("errorString").Type()
	o := g.st.newObj(layoutOf(t), 1)
	o.set(0, s)
	return Iface{rtypeOf(types.NewPointer(t)), Ptr{o, 0}}
}
