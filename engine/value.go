package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of:
//
//	uint64 | *Term           integers (zero-extended to 64 bits / bit-vector of the static width)
//	bool | *Term (w==0)      booleans
//	float64                  floats (concrete only)
//	string | *SymStr         strings (concrete length, possibly symbolic bytes)
//	Ptr | RPtr               pointers, unsafe.Pointer
//	Slice, *MapV, *ChanV, *Closure, Iface, Agg (struct/array), Tuple, *IterV
type Value interface{}

type Agg []Value   // flattened struct or array
type Tuple []Value // multiple results

type SymStr struct{ b []Value } // uint64 or *Term(8)

type Ptr struct {
	o   *Obj
	off int
}

// RPtr is a pointer into a byte array reinterpreted as another type.
type RPtr struct {
	o   *Obj
	off int // slot (byte) offset in o
	t   types.Type
}

type Slice struct {
	o        *Obj
	off      int
	len, cap int
}

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn   *Func
	free []Value
	// bound intrinsic (native) implementation
	native func(g *G, args []Value) Value
	name   string
}

// Obj is an allocated variable, flattened into slots.
type Obj struct {
	t     *Layout
	n     int
	vals  []Value
	pages map[int][]Value // sparse storage for large objects
	rep   int             // number of repetitions of t (make([]T,n)); 1 for plain variables
	id    int
	epoch int // 0: persistent (std package state), otherwise path-local
}

const pageSize = 64
const denseMax = 2048

func (o *Obj) get(i int) Value {
	if o.pages == nil {
		return o.vals[i]
	}
	p := o.pages[i/pageSize]
	if p == nil {
		return o.t.zeroAt(i % max(o.t.n, 1))
	}
	return p[i%pageSize]
}

func (o *Obj) set(i int, v Value) {
	if o.pages == nil {
		o.vals[i] = v
		return
	}
	p := o.pages[i/pageSize]
	if p == nil {
		p = make([]Value, pageSize)
		base := i / pageSize * pageSize
		for j := range p {
			if base+j < o.n {
				p[j] = o.t.zeroAt((base + j) % max(o.t.n, 1))
			}
		}
		o.pages[i/pageSize] = p
	}
	p[i%pageSize] = v
}

// Layout describes the flattened representation of a type.
type Layout struct {
	t     types.Type
	n     int
	zeros []Value // nil if too large
	// struct
	fields []*Layout
	foff   []int
	// array
	elem *Layout
	alen int
	agg  bool
}

func (l *Layout) zeroAt(i int) Value {
	if l.zeros != nil {
		return l.zeros[i]
	}
	if l.elem != nil {
		return l.elem.zeroAt(i % l.elem.n)
	}
	for k := len(l.fields) - 1; k >= 0; k-- {
		if l.foff[k] <= i && l.fields[k].n > 0 {
			return l.fields[k].zeroAt(i - l.foff[k])
		}
	}
	panic("zeroAt")
}

func (l *Layout) zero() Value {
	if !l.agg {
		return l.zeros[0]
	}
	a := make(Agg, l.n)
	for i := range a {
		a[i] = l.zeroAt(i)
	}
	return a
}

// RType is a canonical run-time type.
type RType struct {
	t   types.Type
	lay *Layout
	id  int
	str string
}

type typeTab struct {
	mu     sync.Mutex
	lays   typeutil.Map
	rts    typeutil.Map
	nrt    int
	hasher typeutil.Hasher
}

var tt typeTab

func layoutOf(t types.Type) *Layout {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	return tt.layout(t)
}

func (x *typeTab) layout(t types.Type) *Layout {
	if v := x.lays.At(t); v != nil {
		return v.(*Layout)
	}
	l := &Layout{t: t}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l.agg = true
		for i := 0; i < u.NumFields(); i++ {
			f := x.layout(u.Field(i).Type())
			l.fields = append(l.fields, f)
			l.foff = append(l.foff, l.n)
			l.n += f.n
		}
	case *types.Array:
		l.agg = true
		l.elem = x.layout(u.Elem())
		l.alen = int(u.Len())
		l.n = l.alen * l.elem.n
	case *types.Tuple:
		l.agg = true
		l.n = u.Len()
		l.zeros = make([]Value, l.n)
		for i := range l.zeros {
			l.zeros[i] = x.layout(u.At(i).Type()).zero()
		}
		x.lays.Set(t, l)
		return l
	default:
		l.n = 1
		l.zeros = []Value{zeroScalar(u)}
	}
	if l.agg && l.n <= denseMax {
		l.zeros = make([]Value, 0, l.n)
		if l.elem != nil {
			for i := 0; i < l.alen; i++ {
				l.zeros = append(l.zeros, l.elem.zeros...)
			}
		} else {
			for _, f := range l.fields {
				l.zeros = append(l.zeros, f.zeros...)
			}
		}
	}
	x.lays.Set(t, l)
	return l
}

func zeroScalar(u types.Type) Value {
	switch u := u.(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return Ptr{}
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	}
	return nil
}

func rtypeOf(t types.Type) *RType {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	if v := tt.rts.At(t); v != nil {
		return v.(*RType)
	}
	r := &RType{t: t, lay: tt.layout(t), id: tt.nrt, str: types.TypeString(t, func(p *types.Package) string { return p.Name() })}
	tt.nrt++
	tt.rts.Set(t, r)
	return r
}

// width of an integer type in bits; signed reports signedness.
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

// MapV is an insertion-ordered map.
type MapV struct {
	keys  []Value
	vals  []Value
	live  []bool
	n     int
	index map[interface{}]int // concrete keys only
	nsym  int                 // live symbolic keys
	id    int
	keyT  *Layout
	valT  *Layout
	t     types.Type
	epoch int
}

// concKey returns a comparable Go value for a fully concrete key.
func concKey(v Value) (interface{}, bool) {
	switch v := v.(type) {
	case *Term, *SymStr:
		return nil, false
	case Agg:
		var sb strings.Builder
		var ids []interface{}
		for _, e := range v {
			k, ok := concKey(e)
			if !ok {
				return nil, false
			}
			ids = append(ids, k)
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "agg:" + sb.String(), true
	case Iface:
		if v.t == nil {
			return Iface{}, true
		}
		k, ok := concKey(v.v)
		if !ok {
			return nil, false
		}
		return Iface{v.t, k}, true
	}
	return v, true
}

func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		r := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = uint64(v[i])
		}
		return r
	case *SymStr:
		return v.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

// mkStr normalises a byte list to a concrete string when possible.
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			return &SymStr{b: append([]Value(nil), b...)}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(uint64))
	}
	return string(r)
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
