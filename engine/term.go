package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms: hash-consed bit-vector / boolean expressions (w==0 means Bool).

type Op uint8

const (
	OConst Op = iota // bv or bool constant
	OVar
	ONot // bitwise not
	OAnd
	OOr
	OXor
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // v = hi<<8|lo
	OZExt
	OSExt
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
)

type Term struct {
	op      Op
	w       uint8 // 0 = Bool
	a, b, c *Term
	v       uint64
	name    string
	id      int
	kz, ko  uint64 // known zero / one bits
	vars    []int  // sorted ids of variables occurring
	h1, h2  uint64 // structural hash, the same in every term table
}

func (t *Term) after(o *Term) bool {
	if t.h1 != o.h1 {
		return t.h1 > o.h1
	}
	return t.h2 > o.h2
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h ^= h >> 30
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 27
	h *= 0x94d049bb133111eb
	return h ^ h>>31
}

func (t *Term) hash() {
	a, b := uint64(t.op)<<8|uint64(t.w), ^(uint64(t.op)<<8 | uint64(t.w))
	add := func(x, y uint64) { a, b = mix(a, x), mix(b, y+0x1234567) }
	add(t.v, t.v)
	for i := 0; i < len(t.name); i++ {
		add(uint64(t.name[i]), uint64(t.name[i]))
	}
	for i, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			add(x.h1+uint64(i), x.h2+uint64(i))
		} else {
			add(uint64(i), uint64(i))
		}
	}
	t.h1, t.h2 = a, b
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int
	v       uint64
	name    string
}

type TermTab struct {
	m    map[termKey]*Term
	all  []*Term
	T, F *Term
}

func newTermTab() *TermTab {
	tt := &TermTab{m: map[termKey]*Term{}}
	tt.F = tt.mk(OConst, 0, nil, nil, nil, 0, "")
	tt.T = tt.mk(OConst, 0, nil, nil, nil, 1, "")
	return tt
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func mergeVars(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// fast path: equal
	if len(a) == len(b) {
		eq := true
		for i := range a {
			if a[i] != b[i] {
				eq = false
				break
			}
		}
		if eq {
			return a
		}
	}
	r := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	return append(r, b[j:]...)
}

func (tt *TermTab) mk(op Op, w uint8, a, b, c *Term, v uint64, name string) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), v, name}
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, v: v, name: name, id: len(tt.all)}
	if op == OVar {
		t.vars = []int{t.id}
	} else {
		for _, x := range []*Term{a, b, c} {
			if x != nil {
				t.vars = mergeVars(t.vars, x.vars)
			}
		}
	}
	t.known()
	t.hash()
	tt.m[k] = t
	tt.all = append(tt.all, t)
	return t
}

func (t *Term) known() {
	if t.w == 0 {
		return
	}
	m := mask(t.w)
	switch t.op {
	case OConst:
		t.ko, t.kz = t.v&m, ^t.v&m
	case ONot:
		t.ko, t.kz = t.a.kz, t.a.ko
	case OAnd:
		t.ko, t.kz = t.a.ko&t.b.ko, t.a.kz|t.b.kz
	case OOr:
		t.ko, t.kz = t.a.ko|t.b.ko, t.a.kz&t.b.kz
	case OXor:
		k := (t.a.ko | t.a.kz) & (t.b.ko | t.b.kz)
		t.ko = (t.a.ko ^ t.b.ko) & k
		t.kz = ^(t.a.ko ^ t.b.ko) & k
	case OZExt:
		t.ko = t.a.ko
		t.kz = t.a.kz | (m &^ mask(t.a.w))
	case OExtract:
		lo := t.v & 0xff
		t.ko = (t.a.ko >> lo) & m
		t.kz = (t.a.kz >> lo) & m
	case OConcat:
		t.ko = t.a.ko<<t.b.w | t.b.ko
		t.kz = t.a.kz<<t.b.w | t.b.kz
	case OIte:
		t.ko, t.kz = t.b.ko&t.c.ko, t.b.kz&t.c.kz
	case OShl:
		if t.b.op == OConst && t.b.v < uint64(t.w) {
			t.ko = (t.a.ko << t.b.v) & m
			t.kz = ((t.a.kz << t.b.v) | mask(uint8(t.b.v))) & m
		}
	case OLShr:
		if t.b.op == OConst && t.b.v < uint64(t.w) {
			t.ko = t.a.ko >> t.b.v
			t.kz = (t.a.kz >> t.b.v) | (m &^ (m >> t.b.v))
		}
	}
}

func (tt *TermTab) Const(w uint8, v uint64) *Term {
	return tt.mk(OConst, w, nil, nil, nil, v&mask(w), "")
}
func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.T
	}
	return tt.F
}
func (tt *TermTab) Var(w uint8, name string) *Term { return tt.mk(OVar, w, nil, nil, nil, 0, name) }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

// evalBin computes a binary bv op on constants.
func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		if y == 0 {
			if sext(x, w) < 0 {
				return 1
			}
			return m
		}
		if sext(y, w) == -1 {
			return (-x) & m
		}
		return uint64(sext(x, w)/sext(y, w)) & m
	case OSRem:
		if y == 0 {
			return x
		}
		if sext(y, w) == -1 {
			return 0
		}
		return uint64(sext(x, w)%sext(y, w)) & m
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("evalBin")
}

func evalCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OEq:
		return x == y
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sext(x, w) < sext(y, w)
	case OSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("evalCmp")
}

func (tt *TermTab) Not(a *Term) *Term {
	if a.op == OConst {
		return tt.Const(a.w, ^a.v)
	}
	if a.op == ONot {
		return a.a
	}
	return tt.mk(ONot, a.w, a, nil, nil, 0, "")
}

func (tt *TermTab) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d op %d", a.w, b.w, op))
	}
	w := a.w
	if a.op == OConst && b.op == OConst {
		return tt.Const(w, evalBin(op, w, a.v, b.v))
	}
	comm := op == OAnd || op == OOr || op == OXor || op == OAdd || op == OMul
	if comm && (a.op == OConst || (b.op != OConst && a.after(b))) {
		a, b = b, a
	}
	m := mask(w)
	switch op {
	case OAnd:
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.v == 0 {
				return b
			}
			if b.v == m {
				return a
			}
			if ^a.kz&m&^b.v == 0 { // all possibly-one bits retained
				return a
			}
			if a.op == OAnd && a.b.op == OConst {
				return tt.Bin(OAnd, a.a, tt.Const(w, a.b.v&b.v))
			}
			if a.op == OOr && a.b.op == OConst {
				return tt.Bin(OOr, tt.Bin(OAnd, a.a, b), tt.Const(w, a.b.v&b.v))
			}
		}
	case OOr:
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.v == 0 {
				return a
			}
			if b.v == m {
				return b
			}
			if b.v&^a.ko == 0 {
				return a
			}
			if a.op == OOr && a.b.op == OConst {
				return tt.Bin(OOr, a.a, tt.Const(w, a.b.v|b.v))
			}
		}
	case OXor:
		if a == b {
			return tt.Const(w, 0)
		}
		if b.op == OConst {
			if b.v == 0 {
				return a
			}
			if b.v == m {
				return tt.Not(a)
			}
			if a.op == OXor && a.b.op == OConst {
				return tt.Bin(OXor, a.a, tt.Const(w, a.b.v^b.v))
			}
		}
	case OAdd:
		if b.op == OConst {
			if b.v == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return tt.Bin(OAdd, a.a, tt.Const(w, a.b.v+b.v))
			}
		}
	case OSub:
		if a == b {
			return tt.Const(w, 0)
		}
		if b.op == OConst {
			return tt.Bin(OAdd, a, tt.Const(w, -b.v))
		}
	case OMul:
		if b.op == OConst {
			if b.v == 0 {
				return b
			}
			if b.v == 1 {
				return a
			}
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst && b.v == 0 {
			return a
		}
		if b.op == OConst && b.v >= uint64(w) && op != OAShr {
			return tt.Const(w, 0)
		}
	}
	t := tt.mk(op, w, a, b, nil, 0, "")
	if (t.kz|t.ko)&m == m {
		return tt.Const(w, t.ko)
	}
	return t
}

func (tt *TermTab) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch in cmp %d %d", a.w, b.w))
	}
	w := a.w
	if a.op == OConst && b.op == OConst {
		if w == 0 {
			return tt.Bool(a.v == b.v)
		}
		return tt.Bool(evalCmp(op, w, a.v, b.v))
	}
	if op == OEq {
		if a == b {
			return tt.T
		}
		if a.op == OConst || (b.op != OConst && a.after(b)) {
			a, b = b, a
		}
		if w == 0 {
			if b.op == OConst {
				if b.v == 1 {
					return a
				}
				return tt.BNot(a)
			}
		} else {
			if a.ko&b.kz != 0 || a.kz&b.ko != 0 {
				return tt.F
			}
			if a.op == OIte && b.op == OConst && a.b.op == OConst && a.c.op == OConst {
				e1, e2 := a.b.v == b.v, a.c.v == b.v
				switch {
				case e1 && e2:
					return tt.T
				case e1:
					return a.a
				case e2:
					return tt.BNot(a.a)
				default:
					return tt.F
				}
			}
			// (zext x) == const
			if a.op == OZExt && b.op == OConst {
				if b.v&^mask(a.a.w) != 0 {
					return tt.F
				}
				return tt.Cmp(OEq, a.a, tt.Const(a.a.w, b.v))
			}
			// (x & c) | k == b : drop
		}
	} else {
		if a == b {
			return tt.Bool(op == OUle || op == OSle)
		}
		amin, amax := a.ko, ^a.kz&mask(w)
		bmin, bmax := b.ko, ^b.kz&mask(w)
		switch op {
		case OUlt:
			if amax < bmin {
				return tt.T
			}
			if amin >= bmax {
				return tt.F
			}
		case OUle:
			if amax <= bmin {
				return tt.T
			}
			if amin > bmax {
				return tt.F
			}
		}
	}
	return tt.mk(op, 0, a, b, nil, 0, "")
}

func (tt *TermTab) BNot(a *Term) *Term {
	if a.op == OConst {
		return tt.Bool(a.v == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, 0, a, nil, nil, 0, "")
}

func (tt *TermTab) BAnd(a, b *Term) *Term {
	if a == tt.F || b == tt.F {
		return tt.F
	}
	if a == tt.T {
		return b
	}
	if b == tt.T || a == b {
		return a
	}
	if tt.BNot(a) == b {
		return tt.F
	}
	if a.after(b) {
		a, b = b, a
	}
	return tt.mk(OBAnd, 0, a, b, nil, 0, "")
}

func (tt *TermTab) BOr(a, b *Term) *Term {
	if a == tt.T || b == tt.T {
		return tt.T
	}
	if a == tt.F {
		return b
	}
	if b == tt.F || a == b {
		return a
	}
	if tt.BNot(a) == b {
		return tt.T
	}
	if a.after(b) {
		a, b = b, a
	}
	return tt.mk(OBOr, 0, a, b, nil, 0, "")
}

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c == tt.T || a == b {
		return a
	}
	if c == tt.F {
		return b
	}
	if a.w == 0 {
		if a == tt.T && b == tt.F {
			return c
		}
		if a == tt.F && b == tt.T {
			return tt.BNot(c)
		}
		return tt.BOr(tt.BAnd(c, a), tt.BAnd(tt.BNot(c), b))
	}
	return tt.mk(OIte, a.w, c, a, b, 0, "")
}

func (tt *TermTab) Extract(hi, lo uint8, a *Term) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	w := hi - lo + 1
	if a.op == OConst {
		return tt.Const(w, a.v>>lo)
	}
	switch a.op {
	case OZExt:
		if hi < a.a.w {
			return tt.Extract(hi, lo, a.a)
		}
		if lo >= a.a.w {
			return tt.Const(w, 0)
		}
	case OConcat:
		if hi < a.b.w {
			return tt.Extract(hi, lo, a.b)
		}
		if lo >= a.b.w {
			return tt.Extract(hi-a.b.w, lo-a.b.w, a.a)
		}
	case OExtract:
		l0 := uint8(a.v & 0xff)
		return tt.Extract(hi+l0, lo+l0, a.a)
	}
	t := tt.mk(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo), "")
	if (t.kz|t.ko)&mask(w) == mask(w) {
		return tt.Const(w, t.ko)
	}
	return t
}

func (tt *TermTab) Concat(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return tt.Const(a.w+b.w, a.v<<b.w|b.v)
	}
	if a.op == OConst && a.v == 0 {
		return tt.ZExt(b, a.w+b.w)
	}
	// extract merge
	if a.op == OExtract && b.op == OExtract && a.a == b.a {
		alo, bhi := uint8(a.v&0xff), uint8(b.v>>8)
		if alo == bhi+1 {
			return tt.Extract(uint8(a.v>>8), uint8(b.v&0xff), a.a)
		}
	}
	return tt.mk(OConcat, a.w+b.w, a, b, nil, 0, "")
}

func (tt *TermTab) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return tt.Const(w, a.v)
	}
	if a.op == OZExt {
		a = a.a
	}
	return tt.mk(OZExt, w, a, nil, nil, 0, "")
}

func (tt *TermTab) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return tt.Const(w, uint64(sext(a.v, a.w)))
	}
	if a.kz>>(a.w-1)&1 == 1 { // sign bit known zero
		return tt.ZExt(a, w)
	}
	return tt.mk(OSExt, w, a, nil, nil, 0, "")
}

// Model maps variable names to values.
type Model map[string]uint64

func evalTerm(t *Term, m Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.v
	case OVar:
		return m[t.name] & maskB(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = ^evalTerm(t.a, m, memo) & mask(t.w)
	case OConcat:
		r = evalTerm(t.a, m, memo)<<t.b.w | evalTerm(t.b, m, memo)
	case OExtract:
		r = evalTerm(t.a, m, memo) >> (t.v & 0xff) & mask(t.w)
	case OZExt:
		r = evalTerm(t.a, m, memo)
	case OSExt:
		r = uint64(sext(evalTerm(t.a, m, memo), t.a.w)) & mask(t.w)
	case OIte:
		if evalTerm(t.a, m, memo) != 0 {
			r = evalTerm(t.b, m, memo)
		} else {
			r = evalTerm(t.c, m, memo)
		}
	case OEq:
		r = b2u(evalTerm(t.a, m, memo) == evalTerm(t.b, m, memo))
	case OUlt, OUle, OSlt, OSle:
		r = b2u(evalCmp(t.op, t.a.w, evalTerm(t.a, m, memo), evalTerm(t.b, m, memo)))
	case OBNot:
		r = 1 - evalTerm(t.a, m, memo)
	case OBAnd:
		r = evalTerm(t.a, m, memo) & evalTerm(t.b, m, memo)
	case OBOr:
		r = evalTerm(t.a, m, memo) | evalTerm(t.b, m, memo)
	default:
		r = evalBin(t.op, t.w, evalTerm(t.a, m, memo), evalTerm(t.b, m, memo))
	}
	memo[t] = r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

var opSMT = map[Op]string{ONot: "bvnot", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OConcat: "concat", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBNot: "not", OBAnd: "and", OBOr: "or", OIte: "ite"}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.v == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.v, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) sort() string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func (t *Term) body() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.v>>8, t.v&0xff, t.a.ref())
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opSMT[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.v == 1)
		}
		return fmt.Sprintf("0x%x", t.v)
	case OVar:
		return t.name
	case OExtract:
		return fmt.Sprintf("%v[%d:%d]", t.a, t.v>>8, t.v&0xff)
	case OZExt:
		return fmt.Sprintf("zx%d(%v)", t.w, t.a)
	case OSExt:
		return fmt.Sprintf("sx%d(%v)", t.w, t.a)
	}
	s := "(" + opSMT[t.op]
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}

var _ = bits.Len
