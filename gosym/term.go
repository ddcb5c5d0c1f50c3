package main

// Hash-consed bit-vector / boolean terms with local simplification, unsigned
// interval information and concrete evaluation under a model.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OEq  // bool result, any sort
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // k = low bit; width = w
	OZext
	OSext
)

var opSMT = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv",
	OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr",
	OAshr: "bvashr", OConcat: "concat",
}

// Term is an immutable node. w==0 means Bool.
type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	name    string
	id      int32
	lo, hi  uint64 // unsigned interval containing every value of the term
	vars    []int32
	ev      uint64
	evGen   uint32
	emitted uint32 // solver generation it was emitted to
	lin     *linForm
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type TermTable struct {
	m       map[tkey]*Term
	xorMemo map[[2]int32]*Term
	vars    map[string]*Term
	varList []*Term
	n       int32
	T, F    *Term
	// evaluation
	gen   uint32
	model []uint64 // by var index
}

func NewTermTable() *TermTable {
	tt := &TermTable{m: map[tkey]*Term{}, xorMemo: map[[2]int32]*Term{}, vars: map[string]*Term{}, gen: 1}
	tt.T = tt.Const(0, 1)
	tt.F = tt.Const(0, 0)
	return tt
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w == 0 {
		return int64(v & 1)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func unionVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) < len(b) {
		a, b = b, a
	}
	// subset test
	i, sub := 0, true
	for _, x := range b {
		for i < len(a) && a[i] < x {
			i++
		}
		if i >= len(a) || a[i] != x {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

func (tt *TermTable) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := tt.m[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: tt.n}
	tt.n++
	if a != nil {
		t.vars = a.vars
	}
	if b != nil {
		t.vars = unionVars(t.vars, b.vars)
	}
	if c != nil {
		t.vars = unionVars(t.vars, c.vars)
	}
	t.setRange()
	tt.m[key] = t
	return t
}

func (tt *TermTable) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	return tt.mk(OConst, w, nil, nil, nil, v)
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.T
	}
	return tt.F
}

func (tt *TermTable) Var(name string, w uint8) *Term { return tt.VarMax(name, w, mask(w)) }

// VarMax is a variable whose values the caller constrains to be at most hi.
func (tt *TermTable) VarMax(name string, w uint8, hi uint64) *Term {
	key := fmt.Sprintf("%s/%d/%d", name, w, hi)
	if t, ok := tt.vars[key]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: tt.n, k: uint64(len(tt.varList)), hi: hi}
	tt.n++
	t.vars = []int32{int32(len(tt.varList))}
	tt.varList = append(tt.varList, t)
	tt.model = append(tt.model, 0)
	tt.vars[key] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

func (t *Term) setRange() {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OIte:
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	case OZext:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OSext:
		if t.a.hi < uint64(1)<<(t.a.w-1) {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OExtract:
		if t.k == 0 && t.a.hi <= m {
			t.lo, t.hi = t.a.lo, t.a.hi
		} else if t.k > 0 {
			if x := t.a.hi >> t.k; x <= m {
				t.hi = x
				t.lo = t.a.lo >> t.k
			}
		}
	case OConcat:
		t.lo = t.a.lo<<t.b.w | t.b.lo
		t.hi = t.a.hi<<t.b.w | t.b.hi
	case OAdd:
		s1, c1 := bits.Add64(t.a.hi, t.b.hi, 0)
		if c1 == 0 && s1 <= m {
			t.lo, t.hi = t.a.lo+t.b.lo, s1
		} else if neg := -t.b.k & m; t.b.isConst() && t.a.lo >= neg {
			t.lo, t.hi = t.a.lo-neg, t.a.hi-neg
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OUDiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OURem:
		if t.b.lo > 0 {
			t.hi = min(t.a.hi, t.b.hi-1)
		} else {
			t.hi = m
		}
	case OSDiv:
		// non-negative operands only
		sb := uint64(1) << (t.w - 1)
		if t.a.hi < sb && t.b.hi < sb && t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OSRem:
		sb := uint64(1) << (t.w - 1)
		if t.a.hi < sb && t.b.hi < sb && t.b.lo > 0 {
			t.hi = min(t.a.hi, t.b.hi-1)
		}
	case OBAnd:
		t.hi = min(t.a.hi, t.b.hi)
	case OBOr:
		t.lo = max(t.a.lo, t.b.lo)
		t.hi = fill(t.a.hi | t.b.hi)
	case OBXor:
		t.hi = fill(t.a.hi | t.b.hi)
	case OShl:
		if t.b.isConst() && t.b.k < 64 {
			if t.a.hi <= m>>t.b.k {
				t.lo, t.hi = t.a.lo<<t.b.k, t.a.hi<<t.b.k
			}
		}
	case OLshr:
		if t.b.isConst() && t.b.k < 64 {
			t.lo, t.hi = t.a.lo>>t.b.k, t.a.hi>>t.b.k
		} else {
			t.hi = t.a.hi
		}
	case OAshr:
		if t.a.hi < uint64(1)<<(t.w-1) {
			t.hi = t.a.hi
			if t.b.isConst() && t.b.k < 64 {
				t.lo, t.hi = t.a.lo>>t.b.k, t.a.hi>>t.b.k
			}
		}
	}
}

func fill(x uint64) uint64 {
	if x == 0 {
		return 0
	}
	n := bits.Len64(x)
	if n == 64 {
		return ^uint64(0)
	}
	return uint64(1)<<n - 1
}

// evalOp computes an operator on concrete operands.
func evalOp(op Op, w uint8, aw, bw uint8, a, b, c, k uint64) uint64 {
	m := mask(w)
	bb := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case ONot:
		return a ^ 1
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OEq:
		return bb(a == b)
	case OUlt:
		return bb(a < b)
	case OUle:
		return bb(a <= b)
	case OSlt:
		return bb(sext64(a, aw) < sext64(b, aw))
	case OSle:
		return bb(sext64(a, aw) <= sext64(b, aw))
	case OIte:
		if a != 0 {
			return b
		}
		return c
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OBNot:
		return ^a & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := sext64(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	case OConcat:
		return (a<<bw | b) & m
	case OExtract:
		return (a >> k) & m
	case OZext:
		return a
	case OSext:
		return uint64(sext64(a, aw)) & m
	}
	panic("evalOp")
}

func (tt *TermTable) bin(op Op, w uint8, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Const(w, evalOp(op, w, a.w, b.w, a.k, b.k, 0, 0))
	}
	return tt.mk(op, w, a, b, nil, 0)
}

// ---- boolean ----

func (tt *TermTable) Not(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	switch a.op {
	case OUlt:
		return tt.Ule(a.b, a.a)
	case OUle:
		return tt.Ult(a.b, a.a)
	case OSlt:
		return tt.Sle(a.b, a.a)
	case OSle:
		return tt.Slt(a.b, a.a)
	}
	return tt.mk(ONot, 0, a, nil, nil, 0)
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return tt.F
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tt.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, 0, a, b, nil, 0)
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return tt.T
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tt.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, 0, a, b, nil, 0)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tt.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return tt.Not(c)
		}
		if a.isTrue() {
			return tt.Or(c, b)
		}
		if a.isFalse() {
			return tt.And(tt.Not(c), b)
		}
		if b.isTrue() {
			return tt.Or(tt.Not(c), a)
		}
		if b.isFalse() {
			return tt.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	return tt.mk(OIte, a.w, c, a, b, 0)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return tt.Not(b)
		}
		if b.isFalse() {
			return tt.Not(a)
		}
	}
	if a.hi < b.lo || b.hi < a.lo {
		return tt.F
	}
	if a.isConst() {
		a, b = b, a
	}
	if x, y, ok := tt.cancelEq(a, b); ok {
		return tt.Eq(x, y)
	}
	if a.w >= 8 && max(xorLeaves(a, xorMin), xorLeaves(b, xorMin)) >= xorMin {
		return tt.xorEq(a, b)
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.k > mask(a.a.w) {
				return tt.F
			}
			return tt.Eq(a.a, tt.Const(a.a.w, b.k))
		case OSext:
			x := b.k & mask(a.a.w)
			if uint64(sext64(x, a.a.w))&mask(a.w) != b.k {
				return tt.F
			}
			return tt.Eq(a.a, tt.Const(a.a.w, x))
		case OAdd:
			if a.b.isConst() {
				return tt.Eq(a.a, tt.Const(a.w, b.k-a.b.k))
			}
		case OBXor:
			if a.b.isConst() {
				return tt.Eq(a.a, tt.Const(a.w, b.k^a.b.k))
			}
		case OBNot:
			return tt.Eq(a.a, tt.Const(a.w, ^b.k))
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				x, y := tt.Eq(a.b, b), tt.Eq(a.c, b)
				if x.isConst() || y.isConst() {
					return tt.Ite(a.a, x, y)
				}
			}
		case OConcat:
			return tt.And(tt.Eq(a.a, tt.Const(a.a.w, b.k>>a.b.w)), tt.Eq(a.b, tt.Const(a.b.w, b.k)))
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		}
		if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		}
		if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
			return tt.And(tt.Eq(a.a, b.a), tt.Eq(a.b, b.b))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, 0, a, b, nil, 0)
}

func (tt *TermTable) Ult(a, b *Term) *Term {
	if a == b {
		return tt.F
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.k < b.k)
	}
	if a.hi < b.lo {
		return tt.T
	}
	if a.lo >= b.hi {
		return tt.F
	}
	if b.isConst() && b.k == 1 {
		return tt.Eq(a, tt.Const(a.w, 0))
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tt.Ult(a.a, b.a)
	}
	if a.op == OZext && b.isConst() && b.k <= mask(a.a.w) {
		return tt.Ult(a.a, tt.Const(a.a.w, b.k))
	}
	if b.op == OZext && a.isConst() && a.k <= mask(b.a.w) {
		return tt.Ult(tt.Const(b.a.w, a.k), b.a)
	}
	if x, y, ok := tt.cancelLt(a, b); ok {
		return tt.Ult(x, y)
	}
	return tt.mk(OUlt, 0, a, b, nil, 0)
}

func (tt *TermTable) Ule(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.k <= b.k)
	}
	if a.hi <= b.lo {
		return tt.T
	}
	if a.lo > b.hi {
		return tt.F
	}
	if b.isConst() && b.k == 0 {
		return tt.Eq(a, b)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tt.Ule(a.a, b.a)
	}
	if a.op == OZext && b.isConst() && b.k <= mask(a.a.w) {
		return tt.Ule(a.a, tt.Const(a.a.w, b.k))
	}
	if b.op == OZext && a.isConst() && a.k <= mask(b.a.w) {
		return tt.Ule(tt.Const(b.a.w, a.k), b.a)
	}
	if x, y, ok := tt.cancelLt(a, b); ok {
		return tt.Ule(x, y)
	}
	return tt.mk(OUle, 0, a, b, nil, 0)
}

func nonneg(t *Term) bool { return t.hi < uint64(1)<<(t.w-1) }
func isneg(t *Term) bool  { return t.lo >= uint64(1)<<(t.w-1) }

func (tt *TermTable) Slt(a, b *Term) *Term {
	if a == b {
		return tt.F
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return tt.Ult(a, b)
	}
	if isneg(a) && nonneg(b) {
		return tt.T
	}
	if nonneg(a) && isneg(b) {
		return tt.F
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return tt.Slt(a.a, b.a)
	}
	return tt.mk(OSlt, 0, a, b, nil, 0)
}

func (tt *TermTable) Sle(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(sext64(a.k, a.w) <= sext64(b.k, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return tt.Ule(a, b)
	}
	if isneg(a) && nonneg(b) {
		return tt.T
	}
	if nonneg(a) && isneg(b) {
		return tt.F
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return tt.Sle(a.a, b.a)
	}
	return tt.mk(OSle, 0, a, b, nil, 0)
}

// ---- arithmetic ----

// linForm is a sum of terms with coefficients, and a constant, modulo 2^w.
type linForm struct {
	at []linAtom // by term id, coefficients not zero
	k  uint64
}

type linAtom struct {
	t *Term
	c uint64
}

const maxLin = 24

func (tt *TermTable) linear(t *Term) *linForm {
	if t.lin != nil {
		return t.lin
	}
	var l *linForm
	switch t.op {
	case OConst:
		l = &linForm{k: t.k}
	case OAdd:
		l = linAdd(tt.linear(t.a), tt.linear(t.b), 1, t.w)
	case OSub:
		l = linAdd(tt.linear(t.a), tt.linear(t.b), mask(t.w), t.w)
	case OMul:
		if t.b.isConst() {
			l = &linForm{at: []linAtom{{t.a, t.b.k}}}
		}
	}
	if l == nil || len(l.at) > maxLin {
		l = &linForm{at: []linAtom{{t, 1}}}
	}
	t.lin = l
	return l
}

// linAdd is a + f*b.
func linAdd(a, b *linForm, f uint64, w uint8) *linForm {
	m := mask(w)
	r := &linForm{k: (a.k + f*b.k) & m, at: make([]linAtom, 0, len(a.at)+len(b.at))}
	i, j := 0, 0
	put := func(t *Term, c uint64) {
		if c &= m; c != 0 {
			r.at = append(r.at, linAtom{t, c})
		}
	}
	for i < len(a.at) || j < len(b.at) {
		switch {
		case j == len(b.at) || i < len(a.at) && a.at[i].t.id < b.at[j].t.id:
			put(a.at[i].t, a.at[i].c)
			i++
		case i == len(a.at) || b.at[j].t.id < a.at[i].t.id:
			put(b.at[j].t, f*b.at[j].c)
			j++
		default:
			put(a.at[i].t, a.at[i].c+f*b.at[j].c)
			i++
			j++
		}
	}
	return r
}

// fromLinear builds the canonical term of a linear form.
func (tt *TermTable) fromLinear(l *linForm, w uint8) *Term {
	if len(l.at) == 0 {
		return tt.Const(w, l.k)
	}
	var pos, neg *Term
	add := func(p **Term, t *Term) {
		if *p == nil {
			*p = t
		} else {
			*p = tt.mk(OAdd, w, *p, t, nil, 0)
		}
	}
	half := uint64(1) << (w - 1)
	for _, x := range l.at {
		if x.c < half || w == 1 {
			add(&pos, tt.mulConst(x.t, x.c))
		} else {
			add(&neg, tt.mulConst(x.t, -x.c&mask(w)))
		}
	}
	r := pos
	if neg != nil {
		if r == nil {
			r = tt.Const(w, 0)
		}
		r = tt.mk(OSub, w, r, neg, nil, 0)
	}
	if l.k != 0 {
		r = tt.mk(OAdd, w, r, tt.Const(w, l.k), nil, 0)
	}
	return r
}

// mulConst is c*t for a term that is no sum.
func (tt *TermTable) mulConst(t *Term, c uint64) *Term {
	if c == 1 {
		return t
	}
	return tt.mk(OMul, t.w, t, tt.Const(t.w, c), nil, 0)
}

func (tt *TermTable) addSub(a, b *Term, f uint64) *Term {
	w := a.w
	la, lb := tt.linear(a), tt.linear(b)
	if len(la.at)+len(lb.at) > maxLin {
		op := OAdd
		if f != 1 {
			op = OSub
		}
		return tt.bin(op, w, a, b)
	}
	return tt.fromLinear(linAdd(la, lb, f, w), w)
}

func (tt *TermTable) Add(a, b *Term) *Term {
	w := a.w
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return tt.Const(w, a.k+b.k)
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if a.op == OIte && a.b.isConst() && a.c.isConst() {
			return tt.Ite(a.a, tt.Const(w, a.b.k+b.k), tt.Const(w, a.c.k+b.k))
		}
	}
	return tt.addSub(a, b, 1)
}

func (tt *TermTable) Sub(a, b *Term) *Term {
	w := a.w
	if a == b {
		return tt.Const(w, 0)
	}
	if b.isConst() {
		return tt.Add(a, tt.Const(w, -b.k))
	}
	return tt.addSub(a, b, mask(w))
}

// noWrap reports whether the sum can be computed without wrapping around.
func (l *linForm) noWrap(w uint8) bool {
	s, m := l.k, mask(w)
	for _, x := range l.at {
		h, p := bits.Mul64(x.c, x.t.hi)
		if h != 0 || p > m {
			return false
		}
		n, c := bits.Add64(s, p, 0)
		if c != 0 || n > m {
			return false
		}
		s = n
	}
	return true
}

func isSum(t *Term) bool { return t.op == OAdd || t.op == OSub }

// cancelEq brings an equation of sums into a canonical form.
func (tt *TermTable) cancelEq(a, b *Term) (*Term, *Term, bool) {
	if a.w <= 1 || !isSum(a) && !isSum(b) {
		return a, b, false
	}
	w, m := a.w, mask(a.w)
	la, lb := tt.linear(a), tt.linear(b)
	if len(la.at)+len(lb.at) > maxLin {
		return a, b, false
	}
	d := linAdd(la, lb, m, w)
	half := uint64(1) << (w - 1)
	if len(d.at) > 0 && d.at[0].c >= half {
		d = linAdd(&linForm{}, d, m, w)
	}
	l, r := &linForm{}, &linForm{k: -d.k & m}
	for _, x := range d.at {
		if x.c < half {
			l.at = append(l.at, x)
		} else {
			r.at = append(r.at, linAtom{x.t, -x.c & m})
		}
	}
	x, y := tt.fromLinear(l, w), tt.fromLinear(r, w)
	if x == a && y == b || x == b && y == a {
		return a, b, false
	}
	return x, y, true
}

// cancelLt removes what two sums that do not wrap around have in common.
func (tt *TermTable) cancelLt(a, b *Term) (*Term, *Term, bool) {
	if !isSum(a) && !isSum(b) {
		return a, b, false
	}
	la, lb := tt.linear(a), tt.linear(b)
	if !la.noWrap(a.w) || !lb.noWrap(a.w) {
		return a, b, false
	}
	k := min(la.k, lb.k)
	ra, rb := &linForm{k: la.k - k}, &linForm{k: lb.k - k}
	common := k > 0
	i, j := 0, 0
	for i < len(la.at) || j < len(lb.at) {
		switch {
		case j == len(lb.at) || i < len(la.at) && la.at[i].t.id < lb.at[j].t.id:
			ra.at = append(ra.at, la.at[i])
			i++
		case i == len(la.at) || lb.at[j].t.id < la.at[i].t.id:
			rb.at = append(rb.at, lb.at[j])
			j++
		default:
			common = true
			x, y := la.at[i], lb.at[j]
			if x.c < y.c {
				rb.at = append(rb.at, linAtom{y.t, y.c - x.c})
			} else if x.c > y.c {
				ra.at = append(ra.at, linAtom{x.t, x.c - y.c})
			}
			i++
			j++
		}
	}
	if !common {
		return a, b, false
	}
	return tt.fromLinear(ra, a.w), tt.fromLinear(rb, a.w), true
}

func (tt *TermTable) Mul(a, b *Term) *Term {
	w := a.w
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if !a.isConst() && bits.OnesCount64(b.k) == 1 {
			return tt.Shl(a, tt.Const(w, uint64(bits.TrailingZeros64(b.k))))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tt.bin(OMul, w, a, b)
}

// bitsNeeded returns how many low bits can be non-zero.
func bitsNeeded(t *Term) uint8 { return uint8(bits.Len64(t.hi)) }

func (tt *TermTable) narrowDiv(op Op, a, b *Term) *Term {
	// Both operands are unsigned values fitting in n < w bits: divide there.
	n := max(bitsNeeded(a), bitsNeeded(b), 1)
	if n < a.w {
		return tt.Zext(tt.bin(op, n, tt.Extract(a, 0, n), tt.Extract(b, 0, n)), a.w)
	}
	return tt.bin(op, a.w, a, b)
}

func (tt *TermTable) UDiv(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if b.k == 1 {
			return a
		}
		if bits.OnesCount64(b.k) == 1 {
			return tt.Lshr(a, tt.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		if a.hi < b.k {
			return tt.Const(a.w, 0)
		}
		if !a.isConst() {
			// (x*b + y)/b with y < b : not handled; narrow
			return tt.narrowDiv(OUDiv, a, b)
		}
	}
	if !b.isConst() {
		// a zero divisor panics before its quotient is used
		return tt.narrowDiv(OUDiv, a, b)
	}
	return tt.bin(OUDiv, a.w, a, b)
}

func (tt *TermTable) URem(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if b.k == 1 {
			return tt.Const(a.w, 0)
		}
		if bits.OnesCount64(b.k) == 1 {
			return tt.BAnd(a, tt.Const(a.w, b.k-1))
		}
		if a.hi < b.k {
			return a
		}
		if !a.isConst() {
			return tt.narrowDiv(OURem, a, b)
		}
	}
	if !b.isConst() {
		return tt.narrowDiv(OURem, a, b)
	}
	return tt.bin(OURem, a.w, a, b)
}

func (tt *TermTable) SDiv(a, b *Term) *Term {
	if !a.isConst() || !b.isConst() {
		if nonneg(a) && nonneg(b) && b.lo > 0 {
			return tt.UDiv(a, b)
		}
		// signed division by a power of two: (a + ((a>>w-1) & (2^k-1))) >>a k
		if b.isConst() && nonneg(b) && bits.OnesCount64(b.k) == 1 && b.k > 1 {
			k := uint64(bits.TrailingZeros64(b.k))
			s := tt.Ite(tt.Slt(a, tt.Const(a.w, 0)), tt.Const(a.w, b.k-1), tt.Const(a.w, 0))
			return tt.Ashr(tt.Add(a, s), tt.Const(a.w, k))
		}
	}
	return tt.bin(OSDiv, a.w, a, b)
}

func (tt *TermTable) SRem(a, b *Term) *Term {
	if !a.isConst() || !b.isConst() {
		if nonneg(a) && nonneg(b) && b.lo > 0 {
			return tt.URem(a, b)
		}
		if b.isConst() && nonneg(b) && bits.OnesCount64(b.k) == 1 && b.k > 1 {
			// a - ((a sdiv 2^k) << k)
			q := tt.SDiv(a, b)
			return tt.Sub(a, tt.Mul(q, b))
		}
	}
	return tt.bin(OSRem, a.w, a, b)
}

func isMaskLow(k uint64) (int, bool) {
	if k != 0 && k&(k+1) == 0 {
		return bits.Len64(k), true
	}
	return 0, false
}

func (tt *TermTable) BAnd(a, b *Term) *Term {
	w := a.w
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		if b.k == mask(w) {
			return a
		}
		if a.isConst() {
			return tt.Const(w, a.k&b.k)
		}
		if a.op == OBAnd && a.b.isConst() {
			return tt.BAnd(a.a, tt.Const(w, a.b.k&b.k))
		}
		// low mask -> zext(extract)
		if n, ok := isMaskLow(b.k); ok && n < int(w) {
			if a.hi <= b.k {
				return a
			}
			return tt.Zext(tt.Extract(a, 0, uint8(n)), w)
		}
		// contiguous mask in the middle/high: concat pieces
		tz := bits.TrailingZeros64(b.k)
		if n, ok := isMaskLow(b.k >> tz); ok && tz > 0 {
			x := tt.Extract(a, uint8(tz), uint8(n))
			x = tt.Concat(x, tt.Const(uint8(tz), 0))
			return tt.Zext(x, w)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tt.bin(OBAnd, w, a, b)
}

// trailing zero bits known
func lowZeros(t *Term) uint8 {
	switch t.op {
	case OConst:
		if t.k == 0 {
			return t.w
		}
		return uint8(bits.TrailingZeros64(t.k))
	case OShl:
		if t.b.isConst() && t.b.k < uint64(t.w) {
			return min(t.w, uint8(t.b.k)+lowZeros(t.a))
		}
	case OConcat:
		z := lowZeros(t.b)
		if z == t.b.w {
			return z + lowZeros(t.a)
		}
		return z
	case OZext:
		z := lowZeros(t.a)
		if z == t.a.w {
			return t.w
		}
		return z
	case OIte:
		return min(lowZeros(t.b), lowZeros(t.c))
	case OAdd, OBOr, OSub:
		return min(lowZeros(t.a), lowZeros(t.b))
	}
	return 0
}

func (tt *TermTable) BOr(a, b *Term) *Term {
	w := a.w
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k == mask(w) {
			return b
		}
		if a.isConst() {
			return tt.Const(w, a.k|b.k)
		}
	}
	// disjoint bits: turn into concat
	if n := bitsNeeded(a); lowZeros(b) >= n && n > 0 && n < w {
		return tt.Concat(tt.Extract(b, n, w-n), tt.Extract(a, 0, n))
	}
	if n := bitsNeeded(b); lowZeros(a) >= n && n > 0 && n < w {
		return tt.Concat(tt.Extract(a, n, w-n), tt.Extract(b, 0, n))
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return tt.bin(OBOr, w, a, b)
}

func (tt *TermTable) BXor(a, b *Term) *Term {
	w := a.w
	if a == b {
		return tt.Const(w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if a.isConst() {
			return tt.Const(w, a.k^b.k)
		}
		if b.k == mask(w) {
			return tt.BNot(a)
		}
		if a.op == OBXor && a.b.isConst() {
			return tt.BXor(a.a, tt.Const(w, a.b.k^b.k))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tt.bin(OBXor, w, a, b)
}

func (tt *TermTable) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.Const(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, a.w, a, nil, nil, 0)
}

func (tt *TermTable) Shl(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(w) {
			return tt.Const(w, 0)
		}
		if a.isConst() {
			return tt.Const(w, a.k<<b.k)
		}
		return tt.Concat(tt.Extract(a, 0, w-uint8(b.k)), tt.Const(uint8(b.k), 0))
	}
	return tt.bin(OShl, w, a, b)
}

func (tt *TermTable) Lshr(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(w) {
			return tt.Const(w, 0)
		}
		if a.isConst() {
			return tt.Const(w, a.k>>b.k)
		}
		return tt.Zext(tt.Extract(a, uint8(b.k), w-uint8(b.k)), w)
	}
	return tt.bin(OLshr, w, a, b)
}

func (tt *TermTable) Ashr(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		k := min(b.k, uint64(w)-1)
		if a.isConst() {
			return tt.Const(w, evalOp(OAshr, w, w, w, a.k, k, 0, 0))
		}
		if nonneg(a) {
			return tt.Lshr(a, tt.Const(w, k))
		}
		return tt.Sext(tt.Extract(a, uint8(k), w-uint8(k)), w)
	}
	return tt.bin(OAshr, w, a, b)
}

func (tt *TermTable) Concat(a, b *Term) *Term { // a high, b low
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return tt.Const(w, a.k<<b.w|b.k)
	}
	if a.isConst() && a.k == 0 {
		return tt.Zext(b, w)
	}
	if a.op == OZext {
		return tt.Zext(tt.Concat(a.a, b), w)
	}
	// merge adjacent extracts
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.k == b.k+uint64(b.w) {
		return tt.Extract(a.a, uint8(b.k), w)
	}
	// the low bits of a sum are a narrower sum
	if a.op == OExtract && a.k == uint64(b.w) && (a.a.op == OAdd || a.a.op == OSub || a.a.op == OMul) && tt.Extract(a.a, 0, b.w) == b {
		return tt.Extract(a.a, 0, w)
	}
	if a.op == OExtract && b.op == OConcat && a.k == uint64(b.a.w) && (a.a.op == OAdd || a.a.op == OSub || a.a.op == OMul) && tt.Extract(a.a, 0, b.a.w) == b.a {
		return tt.Concat(tt.Extract(a.a, 0, a.w+b.a.w), b.b)
	}
	// right-assoc: concat(concat(x,y),z) -> concat(x, concat(y,z)) to expose merges
	if a.op == OConcat {
		return tt.Concat(a.a, tt.Concat(a.b, b))
	}
	if a.op == OExtract && b.op == OConcat && b.a.op == OExtract && a.a == b.a.a && a.k == b.a.k+uint64(b.a.w) {
		return tt.Concat(tt.Extract(a.a, uint8(b.a.k), a.w+b.a.w), b.b)
	}
	if a.isConst() && b.op == OConcat && b.a.isConst() {
		return tt.Concat(tt.Const(a.w+b.a.w, a.k<<b.a.w|b.a.k), b.b)
	}
	return tt.mk(OConcat, w, a, b, nil, 0)
}

func (tt *TermTable) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if lo+w > a.w {
		panic("extract out of range")
	}
	switch a.op {
	case OConst:
		return tt.Const(w, a.k>>lo)
	case OExtract:
		return tt.Extract(a.a, uint8(a.k)+lo, w)
	case OZext:
		if lo >= a.a.w {
			return tt.Const(w, 0)
		}
		if lo+w <= a.a.w {
			return tt.Extract(a.a, lo, w)
		}
		return tt.Zext(tt.Extract(a.a, lo, a.a.w-lo), w)
	case OSext:
		if lo+w <= a.a.w {
			return tt.Extract(a.a, lo, w)
		}
		if lo < a.a.w {
			return tt.Sext(tt.Extract(a.a, lo, a.a.w-lo), w)
		}
	case OConcat:
		if lo >= a.b.w {
			return tt.Extract(a.a, lo-a.b.w, w)
		}
		if lo+w <= a.b.w {
			return tt.Extract(a.b, lo, w)
		}
		return tt.Concat(tt.Extract(a.a, 0, lo+w-a.b.w), tt.Extract(a.b, lo, a.b.w-lo))
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return tt.Ite(a.a, tt.Extract(a.b, lo, w), tt.Extract(a.c, lo, w))
		}
	case OBAnd, OBOr, OBXor:
		x, y := tt.Extract(a.a, lo, w), tt.Extract(a.b, lo, w)
		switch a.op {
		case OBAnd:
			return tt.BAnd(x, y)
		case OBOr:
			return tt.BOr(x, y)
		default:
			return tt.BXor(x, y)
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			x, y := tt.Extract(a.a, 0, w), tt.Extract(a.b, 0, w)
			switch a.op {
			case OAdd:
				return tt.Add(x, y)
			case OSub:
				return tt.Sub(x, y)
			default:
				return tt.Mul(x, y)
			}
		}
	}
	// bits that are always zero do not depend on a
	if n := uint8(bits.Len64(a.hi >> lo)); n == 0 {
		return tt.Const(w, 0)
	} else if n < w {
		return tt.Zext(tt.Extract(a, lo, n), w)
	}
	return tt.mk(OExtract, w, a, nil, nil, uint64(lo))
}

func (tt *TermTable) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, a.k)
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	return tt.mk(OZext, w, a, nil, nil, 0)
}

func (tt *TermTable) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, uint64(sext64(a.k, a.w)))
	}
	if nonneg(a) {
		return tt.Zext(a, w)
	}
	if a.op == OSext {
		return tt.Sext(a.a, w)
	}
	return tt.mk(OSext, w, a, nil, nil, 0)
}

// BoolToBV turns a Bool into a 1/0 bit-vector.
func (tt *TermTable) BoolToBV(b *Term, w uint8) *Term {
	return tt.Ite(b, tt.Const(w, 1), tt.Const(w, 0))
}

// ---- evaluation ----

func (tt *TermTable) setModelVar(i int32, v uint64) {
	if tt.model[i] != v {
		tt.model[i] = v
		tt.gen++
	}
}

func (tt *TermTable) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.op == OVar {
		return tt.model[t.k]
	}
	if t.evGen == tt.gen {
		return t.ev
	}
	var a, b, c uint64
	var aw, bw uint8
	a, aw = tt.Eval(t.a), t.a.w
	var r uint64
	switch t.op {
	case OIte:
		if a != 0 {
			r = tt.Eval(t.b)
		} else {
			r = tt.Eval(t.c)
		}
	case OAnd:
		if a != 0 {
			r = tt.Eval(t.b)
		}
	case OOr:
		if a != 0 {
			r = 1
		} else {
			r = tt.Eval(t.b)
		}
	default:
		if t.b != nil {
			b, bw = tt.Eval(t.b), t.b.w
		}
		if t.c != nil {
			c = tt.Eval(t.c)
		}
		r = evalOp(t.op, t.w, aw, bw, a, b, c, t.k)
	}
	t.ev, t.evGen = r, tt.gen
	return r
}

// ---- printing ----

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.k)
		}
		return fmt.Sprintf("#b%0*b", t.w, t.k)
	case OVar:
		return fmt.Sprintf("v%d", t.k)
	}
	return fmt.Sprintf("t%d", t.id)
}

// narrowTo is the number of bits an operation can be computed in without
// changing its value, given the ranges of the operands.
func (t *Term) narrowTo() uint8 {
	var n uint8
	switch t.op {
	case OAdd, OMul:
		// the true value, without wrapping, fits
		var c, s uint64
		if t.op == OAdd {
			s, c = bits.Add64(t.a.hi, t.b.hi, 0)
		} else {
			c, s = bits.Mul64(t.a.hi, t.b.hi)
		}
		if c != 0 || s > mask(t.w) {
			return t.w
		}
		n = uint8(bits.Len64(s))
		n = max(n, bitsNeeded(t.a), bitsNeeded(t.b))
	case OSub:
		if t.a.lo < t.b.hi {
			return t.w
		}
		n = bitsNeeded(t.a)
	case OUlt, OUle, OEq:
		if t.a.w == 0 {
			return 0
		}
		n = max(bitsNeeded(t.a), bitsNeeded(t.b))
		return max(n, 1)
	default:
		return t.w
	}
	return max(n, 1)
}

// narrowRef is the low n bits of t.
func (t *Term) narrowRef(n uint8) string {
	if t.w == n {
		return t.ref()
	}
	if t.op == OConst {
		return (&Term{op: OConst, w: n, k: t.k & mask(n)}).ref()
	}
	if t.op == OZext && t.a.w == n {
		return t.a.ref()
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", n-1, t.ref())
}

func (t *Term) body(sb *strings.Builder) {
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", uint64(t.w)-1+t.k, t.k, t.a.ref())
		return
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
		return
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
		return
	case OAdd, OSub, OMul:
		if n := t.narrowTo(); n+4 <= t.w {
			fmt.Fprintf(sb, "((_ zero_extend %d) (%s %s %s))", t.w-n, opSMT[t.op], t.a.narrowRef(n), t.b.narrowRef(n))
			return
		}
	case OUlt, OUle, OEq:
		if n := t.narrowTo(); n > 0 && n+4 <= t.a.w {
			fmt.Fprintf(sb, "(%s %s %s)", opSMT[t.op], t.a.narrowRef(n), t.b.narrowRef(n))
			return
		}
	}
	sb.WriteString("(")
	sb.WriteString(opSMT[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" ")
			sb.WriteString(x.ref())
		}
	}
	sb.WriteString(")")
}

// String renders a small expression tree for diagnostics.
func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		return fmt.Sprintf("%d", t.k)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	nm := opSMT[t.op]
	switch t.op {
	case OExtract:
		nm = fmt.Sprintf("ext[%d+%d]", t.k, t.w)
	case OZext:
		nm = "zext"
	case OSext:
		nm = "sext"
	}
	sb.WriteString("(" + nm)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + x.str(d-1))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
