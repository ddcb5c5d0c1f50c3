package main

// Execution of compiled functions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// targetPanic is a panic of the program under analysis.
type targetPanic struct{ v Iface }

const maxDepth = 2500

func (m *Machine) rtPanic(msg string) {
	panic(targetPanic{Iface{m.eng.rtErrType, "runtime error: " + msg}})
}

func (m *Machine) targetPanicStr(msg string) {
	panic(targetPanic{Iface{m.eng.rtErrType, msg}})
}

func (m *Machine) globalPtr(i int) Value {
	p := m.globals[i]
	if p == nil {
		p = new(Value)
		*p = zero(unptr(m.eng.globalList[i].Type()))
		m.globals[i] = p
	}
	return p
}

// call runs fn. Arguments are fresh slices owned by the callee.
func (m *Machine) call(fn *Fn, args []Value, env []Value) Value {
	fn.ensure(m.eng)
	if fn.intrinsic != nil {
		return fn.intrinsic(m, m.cur.fr, args)
	}
	if fn.err != "" {
		if m.tolerant {
			return m.poisonResult(fn, fn.err)
		}
		panic(unsupported{fn.err})
	}
	if !m.st.Funcs[fn] {
		m.st.Funcs[fn] = true
	}
	caller := m.cur.fr
	fr := &frame{fn: fn, caller: caller, regs: make([]Value, fn.nregs)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > maxDepth {
			panic(violation{msg: fmt.Sprintf("unbounded recursion: call depth %d in %s", maxDepth, fn.name), kind: "stack"})
		}
	}
	copy(fr.regs, args)
	copy(fr.regs[fn.nparams:], env)
	fr.block = fn.blocks[0]
	m.cur.fr = fr
	g := m.cur
	if fn.hasDefer {
		m.runProtected(g, fr)
	} else {
		m.run(g, fr)
	}
	g.fr = caller
	return fr.result
}

func (m *Machine) poisonResult(fn *Fn, why string) Value {
	if fn.nres > 1 {
		t := make(Tuple, fn.nres)
		for i := range t {
			t[i] = Poison{why}
		}
		return t
	}
	return Poison{why}
}

func (m *Machine) runProtected(g *G, fr *frame) {
	for {
		ok := func() (ok bool) {
			defer func() {
				if ok {
					return
				}
				r := recover()
				if r == nil {
					panic("goexit in target code")
				}
				tp, isT := r.(targetPanic)
				if !isT {
					panic(r)
				}
				g.fr = fr
				fr.panicking = true
				fr.recovered = false
				fr.panicVal = tp.v
			}()
			m.run(g, fr)
			return true
		}()
		if ok {
			return
		}
		// panicking: run the remaining deferred calls
		m.runDefers(fr) // may itself panic (a new target panic propagates)
		if !fr.recovered {
			v := fr.panicVal.(Iface)
			panic(targetPanic{v})
		}
		fr.panicking = false
		if fr.fn.recover == nil {
			// no named results: return zero values
			fr.result = m.zeroResult(fr.fn)
			return
		}
		fr.block = fr.fn.recover
	}
}

func (m *Machine) zeroResult(fn *Fn) Value {
	r := fn.ssa.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	t := make(Tuple, r.Len())
	for i := range t {
		t[i] = zero(r.At(i).Type())
	}
	return t
}

// runDefers runs the deferred calls of fr in LIFO order.
func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			done := false
			defer func() {
				if done {
					return
				}
				r := recover()
				if r == nil {
					panic("goexit")
				}
				tp, isT := r.(targetPanic)
				if !isT {
					panic(r)
				}
				// a deferred call panicked: it replaces the current panic
				m.cur.fr = fr
				fr.panicking = true
				fr.recovered = false
				fr.panicVal = tp.v
			}()
			if d.bi != nil {
				m.builtin(fr, d.bi.Name(), d.biT, d.args, nil)
			} else if d.fn == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			} else {
				m.call(d.fn.fn, d.args, d.fn.env)
			}
			done = true
		}()
	}
	if fr.panicking && !fr.recovered {
		return
	}
}

func (m *Machine) run(g *G, fr *frame) {
	b := fr.block
	for {
		m.steps += int64(len(b.ins)) + 1
		if m.steps > m.maxSteps {
			if m.stepKnown != "" && m.eng.knownFinding(m.stepKnown) {
				m.eng.reportKnown(m.stepKnown, "no termination", m.inputValues())
				panic(pathEnd{"known"})
			}
			panic(violation{msg: fmt.Sprintf("no termination within %d steps", m.maxSteps), kind: "nontermination"})
		}
		if m.tolerant {
			for i, f := range b.ins {
				fr.ip = i
				m.tolerate(f, fr)
			}
		} else {
			for i, f := range b.ins {
				fr.ip = i
				f(m, fr)
			}
		}
		fr.ip = len(b.ins)
		e := 0
		switch b.kind {
		case termJump:
		case termIf:
			if c, ok := fr.get(&b.cond, m).(C); ok {
				if c == 0 {
					e = 1
				}
			} else if !m.branch(fr.get(&b.cond, m)) {
				e = 1
			}
		case termReturn:
			switch len(b.res) {
			case 0:
			case 1:
				fr.result = fr.get(&b.res[0], m)
			default:
				t := make(Tuple, len(b.res))
				for i := range b.res {
					t[i] = fr.get(&b.res[i], m)
				}
				fr.result = t
			}
			return
		case termPanic:
			v := fr.get(&b.cond, m)
			i, ok := v.(Iface)
			if !ok {
				panic(unsupported{"panic of poison"})
			}
			panic(targetPanic{i})
		}
		if mv := b.phi[e]; len(mv) > 0 {
			if len(mv) == 1 {
				fr.regs[mv[0].dst] = fr.get(&mv[0].src, m)
			} else {
				var buf [8]Value
				tmp := buf[:0]
				for i := range mv {
					tmp = append(tmp, fr.get(&mv[i].src, m))
				}
				for i := range mv {
					fr.regs[mv[i].dst] = tmp[i]
				}
			}
		}
		b = b.succ[e]
		fr.block = b
	}
}

// tolerate executes one instruction of a package initialiser; failures poison its result.
func (m *Machine) tolerate(f insFn, fr *frame) {
	g := m.cur
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				_ = x
			case targetPanic:
			case runtimeErr:
			default:
				if _, ok := r.(error); !ok {
					panic(r)
				}
			}
			g.fr = fr
			fr.poisonAt(m)
			if fr.fn.ssa.Name() == "init" || strings.HasPrefix(fr.fn.ssa.Name(), "init#") {
				m.eng.noteAbort(fr, r)
			}
		}
	}()
	f(m, fr)
}

type runtimeErr interface{ RuntimeError() }

func (fr *frame) poisonAt(m *Machine) {
	// find the register the failing instruction defines
	b := fr.block
	var sb *ssa.BasicBlock
	for _, x := range fr.fn.ssa.Blocks {
		if x.Index == b.idx {
			sb = x
		}
	}
	if sb == nil {
		return
	}
	k := 0
	for _, in := range sb.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Panic:
			continue
		}
		if k == fr.ip {
			if v, ok := in.(ssa.Value); ok {
				// registers are assigned in a deterministic order; recompute is not
				// possible here, so the compiler keeps a map
				if r, ok := fr.fn.regOf(v); ok {
					fr.regs[r] = Poison{"init of " + fr.fn.name}
				}
			} else if st, ok := in.(*ssa.Store); ok {
				_ = st
			}
			return
		}
		k++
	}
}

func (fr *frame) curPos() token.Pos {
	b := fr.block
	if b == nil {
		return token.NoPos
	}
	if fr.ip < len(b.pos) {
		return b.pos[fr.ip]
	}
	return b.retPos
}

// ---- memory ----

func (m *Machine) store(pv, v Value) {
	switch p := pv.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if m.multi {
			m.raceVal(p, true)
		}
		switch v.(type) {
		case Struct, Array:
			storeVal(p, v)
		default:
			*p = v
		}
	case *SymPtr:
		w := p.w
		nv := m.term(v, w)
		for i := range p.base {
			if m.multi {
				m.raceVal(&p.base[i], true)
			}
			if uint64(i) < p.idx.lo || uint64(i) > p.idx.hi {
				continue
			}
			c := m.tt.Eq(p.idx, m.tt.Const(p.idx.w, uint64(i)))
			if m.known(c) < 0 {
				continue
			}
			p.base[i] = m.val(m.tt.Ite(c, nv, m.term(p.base[i], w)))
		}
	case Poison:
		panic(unsupported{"store through poison: " + p.why})
	default:
		panic(unsupported{fmt.Sprintf("store through %T", pv)})
	}
}

func (m *Machine) val(t *Term) Value {
	if t.op == OConst {
		return C(t.k)
	}
	return t
}

func (m *Machine) term(v Value, w uint8) *Term {
	switch x := v.(type) {
	case C:
		return m.tt.Const(w, uint64(x))
	case *Term:
		if x.w != w {
			panic(unsupported{fmt.Sprintf("width mismatch %d %d", x.w, w)})
		}
		return x
	case Poison:
		panic(unsupported{"poison: " + x.why})
	}
	panic(unsupported{fmt.Sprintf("term of %T", v)})
}

// idx64 brings an index value of the given type to 64 bits.
func (m *Machine) idx64(v Value, w uint8, signed bool) Value {
	switch x := v.(type) {
	case C:
		if signed {
			return C(uint64(sext64(uint64(x), w)))
		}
		return x
	case *Term:
		if signed {
			return m.val(m.tt.Sext(x, 64))
		}
		return m.val(m.tt.Zext(x, 64))
	case Poison:
		panic(unsupported{"poison: " + x.why})
	}
	panic(unsupported{fmt.Sprintf("index %T", v)})
}

func (m *Machine) checkIndex(i Value, n int) {
	switch x := i.(type) {
	case C:
		if uint64(x) >= uint64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(x), n))
		}
	case *Term:
		if !m.branchT(m.tt.Ult(x, m.tt.Const(64, uint64(n)))) {
			m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
	}
}

func (m *Machine) sliceBounds(l, h, k Value, cp int, what string) (int, int, int) {
	lc, ok1 := l.(C)
	hc, ok2 := h.(C)
	kc, ok3 := k.(C)
	if ok1 && ok2 && ok3 {
		if uint64(kc) > uint64(cp) || hc > kc || lc > hc {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with %s %d", int64(lc), int64(hc), what, cp))
		}
		return int(lc), int(hc), int(kc)
	}
	lt, ht, kt := m.term(l, 64), m.term(h, 64), m.term(k, 64)
	c := m.tt.And(m.tt.Ule(kt, m.tt.Const(64, uint64(cp))), m.tt.And(m.tt.Ule(ht, kt), m.tt.Ule(lt, ht)))
	if !m.branch(m.val(c)) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range with %s %d", what, cp))
	}
	return int(m.concretize(l)), int(m.concretize(h)), int(m.concretize(k))
}

func (m *Machine) makeLen(n Value, esz int64, what string) int {
	if esz < 1 {
		esz = 1
	}
	lim := m.allocLimit / uint64(esz)
	c, ok := n.(C)
	if !ok {
		t := m.term(n, 64)
		if !m.branchT(m.tt.Ule(t, m.tt.Const(64, uint64(1)<<47/uint64(esz)))) {
			m.rtPanic("makeslice: " + what + " out of range")
		}
		if !m.branchT(m.tt.Ule(t, m.tt.Const(64, lim))) {
			// prefer a request that is far beyond the limit
			m.branchT(m.tt.Ule(t, m.tt.Const(64, 64*lim)))
			panic(violation{msg: fmt.Sprintf("allocation larger than %d bytes requested", m.allocLimit), kind: "alloc"})
		}
		return int(m.concretize(t))
	}
	if uint64(c) > uint64(1)<<47/uint64(esz) {
		m.rtPanic("makeslice: " + what + " out of range")
	}
	if uint64(c) > lim {
		panic(violation{msg: fmt.Sprintf("allocation of %d bytes requested, limit %d", int64(c)*esz, m.allocLimit), kind: "alloc"})
	}
	return int(c)
}

func (m *Machine) strIndex(s, i Value) Value {
	n := strLen(s)
	m.checkIndex(i, n)
	if c, ok := i.(C); ok {
		return strAt(s, int(c))
	}
	return m.symLoad(strBytes(s), i, 8)
}

// symLoad reads base[i] for an index known to be in range.
func (m *Machine) symLoad(base []Value, i Value, w uint8) Value {
	if c, ok := i.(C); ok {
		return base[uint64(c)]
	}
	t := i.(*Term)
	if t.isConst() {
		return base[t.k]
	}
	// scalars only
	for _, e := range base {
		switch e.(type) {
		case C, *Term:
		default:
			return base[m.concretize(t)]
		}
	}
	lo, hi := t.lo, min(t.hi, uint64(len(base)-1))
	// most common value as default
	cnt := map[Value]int{}
	var def Value = base[lo]
	for k := lo; k <= hi; k++ {
		e := base[k]
		cnt[e]++
		if cnt[e] > cnt[def] {
			def = e
		}
	}
	r := m.term(def, w)
	// group equal values
	type grp struct {
		v Value
		c *Term
	}
	var gs []*grp
	gi := map[Value]*grp{}
	for k := lo; k <= hi; k++ {
		e := base[k]
		if e == def {
			continue
		}
		g := gi[e]
		if g == nil {
			g = &grp{e, m.tt.F}
			gi[e] = g
			gs = append(gs, g)
		}
		g.c = m.tt.Or(g.c, m.tt.Eq(t, m.tt.Const(t.w, k)))
	}
	if len(gs) > 64 {
		return base[m.concretize(t)]
	}
	for _, g := range gs {
		r = m.tt.Ite(g.c, m.term(g.v, w), r)
	}
	return m.val(r)
}

// ---- operators ----

type binFn func(m *Machine, a, b Value) Value

func poisonIn(a, b Value) (string, bool) {
	if p, ok := a.(Poison); ok {
		return p.why, true
	}
	if p, ok := b.(Poison); ok {
		return p.why, true
	}
	return "", false
}

func binop(op token.Token, tx, ty types.Type) binFn {
	if op == token.EQL || op == token.NEQ {
		neg := op == token.NEQ
		w, _, isInt := intInfo(tx)
		if isInt {
			return func(m *Machine, a, b Value) Value {
				x, ok1 := a.(C)
				y, ok2 := b.(C)
				if ok1 && ok2 {
					return b2c((x == y) != neg)
				}
				t := m.tt.Eq(m.term(a, w), m.term(b, w))
				if neg {
					t = m.tt.Not(t)
				}
				return m.val(t)
			}
		}
		return func(m *Machine, a, b Value) Value {
			r := m.eqVal(a, b)
			if neg {
				switch x := r.(type) {
				case C:
					return x ^ 1
				case *Term:
					return m.val(m.tt.Not(x))
				}
			}
			return r
		}
	}
	if isString(tx) {
		switch op {
		case token.ADD:
			return func(m *Machine, a, b Value) Value {
				if w, bad := poisonIn(a, b); bad {
					return Poison{w}
				}
				return strConcat(a, b)
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return func(m *Machine, a, b Value) Value {
				x, ok1 := a.(string)
				y, ok2 := b.(string)
				if ok1 && ok2 {
					switch op {
					case token.LSS:
						return b2c(x < y)
					case token.LEQ:
						return b2c(x <= y)
					case token.GTR:
						return b2c(x > y)
					}
					return b2c(x >= y)
				}
				if op == token.GTR || op == token.GEQ {
					a, b = b, a
				}
				lt, eq := m.lexCmp(strBytes(a), strBytes(b))
				if op == token.LSS || op == token.GTR {
					return m.val(lt)
				}
				return m.val(m.tt.Or(lt, eq))
			}
		}
	}
	if isFloat(tx) {
		return func(m *Machine, a, b Value) Value {
			x, ok1 := a.(float64)
			y, ok2 := b.(float64)
			if !ok1 || !ok2 {
				panic(unsupported{"symbolic floating point"})
			}
			if bt := tx.Underlying().(*types.Basic); bt.Kind() == types.Float32 {
				switch op {
				case token.ADD:
					return float64(float32(x) + float32(y))
				case token.SUB:
					return float64(float32(x) - float32(y))
				case token.MUL:
					return float64(float32(x) * float32(y))
				case token.QUO:
					return float64(float32(x) / float32(y))
				}
			}
			switch op {
			case token.ADD:
				return x + y
			case token.SUB:
				return x - y
			case token.MUL:
				return x * y
			case token.QUO:
				return x / y
			case token.LSS:
				return b2c(x < y)
			case token.LEQ:
				return b2c(x <= y)
			case token.GTR:
				return b2c(x > y)
			case token.GEQ:
				return b2c(x >= y)
			}
			panic(unsupported{"float op"})
		}
	}
	w, signed, ok := intInfo(tx)
	if !ok {
		return func(m *Machine, a, b Value) Value {
			panic(unsupported{fmt.Sprintf("binary %s on %s", op, tx)})
		}
	}
	mk := mask(w)
	if op == token.SHL || op == token.SHR {
		wy, sy, _ := intInfo(ty)
		return func(m *Machine, a, b Value) Value {
			x, ok1 := a.(C)
			y, ok2 := b.(C)
			if ok2 && sy && sext64(uint64(y), wy) < 0 {
				m.rtPanic("negative shift amount")
			}
			if ok1 && ok2 {
				s := uint64(y)
				if op == token.SHL {
					if s >= uint64(w) {
						return C(0)
					}
					return C(uint64(x) << s & mk)
				}
				if signed {
					if s > 63 {
						s = 63
					}
					return C(uint64(sext64(uint64(x), w)>>s) & mk)
				}
				if s >= uint64(w) {
					return C(0)
				}
				return C(uint64(x) >> s)
			}
			tt := m.tt
			xt := m.term(a, w)
			yt := m.term(b, wy)
			if sy && !nonneg(yt) {
				if m.branch(m.val(tt.Slt(yt, tt.Const(wy, 0)))) {
					m.rtPanic("negative shift amount")
				}
			}
			W := max(w, wy)
			y2 := tt.Zext(yt, W)
			var r *Term
			switch {
			case op == token.SHL:
				r = tt.Shl(tt.Zext(xt, W), y2)
			case signed:
				r = tt.Ashr(tt.Sext(xt, W), y2)
			default:
				r = tt.Lshr(tt.Zext(xt, W), y2)
			}
			return m.val(tt.Extract(r, 0, w))
		}
	}
	type cf func(x, y uint64) uint64
	var conc cf
	var symb func(tt *TermTable, x, y *Term) *Term
	bb := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	div := false
	switch op {
	case token.ADD:
		conc = func(x, y uint64) uint64 { return (x + y) & mk }
		symb = (*TermTable).Add
	case token.SUB:
		conc = func(x, y uint64) uint64 { return (x - y) & mk }
		symb = (*TermTable).Sub
	case token.MUL:
		conc = func(x, y uint64) uint64 { return (x * y) & mk }
		symb = (*TermTable).Mul
	case token.QUO:
		div = true
		if signed {
			conc = func(x, y uint64) uint64 { return evalOp(OSDiv, w, w, w, x, y, 0, 0) }
			symb = (*TermTable).SDiv
		} else {
			conc = func(x, y uint64) uint64 { return x / y }
			symb = (*TermTable).UDiv
		}
	case token.REM:
		div = true
		if signed {
			conc = func(x, y uint64) uint64 { return evalOp(OSRem, w, w, w, x, y, 0, 0) }
			symb = (*TermTable).SRem
		} else {
			conc = func(x, y uint64) uint64 { return x % y }
			symb = (*TermTable).URem
		}
	case token.AND:
		conc = func(x, y uint64) uint64 { return x & y }
		symb = (*TermTable).BAnd
		if w == 0 {
			symb = (*TermTable).And
		}
	case token.OR:
		conc = func(x, y uint64) uint64 { return x | y }
		symb = (*TermTable).BOr
		if w == 0 {
			symb = (*TermTable).Or
		}
	case token.XOR:
		conc = func(x, y uint64) uint64 { return x ^ y }
		symb = (*TermTable).BXor
	case token.AND_NOT:
		conc = func(x, y uint64) uint64 { return x &^ y }
		symb = func(tt *TermTable, x, y *Term) *Term { return tt.BAnd(x, tt.BNot(y)) }
	case token.LSS, token.GTR:
		if signed {
			conc = func(x, y uint64) uint64 { return bb(sext64(x, w) < sext64(y, w)) }
			symb = (*TermTable).Slt
		} else {
			conc = func(x, y uint64) uint64 { return bb(x < y) }
			symb = (*TermTable).Ult
		}
	case token.LEQ, token.GEQ:
		if signed {
			conc = func(x, y uint64) uint64 { return bb(sext64(x, w) <= sext64(y, w)) }
			symb = (*TermTable).Sle
		} else {
			conc = func(x, y uint64) uint64 { return bb(x <= y) }
			symb = (*TermTable).Ule
		}
	default:
		panic(unsupported{"operator " + op.String()})
	}
	swap := op == token.GTR || op == token.GEQ
	return func(m *Machine, a, b Value) Value {
		if swap {
			a, b = b, a
		}
		x, ok1 := a.(C)
		y, ok2 := b.(C)
		if ok1 && ok2 {
			if div && y == 0 {
				m.rtPanic("integer divide by zero")
			}
			return C(conc(uint64(x), uint64(y)))
		}
		xt, yt := m.term(a, w), m.term(b, w)
		if div && yt.lo == 0 {
			if m.branch(m.val(m.tt.Eq(yt, m.tt.Const(w, 0)))) {
				m.rtPanic("integer divide by zero")
			}
		}
		return m.val(symb(m.tt, xt, yt))
	}
}

// lexCmp gives (a < b, a == b) for byte sequences.
func (m *Machine) lexCmp(a, b []Value) (lt, eq *Term) {
	tt := m.tt
	n := min(len(a), len(b))
	lt, eq = tt.F, tt.F
	switch {
	case len(a) < len(b):
		lt = tt.T
	case len(a) == len(b):
		eq = tt.T
	}
	for i := n - 1; i >= 0; i-- {
		x, y := m.term(a[i], 8), m.term(b[i], 8)
		e := tt.Eq(x, y)
		lt = tt.Or(tt.Ult(x, y), tt.And(e, lt))
		eq = tt.And(e, eq)
	}
	return
}

func (m *Machine) bytesEq(a, b []Value) Value {
	if len(a) != len(b) {
		return C(0)
	}
	r := m.tt.T
	for i := range a {
		x, ok1 := a[i].(C)
		y, ok2 := b[i].(C)
		if ok1 && ok2 {
			if x != y {
				return C(0)
			}
			continue
		}
		r = m.tt.And(r, m.tt.Eq(m.term(a[i], 8), m.term(b[i], 8)))
		if r.isFalse() {
			return C(0)
		}
	}
	return m.val(r)
}

func (m *Machine) andVal(a, b Value) Value {
	if x, ok := a.(C); ok {
		if x == 0 {
			return C(0)
		}
		return b
	}
	if y, ok := b.(C); ok {
		if y == 0 {
			return C(0)
		}
		return a
	}
	return m.val(m.tt.And(a.(*Term), b.(*Term)))
}

// eqVal compares two values of the same static type.
func (m *Machine) eqVal(a, b Value) Value {
	if w, bad := poisonIn(a, b); bad {
		panic(unsupported{"comparison with poison: " + w})
	}
	switch x := a.(type) {
	case C:
		if y, ok := b.(C); ok {
			return b2c(x == y)
		}
		if y, ok := b.(*Term); ok {
			return m.val(m.tt.Eq(m.tt.Const(y.w, uint64(x)), y))
		}
	case *Term:
		return m.val(m.tt.Eq(x, m.term(b, x.w)))
	case float64:
		return b2c(x == b.(float64))
	case complex128:
		return b2c(x == b.(complex128))
	case string:
		if y, ok := b.(string); ok {
			return b2c(x == y)
		}
		return m.bytesEq(strBytes(a), strBytes(b))
	case *SStr:
		return m.bytesEq(strBytes(a), strBytes(b))
	case *Value:
		if y, ok := b.(*Value); ok {
			return b2c(x == y)
		}
		if _, ok := b.(*SymPtr); ok && x == nil {
			return C(0)
		}
	case *SymPtr:
		if y, ok := b.(*Value); ok && y == nil {
			return C(0)
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return b2c(x.t == nil && y.t == nil)
		}
		if x.t != y.t {
			return C(0)
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.eqVal(x.v, y.v)
	case Struct:
		y := b.(Struct)
		var r Value = C(1)
		for i := range x {
			r = m.andVal(r, m.eqVal(x[i], y[i]))
			if r == Value(C(0)) {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		var r Value = C(1)
		for i := range x {
			r = m.andVal(r, m.eqVal(x[i], y[i]))
			if r == Value(C(0)) {
				return r
			}
		}
		return r
	case Slice:
		y, ok := b.(Slice)
		if ok && (x == nil || y == nil) {
			return b2c(x == nil && y == nil)
		}
	case *MapV:
		return b2c(x == b.(*MapV))
	case *Chan:
		return b2c(x == b.(*Chan))
	case *Closure:
		y := b.(*Closure)
		if x == nil || y == nil {
			return b2c(x == nil && y == nil)
		}
	}
	panic(unsupported{fmt.Sprintf("comparison of %T and %T", a, b)})
}

func convert(from, to types.Type) func(m *Machine, v Value) Value {
	uf, ut := from.Underlying(), to.Underlying()
	wf, sf, fi := intInfo(from)
	wt, st, ti := intInfo(to)
	_ = st
	ident := func(m *Machine, v Value) Value { return v }
	switch {
	case fi && ti:
		return func(m *Machine, v Value) Value {
			switch x := v.(type) {
			case C:
				if wt <= wf {
					return C(uint64(x) & mask(wt))
				}
				if sf {
					return C(uint64(sext64(uint64(x), wf)) & mask(wt))
				}
				return x
			case *Term:
				if wt < wf {
					return m.val(m.tt.Extract(x, 0, wt))
				}
				if wt == wf {
					return x
				}
				if sf {
					return m.val(m.tt.Sext(x, wt))
				}
				return m.val(m.tt.Zext(x, wt))
			case Poison:
				return x
			}
			panic(unsupported{fmt.Sprintf("convert %T", v)})
		}
	case fi && isFloat(to):
		f32 := ut.(*types.Basic).Kind() == types.Float32
		return func(m *Machine, v Value) Value {
			x, ok := v.(C)
			if !ok {
				panic(unsupported{"symbolic int to float"})
			}
			var f float64
			if sf {
				f = float64(sext64(uint64(x), wf))
			} else {
				f = float64(uint64(x))
			}
			if f32 {
				f = float64(float32(f))
			}
			return f
		}
	case isFloat(from) && ti:
		return func(m *Machine, v Value) Value {
			f := v.(float64)
			if st {
				return C(uint64(int64(f)) & mask(wt))
			}
			if f >= 1<<63 {
				return C(uint64(f) & mask(wt))
			}
			return C(uint64(int64(f)) & mask(wt))
		}
	case isFloat(from) && isFloat(to):
		if ut.(*types.Basic).Kind() == types.Float32 {
			return func(m *Machine, v Value) Value { return float64(float32(v.(float64))) }
		}
		return ident
	case isString(to) && isString(from):
		return ident
	case isString(to) && fi:
		return func(m *Machine, v Value) Value {
			if t, ok := v.(*Term); ok && !t.isConst() {
				if sf {
					t = m.tt.Sext(t, 64)
				} else {
					t = m.tt.Zext(t, 64)
				}
				return mkStr(m.encodeRune(t))
			}
			c := m.concretize(v)
			r := int64(c)
			if sf {
				r = sext64(c, wf)
			}
			if r < 0 || r > utf8.MaxRune {
				return string(utf8.RuneError)
			}
			return string(rune(r))
		}
	case isString(to):
		if s, ok := uf.(*types.Slice); ok {
			w, _, _ := intInfo(s.Elem())
			if w == 8 {
				return func(m *Machine, v Value) Value {
					sl, ok := v.(Slice)
					if !ok {
						panic(unsupported{fmt.Sprintf("string of %T", v)})
					}
					if m.multi {
						for i := range sl {
							m.raceVal(&sl[i], false)
						}
					}
					return mkStr(sl)
				}
			}
			return func(m *Machine, v Value) Value {
				var out []Value
				for _, r := range v.(Slice) {
					out = append(out, m.encodeRune(m.tt.Sext(m.term(r, 32), 64))...)
				}
				return mkStr(out)
			}
		}
	case isString(from):
		if s, ok := ut.(*types.Slice); ok {
			w, _, _ := intInfo(s.Elem())
			if w == 8 {
				return func(m *Machine, v Value) Value {
					b := Slice(strBytes(v))
					if b == nil {
						b = Slice{}
					}
					return b
				}
			}
			return func(m *Machine, v Value) Value {
				it := &StrIter{s: v}
				out := Slice{}
				for {
					t := m.strNext(it).(Tuple)
					if t[0].(C) == 0 {
						return out
					}
					out = append(out, t[2])
				}
			}
		}
	}
	// pointers, unsafe.Pointer, uintptr
	isPtr := func(t types.Type) bool {
		switch x := t.(type) {
		case *types.Pointer:
			return true
		case *types.Basic:
			return x.Kind() == types.UnsafePointer
		}
		return false
	}
	if isPtr(uf) && isPtr(ut) {
		return ident
	}
	if types.Identical(uf, ut) {
		return ident
	}
	if _, ok := ut.(*types.Slice); ok {
		return ident
	}
	return func(m *Machine, v Value) Value {
		panic(unsupported{fmt.Sprintf("conversion from %s to %s", from, to)})
	}
}

// strNext decodes the next rune of a ranged string.
func (m *Machine) strNext(it *StrIter) Value {
	n := strLen(it.s)
	if it.i >= n {
		return Tuple{C(0), C(0), C(0)}
	}
	i := it.i
	if s, ok := it.s.(string); ok {
		r, sz := utf8.DecodeRuneInString(s[i:])
		it.i += sz
		return Tuple{C(1), C(uint64(i)), C(uint64(uint32(r)))}
	}
	b := strAt(it.s, i)
	if c, ok := b.(C); ok && c < 0x80 {
		it.i++
		return Tuple{C(1), C(uint64(i)), c}
	}
	if t, ok := b.(*Term); ok {
		if m.branchT(m.tt.Ult(t, m.tt.Const(8, 0x80))) {
			it.i++
			return Tuple{C(1), C(uint64(i)), m.val(m.tt.Zext(t, 32))}
		}
	}
	// multi-byte: run the real decoder
	rest := strSlice(it.s, i, n)
	res := m.call(m.eng.utf8Decode, []Value{rest}, nil).(Tuple)
	it.i += int(m.concretize(res[1]))
	return Tuple{C(1), C(uint64(i)), res[0]}
}

// ---- methods ----

func (m *Machine) method(t types.Type, meth *types.Func) *Fn {
	k := methKey{t, meth}
	if f, ok := m.meths[k]; ok {
		return f
	}
	f := m.eng.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if f == nil {
		panic(unsupported{fmt.Sprintf("no method %s on %s", meth.Name(), t)})
	}
	fn := m.eng.fnFor(f)
	m.meths[k] = fn
	return fn
}

// methodByName returns nil when t has no such method.
func (m *Machine) methodByName(t types.Type, name string) *Fn {
	ms := m.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return m.eng.fnFor(m.eng.prog.MethodValue(ms.At(i)))
		}
	}
	return nil
}

func (m *Machine) implements(t, it types.Type) bool {
	k := implKey{t, it}
	if r, ok := m.impls[k]; ok {
		return r
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	m.impls[k] = r
	return r
}

var _ = math.Inf

// encodeRune is the UTF-8 form of a rune, as 64 bits; it forks on the length.
func (m *Machine) encodeRune(r *Term) []Value {
	tt := m.tt
	k := func(v uint64) *Term { return tt.Const(64, v) }
	part := func(shift uint8, bits uint8, lead uint64) Value {
		return m.val(tt.BOr(tt.Zext(tt.Extract(r, shift, bits), 8), tt.Const(8, lead)))
	}
	switch {
	case m.branchT(tt.Ult(r, k(0x80))):
		return []Value{part(0, 7, 0)}
	case m.branchT(tt.Ult(r, k(0x800))):
		return []Value{part(6, 5, 0xc0), part(0, 6, 0x80)}
	case m.branchT(tt.Or(tt.Ult(k(0x10ffff), r), tt.And(tt.Ule(k(0xd800), r), tt.Ult(r, k(0xe000))))):
		return []Value{C(0xef), C(0xbf), C(0xbd)}
	case m.branchT(tt.Ult(r, k(0x10000))):
		return []Value{part(12, 4, 0xe0), part(6, 6, 0x80), part(0, 6, 0x80)}
	}
	return []Value{part(18, 3, 0xf0), part(12, 6, 0x80), part(6, 6, 0x80), part(0, 6, 0x80)}
}
