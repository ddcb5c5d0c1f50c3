package main

// Translation of SSA functions into closures over a register file.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type opnd struct {
	kind uint8 // 0 reg, 1 const, 2 global
	idx  int32
	v    Value
}

type insFn func(m *Machine, fr *frame)

type phiMove struct {
	dst int32
	src opnd
}

const (
	termJump = iota
	termIf
	termReturn
	termPanic
)

type cblock struct {
	idx    int
	ins    []insFn
	pos    []token.Pos
	kind   int
	cond   opnd
	succ   [2]*cblock
	phi    [2][]phiMove // moves to perform on the edge to succ[i]
	res    []opnd       // return operands
	retPos token.Pos
}

// Fn is a compiled (or intrinsic) function.
type Fn struct {
	name      string
	ssa       *ssa.Function
	once      sync.Once
	err       string // why it cannot be compiled
	nparams   int
	nfree     int
	nregs     int
	blocks    []*cblock
	recover   *cblock
	hasDefer  bool
	intrinsic func(m *Machine, caller *frame, args []Value) Value
	nres      int
	inRepo    bool
	nins      int
	regm      map[ssa.Value]int32
}

type frame struct {
	fn        *Fn
	caller    *frame
	regs      []Value
	block     *cblock
	ip        int
	defers    []deferred
	result    Value
	panicking bool
	recovered bool
	panicVal  Value // Iface
	depth     int
}

type deferred struct {
	fn   *Closure
	args []Value
	bi   *ssa.Builtin
	biT  []types.Type
}

func (fr *frame) get(o *opnd, m *Machine) Value {
	switch o.kind {
	case 0:
		return fr.regs[o.idx]
	case 1:
		return o.v
	}
	return m.globalPtr(int(o.idx))
}

// ---- type canonicalisation ----

type typeCanon struct {
	mu  sync.Mutex
	mp  typeutil.Map
	ptr sync.Map
}

func (tc *typeCanon) get(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := tc.ptr.Load(t); ok {
		return c.(types.Type)
	}
	tc.mu.Lock()
	defer tc.mu.Unlock()
	u := types.Unalias(t)
	c := tc.mp.At(u)
	if c == nil {
		tc.mp.Set(u, u)
		c = u
	}
	tc.ptr.Store(t, c)
	return c.(types.Type)
}

// ---- compiler ----

type compiler struct {
	e    *Engine
	fn   *Fn
	f    *ssa.Function
	regs map[ssa.Value]int32
	n    int32
}

func (e *Engine) fnFor(f *ssa.Function) *Fn {
	if x, ok := e.fns.Load(f); ok {
		return x.(*Fn)
	}
	fn := &Fn{name: f.String(), ssa: f}
	if f.Signature != nil {
		fn.nres = f.Signature.Results().Len()
	}
	if p := f.Package(); p != nil && p.Pkg != nil {
		fn.inRepo = e.isRepo(p.Pkg.Path())
	} else if o := f.Origin(); o != nil && o.Package() != nil {
		fn.inRepo = e.isRepo(o.Package().Pkg.Path())
	}
	fn.intrinsic = e.findIntrinsic(f)
	x, _ := e.fns.LoadOrStore(f, fn)
	return x.(*Fn)
}

func (fn *Fn) ensure(e *Engine) {
	fn.once.Do(func() {
		if fn.intrinsic != nil {
			return
		}
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					fn.err = u.why
					return
				}
				panic(fmt.Sprintf("compiling %s: %v", fn.name, r))
			}
		}()
		compileFn(e, fn)
	})
}

func compileFn(e *Engine, fn *Fn) {
	f := fn.ssa
	if f.Blocks == nil {
		fn.err = "no body: " + fn.name
		return
	}
	c := &compiler{e: e, fn: fn, f: f, regs: map[ssa.Value]int32{}}
	for _, p := range f.Params {
		c.reg(p)
	}
	fn.nparams = len(f.Params)
	for _, p := range f.FreeVars {
		c.reg(p)
	}
	fn.nfree = len(f.FreeVars)
	bm := map[*ssa.BasicBlock]*cblock{}
	for _, b := range f.Blocks {
		cb := &cblock{idx: b.Index}
		bm[b] = cb
		fn.blocks = append(fn.blocks, cb)
	}
	if f.Recover != nil {
		if bm[f.Recover] == nil {
			bm[f.Recover] = &cblock{idx: f.Recover.Index}
		}
		fn.recover = bm[f.Recover]
	}
	blocks := f.Blocks
	if f.Recover != nil {
		found := false
		for _, b := range blocks {
			if b == f.Recover {
				found = true
			}
		}
		if !found {
			blocks = append(append([]*ssa.BasicBlock{}, blocks...), f.Recover)
		}
	}
	for _, b := range blocks {
		cb := bm[b]
		for _, in := range b.Instrs {
			fn.nins++
			switch x := in.(type) {
			case *ssa.Phi:
				c.reg(x)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Jump:
				cb.kind = termJump
				cb.succ[0] = bm[b.Succs[0]]
				continue
			case *ssa.If:
				cb.kind = termIf
				cb.cond = c.op(x.Cond)
				cb.succ[0] = bm[b.Succs[0]]
				cb.succ[1] = bm[b.Succs[1]]
				cb.retPos = x.Cond.Pos()
				continue
			case *ssa.Return:
				cb.kind = termReturn
				for _, r := range x.Results {
					cb.res = append(cb.res, c.op(r))
				}
				cb.retPos = x.Pos()
				continue
			case *ssa.Panic:
				cb.kind = termPanic
				cb.cond = c.op(x.X)
				cb.retPos = x.Pos()
				continue
			case *ssa.Defer:
				fn.hasDefer = true
			}
			cb.ins = append(cb.ins, c.instr(in))
			cb.pos = append(cb.pos, in.Pos())
		}
	}
	// phi moves
	for _, b := range blocks {
		cb := bm[b]
		for si, s := range b.Succs {
			// which predecessor slot of s is this edge?
			pi := -1
			cnt := 0
			for i, p := range s.Preds {
				if p == b {
					if cnt == 0 || si == 1 {
						pi = i
					}
					cnt++
					if si == 0 {
						break
					}
				}
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				cb.phi[si] = append(cb.phi[si], phiMove{c.reg(ph), c.op(ph.Edges[pi])})
			}
		}
	}
	fn.nregs = int(c.n)
	fn.regm = c.regs
}

func (fn *Fn) regOf(v ssa.Value) (int32, bool) { r, ok := fn.regm[v]; return r, ok }

func (c *compiler) reg(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.n
	c.n++
	c.regs[v] = r
	return r
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{kind: 1, v: constVal(x)}
	case *ssa.Global:
		return opnd{kind: 2, idx: int32(c.e.globalIndex(x))}
	case *ssa.Function:
		return opnd{kind: 1, v: &Closure{fn: c.e.fnFor(x)}}
	case *ssa.Builtin:
		return opnd{kind: 1, v: Poison{"builtin as value"}}
	}
	return opnd{kind: 0, idx: c.reg(v)}
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{"constant of type " + t.String()})
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		return b2c(constant.BoolVal(c.Value))
	case u.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case u.Info()&types.IsFloat != 0:
		f := c.Float64()
		return f
	case u.Info()&types.IsComplex != 0:
		return c.Complex128()
	case u.Kind() == types.UnsafePointer:
		return (*Value)(nil)
	}
	w, signed, ok := intInfo(t)
	if !ok {
		panic(unsupported{"constant of type " + t.String()})
	}
	var v uint64
	if signed {
		v = uint64(c.Int64())
	} else {
		v = c.Uint64()
		if c.Value.Kind() == constant.Int && constant.Sign(c.Value) < 0 {
			v = uint64(c.Int64())
		}
	}
	return C(v & mask(w))
}

func (c *compiler) instr(in ssa.Instruction) insFn {
	switch x := in.(type) {
	case *ssa.Alloc:
		d := c.reg(x)
		z := zeroFiller(unptr(x.Type()))
		return func(m *Machine, fr *frame) {
			p := new(Value)
			*p = z()
			fr.regs[d] = p
		}
	case *ssa.BinOp:
		d := c.reg(x)
		a, b := c.op(x.X), c.op(x.Y)
		f := binop(x.Op, x.X.Type(), x.Y.Type())
		return func(m *Machine, fr *frame) {
			fr.regs[d] = f(m, fr.get(&a, m), fr.get(&b, m))
		}
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		return func(m *Machine, fr *frame) {
			m.store(fr.get(&a, m), fr.get(&v, m))
		}
	case *ssa.Call:
		d := c.reg(x)
		f := c.call(&x.Call, x.Pos())
		return func(m *Machine, fr *frame) {
			fr.regs[d] = f(m, fr)
		}
	case *ssa.Defer:
		return c.deferIns(x)
	case *ssa.RunDefers:
		return func(m *Machine, fr *frame) { m.runDefers(fr) }
	case *ssa.Go:
		prep := c.prepCall(&x.Call)
		return func(m *Machine, fr *frame) {
			cl, args, bi := prep(m, fr)
			if bi != nil {
				panic(unsupported{"go builtin"})
			}
			m.spawn(cl, args)
		}
	case *ssa.ChangeInterface:
		d := c.reg(x)
		a := c.op(x.X)
		return func(m *Machine, fr *frame) { fr.regs[d] = fr.get(&a, m) }
	case *ssa.ChangeType:
		d := c.reg(x)
		a := c.op(x.X)
		return func(m *Machine, fr *frame) { fr.regs[d] = fr.get(&a, m) }
	case *ssa.Convert:
		d := c.reg(x)
		a := c.op(x.X)
		f := convert(x.X.Type(), x.Type())
		return func(m *Machine, fr *frame) { fr.regs[d] = f(m, fr.get(&a, m)) }
	case *ssa.MultiConvert:
		d := c.reg(x)
		a := c.op(x.X)
		f := convert(x.X.Type(), x.Type())
		return func(m *Machine, fr *frame) { fr.regs[d] = f(m, fr.get(&a, m)) }
	case *ssa.Extract:
		d := c.reg(x)
		a := c.op(x.Tuple)
		i := x.Index
		return func(m *Machine, fr *frame) {
			switch t := fr.get(&a, m).(type) {
			case Tuple:
				fr.regs[d] = t[i]
			case Poison:
				fr.regs[d] = t
			default:
				panic(unsupported{fmt.Sprintf("extract from %T", t)})
			}
		}
	case *ssa.Field:
		d := c.reg(x)
		a := c.op(x.X)
		i := x.Field
		return func(m *Machine, fr *frame) {
			switch s := fr.get(&a, m).(type) {
			case Struct:
				fr.regs[d] = s[i]
			case Poison:
				fr.regs[d] = s
			default:
				panic(unsupported{fmt.Sprintf("field of %T", s)})
			}
		}
	case *ssa.FieldAddr:
		d := c.reg(x)
		a := c.op(x.X)
		i := x.Field
		return func(m *Machine, fr *frame) {
			switch p := fr.get(&a, m).(type) {
			case *Value:
				if p == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				s, ok := (*p).(Struct)
				if !ok {
					panic(unsupported{fmt.Sprintf("field address in %T (%v)", *p, *p)})
				}
				fr.regs[d] = &s[i]
			case Poison:
				panic(unsupported{"poison: " + p.why})
			default:
				panic(unsupported{fmt.Sprintf("field address of %T", p)})
			}
		}
	case *ssa.Index:
		d := c.reg(x)
		a, ix := c.op(x.X), c.op(x.Index)
		w, signed, _ := intInfo(x.Index.Type())
		if isString(x.X.Type()) {
			return func(m *Machine, fr *frame) {
				fr.regs[d] = m.strIndex(fr.get(&a, m), m.idx64(fr.get(&ix, m), w, signed))
			}
		}
		ew, _, eok := intInfo(x.Type())
		return func(m *Machine, fr *frame) {
			arr, ok := fr.get(&a, m).(Array)
			if !ok {
				panic(unsupported{"index of non-array"})
			}
			i := m.idx64(fr.get(&ix, m), w, signed)
			m.checkIndex(i, len(arr))
			if !eok {
				i = C(m.concretize(i))
			}
			fr.regs[d] = m.symLoad(arr, i, ew)
		}
	case *ssa.IndexAddr:
		d := c.reg(x)
		a, ix := c.op(x.X), c.op(x.Index)
		w, signed, _ := intInfo(x.Index.Type())
		ew, _, eok := intInfo(unptr(x.Type()))
		return func(m *Machine, fr *frame) {
			var base []Value
			switch s := fr.get(&a, m).(type) {
			case Slice:
				base = s
			case *Value:
				if s == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				arr, ok := (*s).(Array)
				if !ok {
					panic(unsupported{fmt.Sprintf("index address in %T", *s)})
				}
				base = arr
			case Poison:
				panic(unsupported{"poison: " + s.why})
			default:
				panic(unsupported{fmt.Sprintf("index address of %T", s)})
			}
			i := fr.get(&ix, m)
			if ci, ok := i.(C); ok {
				v := uint64(ci)
				if signed {
					v = uint64(sext64(v, w))
				}
				if v >= uint64(len(base)) {
					m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(v), len(base)))
				}
				fr.regs[d] = &base[v]
				return
			}
			i = m.idx64(i, w, signed)
			m.checkIndex(i, len(base))
			t, ok := i.(*Term)
			if !ok {
				fr.regs[d] = &base[uint64(i.(C))]
				return
			}
			if len(base) == 1 {
				fr.regs[d] = &base[0]
				return
			}
			if eok {
				fr.regs[d] = &SymPtr{base, t, ew}
			} else {
				fr.regs[d] = &base[m.concretize(t)]
			}
		}
	case *ssa.Lookup:
		d := c.reg(x)
		a, ix := c.op(x.X), c.op(x.Index)
		if isString(x.X.Type()) {
			w, signed, _ := intInfo(x.Index.Type())
			return func(m *Machine, fr *frame) {
				fr.regs[d] = m.strIndex(fr.get(&a, m), m.idx64(fr.get(&ix, m), w, signed))
			}
		}
		z := zeroFiller(x.X.Type().Underlying().(*types.Map).Elem())
		commaOk := x.CommaOk
		return func(m *Machine, fr *frame) {
			mp := m.asMap(fr.get(&a, m))
			v, ok := m.mapGet(mp, fr.get(&ix, m))
			if !ok {
				v = z()
			} else {
				v = copyVal(v)
			}
			if commaOk {
				fr.regs[d] = Tuple{v, b2c(ok)}
			} else {
				fr.regs[d] = v
			}
		}
	case *ssa.MakeChan:
		d := c.reg(x)
		sz := c.op(x.Size)
		return func(m *Machine, fr *frame) {
			fr.regs[d] = &Chan{cap: m.concInt(fr.get(&sz, m))}
		}
	case *ssa.MakeClosure:
		d := c.reg(x)
		fn := c.e.fnFor(x.Fn.(*ssa.Function))
		var ops []opnd
		for _, b := range x.Bindings {
			ops = append(ops, c.op(b))
		}
		return func(m *Machine, fr *frame) {
			env := make([]Value, len(ops))
			for i := range ops {
				env[i] = fr.get(&ops[i], m)
			}
			fr.regs[d] = &Closure{fn: fn, env: env}
		}
	case *ssa.MakeInterface:
		d := c.reg(x)
		a := c.op(x.X)
		t := c.e.canon.get(x.X.Type())
		return func(m *Machine, fr *frame) {
			v := fr.get(&a, m)
			if p, ok := v.(Poison); ok {
				fr.regs[d] = p
				return
			}
			fr.regs[d] = Iface{t, v}
		}
	case *ssa.MakeMap:
		d := c.reg(x)
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(m *Machine, fr *frame) { fr.regs[d] = newMap(kt) }
	case *ssa.MakeSlice:
		d := c.reg(x)
		l, cp := c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		z := zeroFiller(et)
		wl, sl, _ := intInfo(x.Len.Type())
		wc, sc, _ := intInfo(x.Cap.Type())
		esz := sizeofT(et)
		same := x.Len == x.Cap
		return func(m *Machine, fr *frame) {
			n := m.makeLen(m.idx64(fr.get(&l, m), wl, sl), esz, "len")
			k := n
			if !same {
				k = m.makeLen(m.idx64(fr.get(&cp, m), wc, sc), esz, "cap")
			}
			if k < n {
				m.rtPanic("makeslice: cap out of range")
			}
			s := make(Slice, k)
			if k > 0 {
				for i := range s {
					s[i] = z()
				}
			}
			fr.regs[d] = s[:n]
		}
	case *ssa.MapUpdate:
		mp, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(m *Machine, fr *frame) {
			mm := m.asMap(fr.get(&mp, m))
			if mm == nil {
				m.targetPanicStr("assignment to entry in nil map")
			}
			m.mapPut(mm, fr.get(&k, m), copyVal(fr.get(&v, m)))
		}
	case *ssa.Next:
		d := c.reg(x)
		a := c.op(x.Iter)
		if x.IsString {
			return func(m *Machine, fr *frame) { fr.regs[d] = m.strNext(fr.get(&a, m).(*StrIter)) }
		}
		tt := x.Type().(*types.Tuple)
		return func(m *Machine, fr *frame) {
			it := fr.get(&a, m).(*MapIter)
			if m.multi && it.mp != nil {
				m.raceAccess(&it.mp.race, false, "map iteration")
			}
			for it.i < len(it.order) {
				e := it.order[it.i]
				it.i++
				if e.deleted {
					continue
				}
				fr.regs[d] = Tuple{C(1), e.key, copyVal(e.val)}
				return
			}
			// entries added during iteration are not visited (allowed by the spec)
			var zk, zv Value = C(0), C(0)
			if tt.At(1).Type() != types.Typ[types.Invalid] {
				zk = zero(tt.At(1).Type())
			}
			if tt.At(2).Type() != types.Typ[types.Invalid] {
				zv = zero(tt.At(2).Type())
			}
			fr.regs[d] = Tuple{C(0), zk, zv}
		}
	case *ssa.Range:
		d := c.reg(x)
		a := c.op(x.X)
		if isString(x.X.Type()) {
			return func(m *Machine, fr *frame) { fr.regs[d] = &StrIter{s: fr.get(&a, m)} }
		}
		return func(m *Machine, fr *frame) {
			mp := m.asMap(fr.get(&a, m))
			fr.regs[d] = m.mapIter(mp)
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		d := c.reg(x)
		a := c.op(x.X)
		n := int(unptr(x.Type()).Underlying().(*types.Array).Len())
		return func(m *Machine, fr *frame) {
			s, ok := fr.get(&a, m).(Slice)
			if !ok {
				panic(unsupported{"slice to array pointer"})
			}
			if len(s) < n {
				m.rtPanic("cannot convert slice to array pointer")
			}
			if s == nil {
				fr.regs[d] = (*Value)(nil)
				return
			}
			p := new(Value)
			*p = Array(s[:n:n])
			fr.regs[d] = p
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Send, *ssa.Select:
		return func(m *Machine, fr *frame) { panic(unsupported{"channel operation"}) }
	}
	panic(unsupported{fmt.Sprintf("instruction %T", in)})
}

func (c *compiler) unop(x *ssa.UnOp) insFn {
	d := c.reg(x)
	a := c.op(x.X)
	switch x.Op {
	case token.MUL:
		return func(m *Machine, fr *frame) {
			switch p := fr.get(&a, m).(type) {
			case *Value:
				if p == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				if m.multi {
					m.raceVal(p, false)
				}
				switch v := (*p).(type) {
				case Struct, Array:
					fr.regs[d] = copyVal(v)
				default:
					fr.regs[d] = v
				}
			case *SymPtr:
				if m.multi {
					for i := range p.base {
						m.raceVal(&p.base[i], false)
					}
				}
				fr.regs[d] = m.symLoad(p.base, p.idx, p.w)
			case Poison:
				panic(unsupported{"load through poison: " + p.why})
			default:
				panic(unsupported{fmt.Sprintf("load through %T", p)})
			}
		}
	case token.NOT:
		return func(m *Machine, fr *frame) {
			switch v := fr.get(&a, m).(type) {
			case C:
				fr.regs[d] = v ^ 1
			case *Term:
				fr.regs[d] = m.val(m.tt.Not(v))
			default:
				panic(unsupported{fmt.Sprintf("not %T", v)})
			}
		}
	case token.SUB:
		if isFloat(x.X.Type()) {
			return func(m *Machine, fr *frame) { fr.regs[d] = -fr.get(&a, m).(float64) }
		}
		w, _, ok := intInfo(x.X.Type())
		if !ok {
			break
		}
		return func(m *Machine, fr *frame) {
			switch v := fr.get(&a, m).(type) {
			case C:
				fr.regs[d] = C(-uint64(v) & mask(w))
			case *Term:
				fr.regs[d] = m.val(m.tt.Sub(m.tt.Const(w, 0), v))
			default:
				panic(unsupported{fmt.Sprintf("neg %T", v)})
			}
		}
	case token.XOR:
		w, _, _ := intInfo(x.X.Type())
		return func(m *Machine, fr *frame) {
			switch v := fr.get(&a, m).(type) {
			case C:
				fr.regs[d] = C(^uint64(v) & mask(w))
			case *Term:
				fr.regs[d] = m.val(m.tt.BNot(v))
			default:
				panic(unsupported{fmt.Sprintf("not %T", v)})
			}
		}
	case token.ARROW:
		return func(m *Machine, fr *frame) { panic(unsupported{"channel receive"}) }
	}
	return func(m *Machine, fr *frame) { panic(unsupported{"unary " + x.Op.String()}) }
}

func (c *compiler) slice(x *ssa.Slice) insFn {
	d := c.reg(x)
	a := c.op(x.X)
	type bound struct {
		has    bool
		o      opnd
		w      uint8
		signed bool
	}
	mk := func(v ssa.Value) bound {
		if v == nil {
			return bound{}
		}
		w, s, _ := intInfo(v.Type())
		return bound{true, c.op(v), w, s}
	}
	lo, hi, mx := mk(x.Low), mk(x.High), mk(x.Max)
	get := func(m *Machine, fr *frame, b *bound, def int) Value {
		if !b.has {
			return C(uint64(def))
		}
		return m.idx64(fr.get(&b.o, m), b.w, b.signed)
	}
	isStr := isString(x.X.Type())
	return func(m *Machine, fr *frame) {
		v := fr.get(&a, m)
		if isStr {
			n := strLen(v)
			l, h := get(m, fr, &lo, 0), get(m, fr, &hi, n)
			li, hi, _ := m.sliceBounds(l, h, C(uint64(n)), n, "length")
			fr.regs[d] = strSlice(v, li, hi)
			return
		}
		var s Slice
		switch y := v.(type) {
		case Slice:
			s = y
		case *Value:
			if y == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			s = Slice((*y).(Array))
		case Poison:
			panic(unsupported{"poison: " + y.why})
		default:
			panic(unsupported{fmt.Sprintf("slice of %T", v)})
		}
		l, h := get(m, fr, &lo, 0), get(m, fr, &hi, len(s))
		k := get(m, fr, &mx, cap(s))
		li, hi, ki := m.sliceBounds(l, h, k, cap(s), "capacity")
		if s == nil {
			fr.regs[d] = s
			return
		}
		fr.regs[d] = s[li:hi:ki]
	}
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) insFn {
	d := c.reg(x)
	a := c.op(x.X)
	at := c.e.canon.get(x.AssertedType)
	commaOk := x.CommaOk
	iface := isIface(at)
	var z func() Value
	if !iface {
		z = zeroFiller(at)
	}
	return func(m *Machine, fr *frame) {
		v := fr.get(&a, m)
		if p, ok := v.(Poison); ok {
			panic(unsupported{"type assertion on poison: " + p.why})
		}
		i, isI := v.(Iface)
		if !isI {
			panic(unsupported{fmt.Sprintf("type assertion on %T", v)})
		}
		ok := false
		var res Value
		if iface {
			ok = i.t != nil && m.implements(i.t, at)
			if ok {
				res = i
			} else {
				res = Iface{}
			}
		} else {
			ok = i.t == at
			if ok {
				res = i.v
			} else {
				res = z()
			}
		}
		if commaOk {
			fr.regs[d] = Tuple{res, b2c(ok)}
			return
		}
		if !ok {
			ts := "nil"
			if i.t != nil {
				ts = i.t.String()
			}
			m.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, at))
		}
		fr.regs[d] = res
	}
}

// ---- calls ----

func (c *compiler) prepCall(cc *ssa.CallCommon) func(m *Machine, fr *frame) (*Closure, []Value, *ssa.Builtin) {
	var ops []opnd
	for _, a := range cc.Args {
		ops = append(ops, c.op(a))
	}
	getArgs := func(m *Machine, fr *frame, extra int) []Value {
		args := make([]Value, len(ops)+extra)
		for i := range ops {
			args[i+extra] = fr.get(&ops[i], m)
		}
		return args
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		meth := cc.Method
		return func(m *Machine, fr *frame) (*Closure, []Value, *ssa.Builtin) {
			v := fr.get(&recv, m)
			i, ok := v.(Iface)
			if !ok {
				panic(unsupported{fmt.Sprintf("invoke %s on %T", meth.Name(), v)})
			}
			if i.t == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			fn := m.method(i.t, meth)
			args := getArgs(m, fr, 1)
			args[0] = i.v
			return &Closure{fn: fn}, args, nil
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return func(m *Machine, fr *frame) (*Closure, []Value, *ssa.Builtin) {
			return nil, getArgs(m, fr, 0), f
		}
	case *ssa.Function:
		cl := &Closure{fn: c.e.fnFor(f)}
		return func(m *Machine, fr *frame) (*Closure, []Value, *ssa.Builtin) {
			return cl, getArgs(m, fr, 0), nil
		}
	}
	fv := c.op(cc.Value)
	return func(m *Machine, fr *frame) (*Closure, []Value, *ssa.Builtin) {
		v := fr.get(&fv, m)
		cl, ok := v.(*Closure)
		if !ok {
			panic(unsupported{fmt.Sprintf("call of %T", v)})
		}
		return cl, getArgs(m, fr, 0), nil
	}
}

func argTypes(cc *ssa.CallCommon) []types.Type {
	var ts []types.Type
	for _, a := range cc.Args {
		ts = append(ts, a.Type())
	}
	return ts
}

func (c *compiler) call(cc *ssa.CallCommon, pos token.Pos) func(m *Machine, fr *frame) Value {
	prep := c.prepCall(cc)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		ts := argTypes(cc)
		return func(m *Machine, fr *frame) Value {
			_, args, _ := prep(m, fr)
			return m.builtin(fr, b.Name(), ts, args, cc.Signature())
		}
	}
	return func(m *Machine, fr *frame) Value {
		cl, args, _ := prep(m, fr)
		if cl == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.call(cl.fn, args, cl.env)
	}
}

func (c *compiler) deferIns(x *ssa.Defer) insFn {
	prep := c.prepCall(&x.Call)
	ts := argTypes(&x.Call)
	if x.DeferStack != nil {
		ds := c.op(x.DeferStack)
		return func(m *Machine, fr *frame) {
			cl, args, bi := prep(m, fr)
			target, ok := fr.get(&ds, m).(*frame)
			if !ok {
				panic(unsupported{"defer stack"})
			}
			target.defers = append(target.defers, deferred{cl, args, bi, ts})
		}
	}
	return func(m *Machine, fr *frame) {
		cl, args, bi := prep(m, fr)
		fr.defers = append(fr.defers, deferred{cl, args, bi, ts})
	}
}

// sizeofT approximates the size of a type in bytes as laid out by the compiler.
func sizeofT(t types.Type) int64 {
	defer func() { recover() }()
	return stdSizes.Sizeof(t)
}

var stdSizes = types.SizesFor("gc", "amd64")

var _ = math.Float64bits
