package main

// The sym package of the harnesses, as the engine executes it.

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

var symIntrinsics map[string]intrinsicFn

func (m *Machine) inputName(v Value) string { return strArg(v) }

// freshRange is an input with lo <= value <= hi (as 64-bit integers).
func (m *Machine) freshRange(name string, lo, hi int64) Value {
	if hi < lo {
		panic(pathEnd{"infeasible"})
	}
	if hi == lo {
		return C(uint64(lo))
	}
	span := uint64(hi - lo)
	w := uint8(bits.Len64(span))
	v := m.newVarMax(name, w, span)
	if span != mask(w) {
		m.assumeRange(v, w, span)
	}
	return m.val(m.tt.Add(m.tt.Zext(v, 64), m.tt.Const(64, uint64(lo))))
}

func (m *Machine) freshChar(name, alphabet string) Value {
	if span, ok := alphabetSpan(alphabet); ok {
		w := uint8(max(bits.Len64(span), 1))
		v := m.newVarMax(name, w, span)
		if span != mask(w) {
			m.assumeRange(v, w, span)
		}
		return m.val(m.tt.Add(m.tt.Zext(v, 8), m.tt.Const(8, uint64(alphabet[0]))))
	}
	v := m.newVar(name, 8)
	c := m.tt.F
	for i := 0; i < len(alphabet); i++ {
		c = m.tt.Or(c, m.tt.Eq(v, m.tt.Const(8, uint64(alphabet[i]))))
	}
	m.assume(m.val(c))
	return v
}

// alphabetSpan reports whether an alphabet is a run of consecutive characters,
// which is then represented by the distance from the first.
func alphabetSpan(a string) (uint64, bool) {
	for i := range a {
		if a[i] != a[0]+byte(i) {
			return 0, false
		}
	}
	return uint64(len(a) - 1), true
}

// assumeRange assumes v <= span although the range of v already implies it.
func (m *Machine) assumeRange(v *Term, w uint8, span uint64) {
	m.assume(m.tt.mk(OUle, 0, v, m.tt.Const(w, span), nil, 0))
}

func boolArgs(m *Machine, v Value) []*Term {
	var out []*Term
	for _, x := range sliceArg(v) {
		out = append(out, m.term(x, 0))
	}
	return out
}

func initSym() {
	s := map[string]intrinsicFn{}
	symIntrinsics = s
	fresh := func(w uint8) intrinsicFn {
		return func(m *Machine, _ *frame, a []Value) Value { return m.newVar(strArg(a[0]), w) }
	}
	s["Byte"] = fresh(8)
	s["U16"] = fresh(16)
	s["U32"] = fresh(32)
	s["U64"] = fresh(64)
	s["Bool"] = func(m *Machine, _ *frame, a []Value) Value {
		v := m.newVar(strArg(a[0]), 1)
		return m.val(m.tt.Eq(v, m.tt.Const(1, 1)))
	}
	s["Range"] = func(m *Machine, _ *frame, a []Value) Value {
		return m.freshRange(strArg(a[0]), sext64(m.concretize(a[1]), 64), sext64(m.concretize(a[2]), 64))
	}
	s["Choose"] = func(m *Machine, _ *frame, a []Value) Value {
		n := sext64(m.concretize(a[1]), 64)
		return C(m.concretize(m.freshRange(strArg(a[0]), 0, n-1)))
	}
	s["Bytes"] = func(m *Machine, _ *frame, a []Value) Value {
		n := m.concInt(a[1])
		out := make(Slice, n)
		for i := range out {
			out[i] = m.newVar(fmt.Sprintf("%s[%d]", strArg(a[0]), i), 8)
		}
		return out
	}
	s["Char"] = func(m *Machine, _ *frame, a []Value) Value { return m.freshChar(strArg(a[0]), strArg(a[1])) }
	s["String"] = func(m *Machine, _ *frame, a []Value) Value {
		n := m.concInt(a[1])
		b := make([]Value, n)
		for i := range b {
			b[i] = m.freshChar(fmt.Sprintf("%s[%d]", strArg(a[0]), i), strArg(a[2]))
		}
		return mkStr(b)
	}
	s["Assume"] = func(m *Machine, _ *frame, a []Value) Value { m.assume(a[0]); return nil }
	s["Assert"] = func(m *Machine, _ *frame, a []Value) Value {
		msg := showStr(a[1])
		known := ""
		if strings.HasPrefix(msg, "[KF") {
			if i := strings.IndexByte(msg, ']'); i > 0 {
				known = msg[1:i]
			}
		}
		if known != "" && m.eng.knownFinding(known) {
			m.assertKnown(a[0], msg, known)
			return nil
		}
		m.assert(a[0], msg, known)
		return nil
	}
	s["Fail"] = func(m *Machine, _ *frame, a []Value) Value { m.assert(C(0), showStr(a[0]), ""); return nil }
	s["Reach"] = func(m *Machine, _ *frame, a []Value) Value { m.reach[strArg(a[0])] = true; return nil }
	s["Observe"] = func(m *Machine, _ *frame, a []Value) Value {
		m.obs = append(m.obs, obs{strArg(a[0]), a[1]})
		return nil
	}
	s["And"] = func(m *Machine, _ *frame, a []Value) Value {
		r := m.tt.T
		for _, t := range boolArgs(m, a[0]) {
			r = m.tt.And(r, t)
		}
		return m.val(r)
	}
	s["Or"] = func(m *Machine, _ *frame, a []Value) Value {
		r := m.tt.F
		for _, t := range boolArgs(m, a[0]) {
			r = m.tt.Or(r, t)
		}
		return m.val(r)
	}
	s["Not"] = func(m *Machine, _ *frame, a []Value) Value { return m.val(m.tt.Not(m.term(a[0], 0))) }
	s["Implies"] = func(m *Machine, _ *frame, a []Value) Value {
		return m.val(m.tt.Or(m.tt.Not(m.term(a[0], 0)), m.term(a[1], 0)))
	}
	ite := func(w uint8) intrinsicFn {
		return func(m *Machine, _ *frame, a []Value) Value {
			return m.val(m.tt.Ite(m.term(a[0], 0), m.term(a[1], w), m.term(a[2], w)))
		}
	}
	s["IteInt"] = ite(64)
	s["IteU64"] = ite(64)
	s["IteByte"] = ite(8)
	s["Param"] = func(m *Machine, _ *frame, a []Value) Value {
		n := strArg(a[0])
		q, t := m.concInt(a[1]), m.concInt(a[2])
		v := q
		if m.eng.opt.tier == "thorough" {
			v = t
		}
		if x, ok := m.eng.opt.params[n]; ok {
			v = x
		}
		m.eng.noteParam(n, v)
		return C(uint64(int64(v)))
	}
	s["Thorough"] = func(m *Machine, _ *frame, a []Value) Value { return b2c(m.eng.opt.tier == "thorough") }
	s["MapOrder"] = func(m *Machine, _ *frame, a []Value) Value { m.permMaps = m.concInt(a[0]); return nil }
	s["Concrete"] = func(m *Machine, _ *frame, a []Value) Value { return C(m.concretize(a[0])) }
	s["Known"] = func(m *Machine, _ *frame, a []Value) Value { _, ok := a[0].(C); return b2c(ok) }
	s["ConcreteBool"] = func(m *Machine, _ *frame, a []Value) Value { return b2c(m.branch(a[0])) }
	s["EqBytes"] = func(m *Machine, _ *frame, a []Value) Value { return m.bytesEq(sliceArg(a[0]), sliceArg(a[1])) }
	s["EqString"] = func(m *Machine, _ *frame, a []Value) Value { return m.bytesEq(strBytes(a[0]), strBytes(a[1])) }
	s["StepLimit"] = func(m *Machine, _ *frame, a []Value) Value {
		m.maxSteps = m.steps + int64(m.concInt(a[0]))
		m.stepKnown = ""
		return nil
	}
	s["StepLimitKnown"] = func(m *Machine, _ *frame, a []Value) Value {
		m.maxSteps = m.steps + int64(m.concInt(a[0]))
		m.stepKnown = strArg(a[1])
		return nil
	}
	s["Tick"] = func(m *Machine, _ *frame, a []Value) Value { m.ticks++; return nil }
	s["AllocLimit"] = func(m *Machine, _ *frame, a []Value) Value { m.allocLimit = uint64(m.concInt(a[0])); return nil }
	s["Preemptions"] = func(m *Machine, _ *frame, a []Value) Value { m.maxPre = m.concInt(a[0]); return nil }
	s["Engine"] = func(m *Machine, _ *frame, a []Value) Value { return C(1) }
	s["Depth"] = func(m *Machine, _ *frame, a []Value) Value { return nil }
	s["Yield"] = func(m *Machine, _ *frame, a []Value) Value { m.yieldPoint(); return nil }
	s["Note"] = func(m *Machine, _ *frame, a []Value) Value { return nil }
}

// assertKnown reports a listed finding and goes on where it does not occur.
func (m *Machine) assertKnown(v Value, msg, id string) {
	switch c := v.(type) {
	case C:
		if c == 0 {
			m.eng.reportKnown(id, msg, m.inputValues())
			panic(pathEnd{"known"})
		}
	case *Term:
		if !m.branchT(c) {
			m.eng.reportKnown(id, msg, m.inputValues())
			panic(pathEnd{"known"})
		}
	default:
		panic(unsupported{fmt.Sprintf("assert on %T", v)})
	}
}

// show renders an observed value under the current model.
func (m *Machine) show(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return fmt.Sprintf("?%T", v)
	}
	if i.t == nil {
		return "nil"
	}
	ev := func(x Value) uint64 {
		switch y := x.(type) {
		case C:
			return uint64(y)
		case *Term:
			return m.tt.Eval(y)
		}
		panic(unsupported{"observation"})
	}
	bs := func(xs []Value) []byte {
		b := make([]byte, len(xs))
		for k, x := range xs {
			b[k] = byte(ev(x))
		}
		return b
	}
	if m.implements(i.t, m.eng.errorIface) {
		return "err"
	}
	switch y := i.v.(type) {
	case C, *Term:
		w, signed, ok := intInfo(i.t)
		if !ok {
			break
		}
		u := ev(y)
		if w == 0 {
			return strconv.FormatBool(u != 0)
		}
		if signed {
			return strconv.FormatInt(sext64(u, w), 10)
		}
		return strconv.FormatUint(u, 10)
	case string:
		return strconv.Quote(y)
	case *SStr:
		return strconv.Quote(string(bs(y.b)))
	case Slice:
		return fmt.Sprintf("%x", bs(y))
	}
	return fmt.Sprintf("?%s", i.t)
}

// panicText renders a panic value.
func (m *Machine) panicText(i Iface) string {
	if i.t == nil {
		return "nil"
	}
	switch y := i.v.(type) {
	case string, *SStr:
		return showStr(y)
	case *Value:
		if y != nil {
			if st, ok := (*y).(Struct); ok && len(st) > 0 {
				switch z := st[0].(type) {
				case string, *SStr:
					return showStr(z)
				}
			}
		}
	}
	return "value of type " + i.t.String()
}
