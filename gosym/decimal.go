package main

// Decimal formatting of symbolic integers: the digits are fresh variables tied
// to the number by a Horner sum, which is also what parsing them back computes.

import "strconv"

// decDigits is the decimal rendering of v.
func (m *Machine) decDigits(v *Term, signed bool) []Value {
	var out []Value
	w := v.w
	if signed && m.branchT(m.tt.Slt(v, m.tt.Const(w, 0))) {
		out = append(out, C('-'))
		v = m.tt.Sub(m.tt.Const(w, 0), v)
	}
	n, p := 1, uint64(10)
	for n < 20 && !m.branchT(m.tt.Ult(v, m.tt.Const(w, p))) {
		n++
		if n < 20 {
			p *= 10
		}
	}
	if n == 1 {
		return append(out, m.val(m.tt.Add(m.tt.Extract(v, 0, 8), m.tt.Const(8, '0'))))
	}
	cur := m.tt.Eval(v)
	ds := make([]*Term, n)
	for i := range ds {
		ds[i] = m.newVarMax("decimal", 4, 9)
	}
	for i := n - 1; i >= 0; i-- {
		m.tt.setModelVar(int32(ds[i].k), cur%10)
		cur /= 10
	}
	sum := m.tt.Const(64, 0)
	for i, d := range ds {
		m.assumeRange(d, 4, 9)
		z := m.tt.Zext(d, 64)
		if i > 0 {
			sum = m.tt.Mul(sum, m.tt.Const(64, 10))
		}
		sum = m.tt.Add(sum, z)
		out = append(out, m.val(m.tt.Add(m.tt.Zext(d, 8), m.tt.Const(8, '0'))))
	}
	m.assume(m.val(m.tt.Eq(v, sum)))
	return out
}

func initDecimal() {
	format := func(signed bool) intrinsicFn {
		return func(m *Machine, _ *frame, a []Value) Value {
			base := 10
			if len(a) > 1 {
				base = m.concInt(a[1])
			}
			t := m.term(a[0], 64)
			if t.isConst() {
				if signed {
					return strconv.FormatInt(int64(t.k), base)
				}
				return strconv.FormatUint(t.k, base)
			}
			if base != 10 {
				return m.formatPow2(t, signed, base)
			}
			return mkStr(m.decDigits(t, signed))
		}
	}
	intrinsics["strconv.FormatInt"] = format(true)
	intrinsics["strconv.FormatUint"] = format(false)
	intrinsics["strconv.Itoa"] = format(true)
	app := func(signed bool) intrinsicFn {
		f := format(signed)
		return func(m *Machine, fr *frame, a []Value) Value {
			s := f(m, fr, a[1:])
			return append(append(Slice(nil), sliceArg(a[0])...), strBytes(s)...)
		}
	}
	intrinsics["strconv.AppendInt"] = app(true)
	intrinsics["strconv.AppendUint"] = app(false)
}

// formatPow2 renders in base 2, 8 or 16.
func (m *Machine) formatPow2(v *Term, signed bool, base int) Value {
	var shift uint8
	switch base {
	case 2:
		shift = 1
	case 4:
		shift = 2
	case 8:
		shift = 3
	case 16:
		shift = 4
	default:
		panic(unsupported{"symbolic number in base " + strconv.Itoa(base)})
	}
	var out []Value
	if signed && m.branchT(m.tt.Slt(v, m.tt.Const(64, 0))) {
		out = append(out, C('-'))
		v = m.tt.Sub(m.tt.Const(64, 0), v)
	}
	n := 1
	for n*int(shift) < 64 && !m.branchT(m.tt.Ult(v, m.tt.Const(64, uint64(1)<<(n*int(shift))))) {
		n++
	}
	for i := n - 1; i >= 0; i-- {
		lo := uint8(i) * shift
		d := m.tt.Zext(m.tt.Extract(v, lo, min(shift, 64-lo)), 8)
		c := m.tt.Add(d, m.tt.Const(8, '0'))
		if base == 16 {
			c = m.tt.Ite(m.tt.Ult(d, m.tt.Const(8, 10)), c, m.tt.Add(d, m.tt.Const(8, 'a'-10)))
		}
		out = append(out, m.val(c))
	}
	return mkStr(out)
}
