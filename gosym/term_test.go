package main

import (
	"math/bits"
	"math/rand"
	"strings"
	"testing"
)

// Random expressions: the simplified term must evaluate like the raw operators,
// and lie in the interval computed for it.
func TestTerms(t *testing.T) {
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		tt := NewTermTable()
		type node struct {
			t *Term
			f func() uint64
		}
		var vals []uint64
		var pool []node
		ws := []uint8{8, 8, 16, 64}
		w0 := ws[r.Intn(4)]
		var his []uint64
		for i := 0; i < 4; i++ {
			i := i
			w := w0
			hi := mask(w)
			if r.Intn(2) == 0 {
				w = uint8(1 + r.Intn(int(w0)))
				hi = r.Uint64()&mask(w) | 1
				w = uint8(bits.Len64(hi))
			}
			v := tt.VarMax("x"+string(rune('a'+i)), w, hi)
			vals = append(vals, 0)
			his = append(his, hi)
			n := node{v, func() uint64 { return vals[i] }}
			if w < w0 {
				n = node{tt.Zext(v, w0), n.f}
			}
			pool = append(pool, n)
		}
		var bools []node
		pick := func() node {
			if r.Intn(4) == 0 {
				k := r.Uint64() & mask(w0)
				switch r.Intn(4) {
				case 0:
					k = uint64(r.Intn(12)) & mask(w0)
				case 1:
					k = 1 << r.Intn(int(w0))
				case 2:
					k = mask(w0) - uint64(r.Intn(5))
				}
				return node{tt.Const(w0, k), func() uint64 { return k }}
			}
			return pool[r.Intn(len(pool))]
		}
		for i := 0; i < 40; i++ {
			a, b := pick(), pick()
			mk := func(op Op, f func(a, b *Term) *Term) node {
				return node{f(a.t, b.t), func() uint64 { return evalOp(op, w0, w0, w0, a.f(), b.f(), 0, 0) }}
			}
			switch r.Intn(24) {
			case 0, 1, 2, 3:
				pool = append(pool, mk(OAdd, tt.Add))
			case 4, 5, 6:
				pool = append(pool, mk(OSub, tt.Sub))
			case 7:
				pool = append(pool, mk(OMul, tt.Mul))
			case 8:
				pool = append(pool, mk(OBAnd, tt.BAnd))
			case 9:
				pool = append(pool, mk(OBOr, tt.BOr))
			case 10:
				pool = append(pool, mk(OBXor, tt.BXor))
			case 11:
				if b.t.isConst() && b.t.k != 0 {
					pool = append(pool, mk(OUDiv, tt.UDiv))
				}
			case 12:
				if b.t.isConst() && b.t.k != 0 {
					pool = append(pool, mk(OURem, tt.URem))
				}
			case 13:
				if b.t.isConst() && b.t.k != 0 {
					pool = append(pool, mk(OSDiv, tt.SDiv))
				}
			case 14:
				if b.t.isConst() && b.t.k != 0 {
					pool = append(pool, mk(OSRem, tt.SRem))
				}
			case 15:
				if b.t.isConst() {
					pool = append(pool, mk(OShl, tt.Shl))
				}
			case 16:
				if b.t.isConst() {
					pool = append(pool, mk(OLshr, tt.Lshr))
				}
			case 17:
				if b.t.isConst() {
					pool = append(pool, mk(OAshr, tt.Ashr))
				}
			case 18:
				bools = append(bools, mk(OEq, tt.Eq))
			case 19:
				bools = append(bools, mk(OUlt, tt.Ult))
			case 20:
				bools = append(bools, mk(OUle, tt.Ule))
			case 21:
				bools = append(bools, mk(OSlt, tt.Slt))
			case 22:
				bools = append(bools, mk(OSle, tt.Sle))
			case 23:
				if len(bools) > 0 {
					c := bools[r.Intn(len(bools))]
					pool = append(pool, node{tt.Ite(c.t, a.t, b.t), func() uint64 {
						if c.f() != 0 {
							return a.f()
						}
						return b.f()
					}})
				}
			}
		}
		if seed < 150 {
			// what is sent to the solver means the same
			sol := newZ3(tt, 20000)
			var cs []*Term
			for i := range vals {
				vals[i] = r.Uint64()
				if r.Intn(2) == 0 || vals[i] > his[i] {
					vals[i] = his[i] - uint64(r.Intn(int(min(his[i], 3)+1)))
				}
				v := tt.varList[i]
				cs = append(cs, tt.mk(OEq, 0, v, tt.Const(v.w, vals[i]), nil, 0))
			}
			ne := tt.F
			for _, n := range append(append([]node{}, pool...), bools...) {
				ne = tt.Or(ne, tt.mk(ONot, 0, tt.mk(OEq, 0, n.t, tt.Const(n.t.w, n.f()), nil, 0), nil, nil, 0))
			}
			if res := sol.Check(append(cs, ne), nil, nil); res != Unsat {
				for _, n := range append(append([]node{}, pool...), bools...) {
					x := tt.mk(ONot, 0, tt.mk(OEq, 0, n.t, tt.Const(n.t.w, n.f()), nil, 0), nil, nil, 0)
					if sol.Check(append(cs, x), nil, nil) != Unsat {
						var sb strings.Builder
						sol.emit = map[*Term]bool{}
						sol.emitTerm(&sb, n.t)
						t.Fatalf("seed %d: solver disagrees: %v %s = %d [%d %d] vals %v\n%s", seed, res, n.t, n.f(), n.t.lo, n.t.hi, vals, sb.String())
					}
				}
			}
			if res := sol.Check(cs, nil, nil); res != Sat {
				t.Fatalf("seed %d: inconsistent: %v", seed, res)
			}
			sol.stop()
		}
		for k := 0; k < 30; k++ {
			for i := range vals {
				v := r.Uint64()
				switch r.Intn(3) {
				case 0:
					v = uint64(r.Intn(4))
				case 1:
					v = his[i] - uint64(r.Intn(3))
				}
				if v > his[i] {
					if his[i] == ^uint64(0) {
						v = his[i]
					} else {
						v %= his[i] + 1
					}
				}
				vals[i] = v
				tt.setModelVar(int32(i), v)
			}
			for i, n := range append(append([]node{}, pool...), bools...) {
				want := n.f()
				if got := tt.Eval(n.t); got != want {
					t.Fatalf("seed %d node %d: %s = %d, want %d", seed, i, n.t, got, want)
				}
				if n.t.w > 0 && (want < n.t.lo || want > n.t.hi) {
					t.Fatalf("seed %d node %d: %s = %d outside [%d,%d]", seed, i, n.t, want, n.t.lo, n.t.hi)
				}
			}
		}
	}
}

// TestXorEq compares sums of bits with and without their normal form.
func TestXorEq(t *testing.T) {
	r := rand.New(rand.NewSource(3))
	for round := 0; round < 300; round++ {
		tt := NewTermTable()
		var vars []*Term
		for i := 0; i < 3; i++ {
			vars = append(vars, tt.Var("x"+string(rune('a'+i)), 8))
		}
		w := []uint8{8, 16, 32}[r.Intn(3)]
		sum := func() *Term {
			x := tt.Const(w, r.Uint64())
			for i := 0; i < 4+r.Intn(16); i++ {
				v := vars[r.Intn(3)]
				c := tt.Eq(tt.Extract(v, uint8(r.Intn(8)), 1), tt.Const(1, uint64(r.Intn(2))))
				if r.Intn(3) == 0 {
					c = tt.Ult(v, tt.Const(8, r.Uint64()))
				}
				x = tt.BXor(x, tt.Ite(c, tt.Const(w, r.Uint64()&(r.Uint64()|7)), tt.Const(w, 0)))
				switch r.Intn(6) {
				case 0:
					x = tt.BNot(x)
				case 1:
					x = tt.BXor(x, tt.Zext(v, w))
				case 2:
					k := uint8(1 + r.Intn(int(w-1)))
					x = tt.Concat(tt.Extract(x, k, w-k), tt.Extract(x, 0, k))
				}
			}
			return x
		}
		a, b := sum(), sum()
		if r.Intn(2) == 0 {
			b = tt.Const(w, tt.Eval(b))
		}
		e := tt.xorEq(a, b)
		for i := 0; i < 200; i++ {
			for j := range vars {
				tt.setModelVar(int32(vars[j].k), r.Uint64()&0xff)
			}
			if (tt.Eval(a) == tt.Eval(b)) != (tt.Eval(e) != 0) {
				t.Fatalf("round %d: %v == %v is not %v", round, a, b, e)
			}
		}
		// values that solve the equation are found less often: flip the constant
		d := tt.Const(w, tt.Eval(a)^tt.Eval(b))
		if tt.Eval(tt.xorEq(tt.BXor(a, d), b)) == 0 {
			t.Fatalf("round %d: a solution is missed", round)
		}
	}
}
