package main

import (
	"math/bits"
	"sort"
)

// Equations between sums of bits (checksums) are brought into reduced row
// echelon form over GF(2): SAT solvers are bad at long chains of exclusive ors.

type affine struct {
	tt  *TermTable
	sum map[*Term]uint64 // 1-bit atoms and the bits they flip
	k   uint64
}

func (f *affine) flip(atom *Term, m uint64) {
	if m == 0 {
		return
	}
	if c := f.sum[atom] ^ m; c == 0 {
		delete(f.sum, atom)
	} else {
		f.sum[atom] = c
	}
}

// add adds the bits of t in [lo, lo+w), shifted to position at.
func (f *affine) add(t *Term, lo, w, at uint8) {
	tt := f.tt
	switch t.op {
	case OConst:
		f.k ^= t.k >> lo & mask(w) << at
	case OBXor:
		f.add(t.a, lo, w, at)
		f.add(t.b, lo, w, at)
	case OBNot:
		f.k ^= mask(w) << at
		f.add(t.a, lo, w, at)
	case OExtract:
		f.add(t.a, lo+uint8(t.k), w, at)
	case OZext:
		if lo < t.a.w {
			f.add(t.a, lo, min(w, t.a.w-lo), at)
		}
	case OConcat:
		if lo < t.b.w {
			n := min(w, t.b.w-lo)
			f.add(t.b, lo, n, at)
			if n < w {
				f.add(t.a, 0, w-n, at+n)
			}
			return
		}
		f.add(t.a, lo-t.b.w, w, at)
	case OIte:
		if t.b.isConst() && t.c.isConst() {
			x, y := t.b.k>>lo&mask(w)<<at, t.c.k>>lo&mask(w)<<at
			f.k ^= y
			f.cond(t.a, x^y)
			return
		}
		fallthrough
	default:
		for i := uint8(0); i < w; i++ {
			b := tt.Extract(t, lo+i, 1)
			if b.isConst() {
				f.k ^= b.k << (at + i)
			} else {
				f.flip(b, 1<<(at+i))
			}
		}
	}
}

// cond adds m where c holds.
func (f *affine) cond(c *Term, m uint64) {
	switch {
	case c.isConst():
		if c.k != 0 {
			f.k ^= m
		}
	case c.op == ONot:
		f.k ^= m
		f.cond(c.a, m)
	case c.op == OEq && c.a.w == 1 && (c.a.isConst() || c.b.isConst()):
		x, k := c.a, c.b
		if x.isConst() {
			x, k = k, x
		}
		if k.k == 0 {
			f.k ^= m
		}
		f.bit(x, m)
	default:
		f.bit(f.tt.BoolToBV(c, 1), m)
	}
}

// bit adds m where the 1-bit term t is set.
func (f *affine) bit(t *Term, m uint64) {
	g := affine{tt: f.tt, sum: map[*Term]uint64{}}
	if t.op == OIte {
		f.flip(t, m)
		return
	}
	g.add(t, 0, 1, 0)
	if g.k != 0 {
		f.k ^= m
	}
	for a := range g.sum {
		f.flip(a, m)
	}
}

// xorLeaves counts the leaves of a chain of exclusive ors, up to n.
func xorLeaves(t *Term, n int) int {
	switch t.op {
	case OBXor:
		if k := xorLeaves(t.a, n); k >= n {
			return k
		} else {
			return k + xorLeaves(t.b, n-k)
		}
	case OBNot, OExtract, OZext:
		return xorLeaves(t.a, n)
	case OConcat:
		return max(xorLeaves(t.a, n), xorLeaves(t.b, n))
	}
	return 1
}

const xorMin = 8

// xorEq is the conjunction of the independent equations that a == b stands for.
func (tt *TermTable) xorEq(a, b *Term) *Term {
	key := [2]int32{a.id, b.id}
	if r, ok := tt.xorMemo[key]; ok {
		return r
	}
	f := affine{tt: tt, sum: map[*Term]uint64{}}
	f.add(a, 0, a.w, 0)
	f.add(b, 0, b.w, 0)
	atoms := make([]*Term, 0, len(f.sum))
	for t := range f.sum {
		atoms = append(atoms, t)
	}
	// atoms in few equations, such as the checksum itself, are solved for first
	sort.Slice(atoms, func(i, j int) bool {
		x, y := bits.OnesCount64(f.sum[atoms[i]]), bits.OnesCount64(f.sum[atoms[j]])
		if x != y {
			return x < y
		}
		return atoms[i].id < atoms[j].id
	})
	n := len(atoms)
	words := n/64 + 1
	rows := make([][]uint64, a.w) // column n is the constant
	for j := range rows {
		r := make([]uint64, words)
		for i, t := range atoms {
			if f.sum[t]>>j&1 != 0 {
				r[i/64] |= 1 << (i % 64)
			}
		}
		if f.k>>j&1 != 0 {
			r[n/64] |= 1 << (n % 64)
		}
		rows[j] = r
	}
	rank := 0
	for i := 0; i < n && rank < len(rows); i++ {
		p := -1
		for j := rank; j < len(rows); j++ {
			if rows[j][i/64]>>(i%64)&1 != 0 {
				p = j
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[rank], rows[p] = rows[p], rows[rank]
		for j := range rows {
			if j != rank && rows[j][i/64]>>(i%64)&1 != 0 {
				for w := range rows[j] {
					rows[j][w] ^= rows[rank][w]
				}
			}
		}
		rank++
	}
	res := tt.T
	for _, r := range rows[rank:] {
		if r[n/64]>>(n%64)&1 != 0 {
			res = tt.F
		}
	}
	for _, r := range rows[:rank] {
		var sum *Term
		for i, t := range atoms {
			if r[i/64]>>(i%64)&1 != 0 {
				if sum == nil {
					sum = t
				} else {
					sum = tt.mk(OBXor, 1, sum, t, nil, 0)
				}
			}
		}
		k := tt.Const(1, r[n/64]>>(n%64)&1)
		if sum.op == OBXor {
			res = tt.And(res, tt.mk(OEq, 0, sum, k, nil, 0))
		} else {
			res = tt.And(res, tt.Eq(sum, k))
		}
	}
	tt.xorMemo[key] = res
	return res
}
