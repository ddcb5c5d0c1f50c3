package main

import (
	"fmt"
	"go/types"
	"slices"
	"unsafe"
)

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int64) int64 {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if n <= c {
				return c
			}
		}
	}
	return (n + 8191) &^ 8191
}

// growCap mimics the runtime's growslice.
func growCap(old, need int, esz int64) int {
	nc := need
	if dbl := old + old; need <= dbl {
		if old < 256 {
			nc = dbl
		} else {
			nc = old
			for nc < need {
				nc += (nc + 3*256) >> 2
			}
		}
	}
	if esz <= 0 {
		return nc
	}
	return int(roundSize(int64(nc)*esz) / esz)
}

func (m *Machine) appendSlice(s Slice, add []Value, et types.Type) Slice {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		out := s[:n]
		if m.multi {
			for i := len(s); i < n; i++ {
				m.raceVal(&out[i], true)
			}
		}
		for i, v := range add {
			storeVal(&out[len(s)+i], v)
		}
		return out
	}
	if m.multi {
		for i := range s {
			m.raceVal(&s[i], false)
		}
	}
	k := growCap(cap(s), n, sizeofT(et))
	if k < n {
		k = n
	}
	out := make(Slice, k)
	for i := range s {
		out[i] = copyVal(s[i])
	}
	for i, v := range add {
		out[len(s)+i] = copyVal(v)
	}
	if k > n {
		z := zeroFiller(et)
		for i := n; i < k; i++ {
			out[i] = z()
		}
	}
	return out[:n]
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return types.Typ[types.Uint8]
}

func (m *Machine) builtin(fr *frame, name string, ts []types.Type, args []Value, sig *types.Signature) Value {
	for _, a := range args {
		if p, ok := a.(Poison); ok {
			panic(unsupported{"builtin " + name + " on poison: " + p.why})
		}
	}
	switch name {
	case "len":
		switch x := args[0].(type) {
		case string:
			return C(uint64(len(x)))
		case *SStr:
			return C(uint64(len(x.b)))
		case Slice:
			return C(uint64(len(x)))
		case Array:
			return C(uint64(len(x)))
		case *Value:
			return C(uint64(unptr(ts[0]).Underlying().(*types.Array).Len()))
		case *MapV:
			if x == nil {
				return C(0)
			}
			if m.multi {
				m.raceAccess(&x.race, false, "len(map)")
			}
			return C(uint64(x.live))
		case *Chan:
			return C(0)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return C(uint64(cap(x)))
		case Array:
			return C(uint64(len(x)))
		case *Value:
			return C(uint64(unptr(ts[0]).Underlying().(*types.Array).Len()))
		}
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case Slice:
			if m.multi {
				for i := range y {
					m.raceVal(&y[i], false)
				}
			}
			return m.appendSlice(s, y, sliceElem(ts[0]))
		case string, *SStr:
			return m.appendSlice(s, strBytes(y), sliceElem(ts[0]))
		}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		default:
			src = strBytes(y)
		}
		n := min(len(d), len(src))
		if m.multi {
			for i := 0; i < n; i++ {
				m.raceVal(&src[i], false)
				m.raceVal(&d[i], true)
			}
		}
		if n > 0 {
			switch d[0].(type) {
			case Struct, Array:
				tmp := make([]Value, n)
				for i := range tmp {
					tmp[i] = copyVal(src[i])
				}
				for i := range tmp {
					storeVal(&d[i], tmp[i])
				}
			default:
				copy(d[:n], src[:n])
			}
		}
		return C(uint64(n))
	case "Sizeof":
		return C(uint64(sizeofT(ts[0])))
	case "delete":
		mp := m.asMap(args[0])
		if mp != nil {
			m.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.ents {
					e.deleted = true
				}
				x.ents, x.idx, x.nsym, x.live = nil, map[any]*mapEnt{}, 0, 0
			}
		case Slice:
			z := zeroFiller(sliceElem(ts[0]))
			for i := range x {
				storeVal(&x[i], z())
			}
		}
		return nil
	case "panic":
		panic(targetPanic{args[0].(Iface)})
	case "recover":
		// called from a deferred function: its caller is the panicking frame
		if fr != nil && fr.caller != nil && fr.caller.panicking && !fr.caller.recovered {
			fr.caller.recovered = true
			return fr.caller.panicVal
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for i := 1; i < len(args); i++ {
			r = m.minmax(name == "max", ts[0], r, args[i])
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "close":
		panic(unsupported{"close"})
	case "SliceData":
		s := args[0].(Slice)
		if s == nil {
			return (*Value)(nil)
		}
		if cap(s) == 0 {
			p := new(Value)
			return p
		}
		return &s[:1][0]
	case "String":
		p := args[0].(*Value)
		n := m.concInt(args[1])
		if n == 0 {
			return ""
		}
		return mkStr(unsafe.Slice(p, n))
	case "Slice":
		p := args[0].(*Value)
		n := m.concInt(args[1])
		if p == nil {
			return Slice(nil)
		}
		return Slice(unsafe.Slice(p, n))
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return (*Value)(nil)
		}
		return &b[0]
	case "Add":
		panic(unsupported{"unsafe.Add"})
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	}
	panic(unsupported{fmt.Sprintf("builtin %s on %T", name, args[0])})
}

func (m *Machine) minmax(isMax bool, t types.Type, a, b Value) Value {
	if isFloat(t) {
		if isMax {
			return max(a.(float64), b.(float64))
		}
		return min(a.(float64), b.(float64))
	}
	if isString(t) {
		lt, _ := m.lexCmp(strBytes(a), strBytes(b))
		if m.branch(m.val(lt)) != isMax {
			return a
		}
		return b
	}
	w, s, _ := intInfo(t)
	x, y := m.term(a, w), m.term(b, w)
	var lt *Term
	if s {
		lt = m.tt.Slt(x, y)
	} else {
		lt = m.tt.Ult(x, y)
	}
	if isMax {
		return m.val(m.tt.Ite(lt, y, x))
	}
	return m.val(m.tt.Ite(lt, x, y))
}

// ---- maps ----

func newMap(kt types.Type) *MapV { return &MapV{idx: map[any]*mapEnt{}, kt: kt} }

func (m *Machine) asMap(v Value) *MapV {
	switch x := v.(type) {
	case *MapV:
		return x
	case Poison:
		panic(unsupported{"poison: " + x.why})
	}
	panic(unsupported{fmt.Sprintf("map operation on %T", v)})
}

func (m *Machine) mapFind(mp *MapV, k Value) *mapEnt {
	h, ok := hashKey(k)
	if i, isI := k.(Iface); isI && i.t != nil && !types.Comparable(i.t) {
		m.rtPanic("hash of unhashable type " + i.t.String())
	}
	if ok {
		if e := mp.idx[h]; e != nil {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
		for _, e := range mp.ents {
			if e.deleted {
				continue
			}
			if _, hk := hashKey(e.key); hk {
				continue
			}
			if m.branch(m.eqVal(e.key, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range mp.ents {
		if e.deleted {
			continue
		}
		if m.branch(m.eqVal(e.key, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapGet(mp *MapV, k Value) (Value, bool) {
	if mp == nil {
		return nil, false
	}
	if m.multi {
		m.raceAccess(&mp.race, false, "map read")
	}
	e := m.mapFind(mp, k)
	if e == nil {
		return nil, false
	}
	return e.val, true
}

func (m *Machine) mapPut(mp *MapV, k, v Value) {
	if m.multi {
		m.raceAccess(&mp.race, true, "map write")
	}
	e := m.mapFind(mp, k)
	if e != nil {
		e.val = v
		return
	}
	e = &mapEnt{key: copyVal(k), val: v}
	mp.ents = append(mp.ents, e)
	mp.live++
	if h, ok := hashKey(k); ok {
		mp.idx[h] = e
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(mp *MapV, k Value) {
	if m.multi {
		m.raceAccess(&mp.race, true, "map delete")
	}
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	e.deleted = true
	mp.live--
	if h, ok := hashKey(e.key); ok {
		delete(mp.idx, h)
	} else {
		mp.nsym--
	}
	for i, x := range mp.ents {
		if x == e {
			mp.ents = append(append([]*mapEnt{}, mp.ents[:i]...), mp.ents[i+1:]...)
			break
		}
	}
}

func (m *Machine) mapIter(mp *MapV) Value {
	if mp == nil {
		return &MapIter{}
	}
	if m.multi {
		m.raceAccess(&mp.race, false, "map iteration")
	}
	order := append([]*mapEnt(nil), mp.ents...)
	n := len(order)
	if !m.tolerant && m.permMaps > 1 && n > 1 {
		m.orderDep = true
		f := 1
		for i := 2; i <= n && f <= m.permMaps; i++ {
			f *= i
		}
		if f <= m.permMaps {
			for i := 0; i < n-1; i++ {
				j := i + m.choose("maporder", n-i)
				order[i], order[j] = order[j], order[i]
			}
		} else {
			// forwards, backwards, and rotations of it
			r := m.choose("maprot", min(m.permMaps, n+1))
			if r > 0 {
				slices.Reverse(order)
				order = append(append([]*mapEnt(nil), order[r-1:]...), order[:r-1]...)
			}
		}
	}
	return &MapIter{mp: mp, order: order}
}
