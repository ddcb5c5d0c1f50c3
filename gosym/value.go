package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unsafe"
)

// Value is one of:
//
//	C         concrete integer or bool (truncated to its width)
//	*Term     symbolic integer or bool
//	float64   floating point (concrete only)
//	complex128
//	string    concrete string
//	*SStr     string with at least one symbolic byte (concrete length)
//	*Value    pointer (nil pointer: (*Value)(nil))
//	*SymPtr   pointer to one of several scalar slots, selected symbolically
//	Struct, Array, Tuple
//	Slice     slice with concrete bounds
//	*MapV, *Chan, *Closure, Iface, *MapIter, *StrIter, Poison
type Value any

type C uint64

type SStr struct{ b []Value }

type Struct []Value
type Array []Value
type Tuple []Value
type Slice []Value

type SymPtr struct {
	base []Value
	idx  *Term
	w    uint8 // width of the elements
}

type Closure struct {
	fn  *Fn
	env []Value
}

type Iface struct {
	t types.Type
	v Value
}

type Poison struct{ why string }

type mapEnt struct {
	key, val Value
	deleted  bool
}

type MapV struct {
	ents []*mapEnt
	idx  map[any]*mapEnt
	nsym int // number of live entries with non-hashable (symbolic) keys
	live int
	kt   types.Type
	race raceCell
}

type MapIter struct {
	mp    *MapV
	order []*mapEnt
	i     int
}

type StrIter struct {
	s Value
	i int
}

func b2c(b bool) C {
	if b {
		return 1
	}
	return 0
}

func unptr(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

// intInfo gives width and signedness of an integer-like basic type (bool: w=0).
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isIface(t types.Type) bool {
	return types.IsInterface(t)
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		info := u.Info()
		switch {
		case info&types.IsString != 0:
			return ""
		case info&types.IsFloat != 0:
			return float64(0)
		case info&types.IsComplex != 0:
			return complex128(0)
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
		return C(0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := u.Len()
		a := make(Array, n)
		if n > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				a[0] = z
				for i := int64(1); i < n; i++ {
					a[i] = copyVal(z)
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	panic(unsupported{fmt.Sprintf("zero value of %s", t)})
}

func zeroFiller(t types.Type) func() Value {
	z := zero(t)
	switch z.(type) {
	case Struct, Array:
		return func() Value { return copyVal(z) }
	}
	return func() Value { return z }
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		y := make(Struct, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				y[i] = copyVal(e)
			default:
				y[i] = e
			}
		}
		return y
	case Array:
		y := make(Array, len(x))
		copy(y, x)
		if len(y) > 0 {
			switch y[0].(type) {
			case Struct, Array:
				for i := range y {
					y[i] = copyVal(y[i])
				}
			}
		}
		return y
	}
	return v
}

// storeVal writes v into *p in place, keeping interior slots.
func storeVal(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		d, ok := (*p).(Struct)
		if !ok || len(d) != len(x) {
			*p = copyVal(v)
			return
		}
		for i := range x {
			storeVal(&d[i], x[i])
		}
		return
	case Array:
		d, ok := (*p).(Array)
		if !ok || len(d) != len(x) {
			*p = copyVal(v)
			return
		}
		for i := range x {
			storeVal(&d[i], x[i])
		}
		return
	}
	*p = v
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	case Poison:
		panic(unsupported{"poison string: " + s.why})
	}
	panic(unsupported{fmt.Sprintf("strLen of %T", v)})
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return C(s[i])
	case *SStr:
		return s.b[i]
	}
	panic("strAt")
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic("strSlice")
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(C); !ok {
			cp := make([]Value, len(b))
			copy(cp, b)
			return &SStr{cp}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(C))
	}
	return string(bs)
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = C(s[i])
		}
		return out
	case *SStr:
		out := make([]Value, len(s.b))
		copy(out, s.b)
		return out
	case Poison:
		panic(unsupported{"poison string: " + s.why})
	}
	panic(unsupported{fmt.Sprintf("strBytes of %T", v)})
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	out := make([]Value, 0, strLen(a)+strLen(b))
	out = append(out, strBytes(a)...)
	out = append(out, strBytes(b)...)
	return mkStr(out)
}

func cstr(v Value) (string, bool) { s, ok := v.(string); return s, ok }

// showStr renders a string for messages; symbolic bytes appear as '?'.
func showStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SStr:
		var sb strings.Builder
		for _, b := range s.b {
			if c, ok := b.(C); ok {
				sb.WriteByte(byte(c))
			} else {
				sb.WriteByte('?')
			}
		}
		return sb.String()
	}
	return fmt.Sprintf("%T", v)
}

// ---- hashing of map keys ----

type ifaceKey struct {
	t types.Type
	v any
}

type ptrKey struct{ p unsafe.Pointer }

func hashKey(v Value) (any, bool) {
	switch x := v.(type) {
	case C:
		return x, true
	case string:
		return x, true
	case float64:
		return x, true
	case *Value:
		return x, true
	case *Term, *SStr:
		return nil, false
	case Iface:
		if x.t == nil {
			return ifaceKey{}, true
		}
		k, ok := hashKey(x.v)
		if !ok {
			return nil, false
		}
		return ifaceKey{x.t, k}, true
	case Struct:
		return hashSeq([]Value(x))
	case Array:
		return hashSeq([]Value(x))
	case *Chan:
		return x, true
	}
	return nil, false
}

func hashSeq(xs []Value) (any, bool) {
	var sb strings.Builder
	for _, e := range xs {
		k, ok := hashKey(e)
		if !ok {
			return nil, false
		}
		switch y := k.(type) {
		case C:
			sb.WriteString("i" + strconv.FormatUint(uint64(y), 10))
		case string:
			fmt.Fprintf(&sb, "s%d:%s", len(y), y)
		case *Value:
			fmt.Fprintf(&sb, "p%p", y)
		case ifaceKey:
			fmt.Fprintf(&sb, "I%p:%v", y.t, y.v)
		case float64:
			fmt.Fprintf(&sb, "f%d", math.Float64bits(y))
		default:
			return nil, false
		}
		sb.WriteByte(';')
	}
	return sb.String(), true
}

func isNilValue(v Value) bool {
	switch x := v.(type) {
	case *Value:
		return x == nil
	case Slice:
		return x == nil
	case *MapV:
		return x == nil
	case *Chan:
		return x == nil
	case *Closure:
		return x == nil
	case Iface:
		return x.t == nil
	}
	return false
}

type unsupported struct{ why string }

func (u unsupported) String() string { return "unsupported: " + u.why }
