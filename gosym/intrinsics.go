package main

// Functions the engine executes itself: the sym package, assembly and runtime
// primitives, reflection-driven library code and synchronisation.

import (
	"unsafe"

	"fmt"
	"go/types"
	"hash/crc32"
	"math"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(m *Machine, caller *frame, args []Value) Value

const libPkg = "verif.local/harness/lib"

// standIns are system calls that the harness library models.
var standIns = map[string]string{
	libPkg + ".openFile":  "modelOpenFile",
	libPkg + ".drainFile": "modelDrainFile",
	"(*os.File).WriteAt":  "modelWriteAt",
	"(*os.File).ReadAt":   "modelReadAt",
	"(*os.File).Truncate": "modelTruncate",
}

const symPkg = "verif.local/harness/sym"

func (e *Engine) findIntrinsic(f *ssa.Function) func(m *Machine, caller *frame, args []Value) Value {
	name := f.String()
	if f.Name() == "init" && f.Pkg != nil && f.Signature.Recv() == nil && skipInit(f.Pkg.Pkg.Path()) {
		return nop
	}
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if fn, ok := intrinsics[name]; ok {
		return fn
	}
	if to, ok := standIns[name]; ok {
		if p := e.prog.ImportedPackage(libPkg); p != nil {
			if sf := p.Func(to); sf != nil {
				return func(m *Machine, _ *frame, args []Value) Value { return m.call(e.fnFor(sf), args, nil) }
			}
		}
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == symPkg {
		if fn, ok := symIntrinsics[f.Name()]; ok {
			return fn
		}
	}
	if strings.Contains(name, "sync/atomic") || strings.Contains(name, "internal/runtime/atomic") {
		if fn := atomicIntrinsic(f, name); fn != nil {
			return fn
		}
	}
	return nil
}

// skipInit: the runtime's own state is never looked at.
func skipInit(p string) bool {
	return p == "runtime" || strings.HasPrefix(p, "runtime/") || strings.HasPrefix(p, "internal/runtime/") || p == "internal/cpu" || p == "unsafe"
}

func elemInt(f *ssa.Function) (uint8, bool) {
	t := f.Signature.Params().At(0).Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		w, _, ok2 := intInfo(p.Elem())
		return w, ok2
	}
	return 0, false
}

func atomicIntrinsic(f *ssa.Function, name string) intrinsicFn {
	if f.Signature.Recv() != nil || f.Blocks != nil {
		return nil // methods are interpreted down to the functions
	}
	n := f.Name()
	deref := func(m *Machine, v Value) *Value {
		p, ok := v.(*Value)
		if !ok {
			panic(unsupported{"atomic on " + fmt.Sprintf("%T", v)})
		}
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(m *Machine, _ *frame, a []Value) Value {
			p := deref(m, a[0])
			m.atomicOp(p)
			return *p
		}
	case strings.HasPrefix(n, "Store"):
		return func(m *Machine, _ *frame, a []Value) Value {
			p := deref(m, a[0])
			m.atomicOp(p)
			*p = a[1]
			return nil
		}
	case strings.HasPrefix(n, "Swap"):
		return func(m *Machine, _ *frame, a []Value) Value {
			p := deref(m, a[0])
			m.atomicOp(p)
			o := *p
			*p = a[1]
			return o
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(m *Machine, _ *frame, a []Value) Value {
			p := deref(m, a[0])
			m.atomicOp(p)
			if m.branch(m.eqVal(*p, a[1])) {
				*p = a[2]
				return C(1)
			}
			return C(0)
		}
	case strings.HasPrefix(n, "Add"):
		w, ok := elemInt(f)
		if !ok {
			return nil
		}
		return func(m *Machine, _ *frame, a []Value) Value {
			p := deref(m, a[0])
			m.atomicOp(p)
			*p = m.val(m.tt.Add(m.term(*p, w), m.term(a[1], w)))
			return *p
		}
	case strings.HasPrefix(n, "And"), strings.HasPrefix(n, "Or"):
		w, ok := elemInt(f)
		if !ok {
			return nil
		}
		and := strings.HasPrefix(n, "And")
		return func(m *Machine, _ *frame, a []Value) Value {
			p := deref(m, a[0])
			m.atomicOp(p)
			o := *p
			if and {
				*p = m.val(m.tt.BAnd(m.term(*p, w), m.term(a[1], w)))
			} else {
				*p = m.val(m.tt.BOr(m.term(*p, w), m.term(a[1], w)))
			}
			return o
		}
	}
	return nil
}

func ptrArg(m *Machine, v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		panic(unsupported{fmt.Sprintf("pointer expected, got %T", v)})
	}
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func strArg(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported{fmt.Sprintf("concrete string expected, got %T", v)})
	}
	return s
}

// indexByte returns the first index of c in b as a term (or -1).
func (m *Machine) indexByte(b []Value, c Value) Value {
	allC := true
	cc, ok := c.(C)
	if !ok {
		allC = false
	}
	if allC {
		for i, x := range b {
			xc, ok := x.(C)
			if !ok {
				allC = false
				break
			}
			if xc == cc {
				return C(uint64(i))
			}
		}
		if allC {
			return C(math.MaxUint64)
		}
	}
	r := m.tt.Const(64, math.MaxUint64)
	ct := m.term(c, 8)
	for i := len(b) - 1; i >= 0; i-- {
		r = m.tt.Ite(m.eqKnown(m.term(b[i], 8), ct), m.tt.Const(64, uint64(i)), r)
	}
	return m.val(r)
}

// eqKnown is Eq simplified with what the path already decided.
func (m *Machine) eqKnown(a, b *Term) *Term {
	t := m.tt.Eq(a, b)
	if t.isConst() {
		return t
	}
	switch m.known(t) {
	case 1:
		return m.tt.T
	case -1:
		return m.tt.F
	}
	return t
}

func (m *Machine) lastIndexByte(b []Value, c Value) Value {
	r := m.tt.Const(64, math.MaxUint64)
	ct := m.term(c, 8)
	for i := 0; i < len(b); i++ {
		r = m.tt.Ite(m.eqKnown(m.term(b[i], 8), ct), m.tt.Const(64, uint64(i)), r)
	}
	return m.val(r)
}

func (m *Machine) countByte(b []Value, c Value) Value {
	r := m.tt.Const(64, 0)
	ct := m.term(c, 8)
	for i := range b {
		r = m.tt.Add(r, m.tt.BoolToBV(m.tt.Eq(m.term(b[i], 8), ct), 64))
	}
	return m.val(r)
}

func (m *Machine) cmpBytes(a, b []Value) Value {
	lt, eq := m.lexCmp(a, b)
	return m.val(m.tt.Ite(lt, m.tt.Const(64, math.MaxUint64), m.tt.Ite(eq, m.tt.Const(64, 0), m.tt.Const(64, 1))))
}

func (m *Machine) indexSub(a, b []Value) Value {
	if len(b) > len(a) {
		return C(math.MaxUint64)
	}
	r := m.tt.Const(64, math.MaxUint64)
	for i := len(a) - len(b); i >= 0; i-- {
		e := m.bytesEq(a[i:i+len(b)], b)
		var t *Term
		switch x := e.(type) {
		case C:
			t = m.tt.Bool(x != 0)
		case *Term:
			t = x
		}
		r = m.tt.Ite(t, m.tt.Const(64, uint64(i)), r)
	}
	return m.val(r)
}

func sliceArg(v Value) []Value {
	s, ok := v.(Slice)
	if !ok {
		panic(unsupported{fmt.Sprintf("slice expected, got %T", v)})
	}
	return s
}

var intrinsics map[string]intrinsicFn

func nop(m *Machine, _ *frame, a []Value) Value { return nil }

func init() {
	in := map[string]intrinsicFn{}
	intrinsics = in

	// --- byte search primitives
	in["internal/bytealg.IndexByte"] = func(m *Machine, _ *frame, a []Value) Value { return m.indexByte(sliceArg(a[0]), a[1]) }
	in["internal/bytealg.IndexByteString"] = func(m *Machine, _ *frame, a []Value) Value { return m.indexByte(strBytes(a[0]), a[1]) }
	in["internal/bytealg.LastIndexByte"] = func(m *Machine, _ *frame, a []Value) Value { return m.lastIndexByte(sliceArg(a[0]), a[1]) }
	in["internal/bytealg.LastIndexByteString"] = func(m *Machine, _ *frame, a []Value) Value { return m.lastIndexByte(strBytes(a[0]), a[1]) }
	in["strings.IndexByte"] = in["internal/bytealg.IndexByteString"]
	in["bytes.IndexByte"] = in["internal/bytealg.IndexByte"]
	in["strings.LastIndexByte"] = in["internal/bytealg.LastIndexByteString"]
	in["internal/stringslite.IndexByte"] = in["internal/bytealg.IndexByteString"]
	in["internal/bytealg.Count"] = func(m *Machine, _ *frame, a []Value) Value { return m.countByte(sliceArg(a[0]), a[1]) }
	in["internal/bytealg.CountString"] = func(m *Machine, _ *frame, a []Value) Value { return m.countByte(strBytes(a[0]), a[1]) }
	in["internal/bytealg.Compare"] = func(m *Machine, _ *frame, a []Value) Value { return m.cmpBytes(sliceArg(a[0]), sliceArg(a[1])) }
	in["internal/bytealg.CompareString"] = func(m *Machine, _ *frame, a []Value) Value { return m.cmpBytes(strBytes(a[0]), strBytes(a[1])) }
	in["strings.Compare"] = in["internal/bytealg.CompareString"]
	in["bytes.Compare"] = in["internal/bytealg.Compare"]
	in["internal/bytealg.Equal"] = func(m *Machine, _ *frame, a []Value) Value { return m.bytesEq(sliceArg(a[0]), sliceArg(a[1])) }
	in["bytes.Equal"] = in["internal/bytealg.Equal"]
	in["internal/bytealg.Index"] = func(m *Machine, _ *frame, a []Value) Value { return m.indexSub(sliceArg(a[0]), sliceArg(a[1])) }
	in["internal/bytealg.IndexString"] = func(m *Machine, _ *frame, a []Value) Value { return m.indexSub(strBytes(a[0]), strBytes(a[1])) }
	in["strings.Index"] = in["internal/bytealg.IndexString"]
	in["internal/stringslite.Index"] = in["internal/bytealg.IndexString"]
	in["bytes.Index"] = in["internal/bytealg.Index"]
	in["strings.HasPrefix"] = func(m *Machine, _ *frame, a []Value) Value {
		s, p := strBytes(a[0]), strBytes(a[1])
		if len(p) > len(s) {
			return C(0)
		}
		return m.bytesEq(s[:len(p)], p)
	}
	in["internal/stringslite.HasPrefix"] = in["strings.HasPrefix"]
	in["strings.HasSuffix"] = func(m *Machine, _ *frame, a []Value) Value {
		s, p := strBytes(a[0]), strBytes(a[1])
		if len(p) > len(s) {
			return C(0)
		}
		return m.bytesEq(s[len(s)-len(p):], p)
	}
	in["internal/stringslite.HasSuffix"] = in["strings.HasSuffix"]
	in["internal/bytealg.MakeNoZero"] = func(m *Machine, _ *frame, a []Value) Value {
		n := m.makeLen(a[0], 1, "len")
		k := int(roundSize(int64(n)))
		s := make(Slice, k)
		for i := range s {
			s[i] = C(0)
		}
		return s[:n]
	}
	in["strings.Clone"] = func(m *Machine, _ *frame, a []Value) Value { return a[0] }
	in["internal/stringslite.Clone"] = in["strings.Clone"]
	in["(*strings.Builder).copyCheck"] = nop
	in["internal/abi.NoEscape"] = func(m *Machine, _ *frame, a []Value) Value { return a[0] }
	in["internal/abi.Escape"] = func(m *Machine, _ *frame, a []Value) Value { return a[0] }
	in["runtime.KeepAlive"] = nop
	in["runtime.GC"] = nop
	in["runtime.Gosched"] = func(m *Machine, _ *frame, a []Value) Value { m.yieldPoint(); return nil }
	in["runtime.SetFinalizer"] = nop
	in["runtime.AddCleanup"] = func(m *Machine, _ *frame, a []Value) Value { return Struct{} }
	in["internal/race.Acquire"] = nop
	in["internal/godebug.New"] = func(m *Machine, _ *frame, a []Value) Value {
		p := new(Value)
		*p = Poison{"godebug setting"}
		return p
	}
	in["(*internal/godebug.Setting).Value"] = func(m *Machine, _ *frame, a []Value) Value { return "" }
	in["(*internal/godebug.Setting).IncNonDefault"] = nop
	in["internal/godebug.setUpdate"] = nop
	in["time.now"] = func(m *Machine, _ *frame, a []Value) Value {
		return Tuple{C(1700000000 + m.ticks*3600), C(m.ticks), C(1 + m.ticks*3600*1000000000)}
	}
	in["time.runtimeNano"] = func(m *Machine, _ *frame, a []Value) Value { return C(1 + m.ticks*3600*1000000000) }
	in["time.runtimeNow"] = in["time.now"]
	in["time.initLocal"] = nop
	in["os.Getenv"] = func(m *Machine, _ *frame, a []Value) Value { return "" }
	in["syscall.Getenv"] = func(m *Machine, _ *frame, a []Value) Value { return Tuple{"", C(0)} }

	// --- math
	in["math/bits.Len64"] = func(m *Machine, _ *frame, a []Value) Value { return m.bitsLen(a[0], 64) }
	in["math/bits.Len32"] = func(m *Machine, _ *frame, a []Value) Value { return m.bitsLen(a[0], 32) }
	in["math/bits.Len"] = in["math/bits.Len64"]
	in["math.Float64bits"] = func(m *Machine, _ *frame, a []Value) Value { return C(math.Float64bits(a[0].(float64))) }
	in["math.Float64frombits"] = func(m *Machine, _ *frame, a []Value) Value { return math.Float64frombits(uint64(a[0].(C))) }
	in["math.Float32bits"] = func(m *Machine, _ *frame, a []Value) Value {
		return C(uint64(math.Float32bits(float32(a[0].(float64)))))
	}
	in["math.Float32frombits"] = func(m *Machine, _ *frame, a []Value) Value {
		return float64(math.Float32frombits(uint32(a[0].(C))))
	}
	for n, f := range map[string]func(float64) float64{"math.archFloor": math.Floor, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Sqrt": math.Sqrt, "math.Abs": math.Abs, "math.Log": math.Log, "math.Exp": math.Exp} {
		in[n] = func(m *Machine, _ *frame, a []Value) Value { return f(a[0].(float64)) }
	}
	in["math/bits.Mul64"] = func(m *Machine, _ *frame, a []Value) Value {
		x, y := m.term(a[0], 64), m.term(a[1], 64)
		if x.isConst() && y.isConst() {
			h, l := bits.Mul64(x.k, y.k)
			return Tuple{C(h), C(l)}
		}
		if h, _ := bits.Mul64(x.hi, y.hi); h == 0 {
			return Tuple{C(0), m.val(m.tt.Mul(x, y))}
		}
		panic(unsupported{"symbolic 128-bit multiplication"})
	}

	// --- errors and formatting
	in["errors.Is"] = func(m *Machine, _ *frame, a []Value) Value { return b2c(m.errorsIs(a[0].(Iface), a[1].(Iface), 0)) }
	in["errors.As"] = errorsAs
	in["fmt.Errorf"] = fmtErrorf
	in["slices.overlaps"] = func(m *Machine, _ *frame, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if len(x) == 0 || len(y) == 0 {
			return b2c(false)
		}
		at := func(s Slice, i int) uintptr { return uintptr(unsafe.Pointer(&s[i])) }
		return b2c(at(x, 0) <= at(y, len(y)-1) && at(y, 0) <= at(x, len(x)-1))
	}
	in["maps.clone"] = func(m *Machine, _ *frame, a []Value) Value {
		i, ok := a[0].(Iface)
		if !ok {
			panic(unsupported{"maps.clone"})
		}
		mp := m.asMap(i.v)
		if mp == nil {
			return i
		}
		if m.multi {
			m.raceAccess(&mp.race, false, "map iteration")
		}
		c := newMap(mp.kt)
		for _, e := range mp.ents {
			n := &mapEnt{key: copyVal(e.key), val: copyVal(e.val)}
			c.ents = append(c.ents, n)
			if h, ok := hashKey(n.key); ok {
				c.idx[h] = n
			}
		}
		c.live, c.nsym = mp.live, mp.nsym
		return Iface{i.t, c}
	}
	in["sort.Slice"] = sortSlice
	in["sort.SliceStable"] = sortSlice
	in["internal/reflectlite.Swapper"] = func(m *Machine, _ *frame, a []Value) Value { panic(unsupported{"reflect swapper"}) }

	// --- binary
	in["encoding/binary.Size"] = func(m *Machine, _ *frame, a []Value) Value { return C(uint64(int64(binSize(a[0].(Iface))))) }
	in["encoding/binary.Read"] = binRead
	in["encoding/binary.Write"] = binWrite
	in["encoding/binary.Append"] = binAppend
	in["encoding/binary.Encode"] = binEncode
	in["encoding/binary.Decode"] = binDecode

	// --- crc32
	in["hash/crc32.MakeTable"] = func(m *Machine, _ *frame, a []Value) Value { return m.crcTable(uint32(m.concretize(a[0]))) }
	in["hash/crc32.Checksum"] = func(m *Machine, _ *frame, a []Value) Value { return m.crcUpdate(C(0), a[1], sliceArg(a[0])) }
	in["hash/crc32.ChecksumIEEE"] = func(m *Machine, _ *frame, a []Value) Value {
		return m.crcUpdate(C(0), m.crcTable(crc32.IEEE), sliceArg(a[0]))
	}
	in["hash/crc32.Update"] = func(m *Machine, _ *frame, a []Value) Value { return m.crcUpdate(a[0], a[1], sliceArg(a[2])) }
	in["hash/crc32.update"] = func(m *Machine, _ *frame, a []Value) Value { return m.crcUpdate(a[0], a[1], sliceArg(a[2])) }
	in["hash/crc32.ieeeInit"] = nop

	// --- archive/tar header checksum: a constant on both sides (see DESIGN.md)
	in["(*archive/tar.block).computeChecksum"] = func(m *Machine, _ *frame, a []Value) Value { return Tuple{C(0), C(0)} }
	in["os/user.LookupId"] = func(m *Machine, _ *frame, a []Value) Value {
		return Tuple{(*Value)(nil), m.newError("user lookup unavailable")}
	}
	in["os/user.LookupGroupId"] = in["os/user.LookupId"]

	// --- sync
	lockName := func(t string, ro bool) {
		in["(*"+t+").Lock"] = func(m *Machine, _ *frame, a []Value) Value { m.lock(ptrArg(m, a[0])); return nil }
		in["(*"+t+").Unlock"] = func(m *Machine, _ *frame, a []Value) Value { m.unlock(ptrArg(m, a[0])); return nil }
		in["(*"+t+").TryLock"] = func(m *Machine, _ *frame, a []Value) Value { return b2c(m.tryLock(ptrArg(m, a[0]))) }
	}
	lockName("sync.Mutex", false)
	lockName("internal/sync.Mutex", false)
	lockName("sync.RWMutex", false)
	in["(*sync.RWMutex).RLock"] = func(m *Machine, _ *frame, a []Value) Value { m.rlock(ptrArg(m, a[0])); return nil }
	in["(*sync.RWMutex).RUnlock"] = func(m *Machine, _ *frame, a []Value) Value { m.runlock(ptrArg(m, a[0])); return nil }
	in["(*sync.Pool).Get"] = func(m *Machine, _ *frame, a []Value) Value {
		p := ptrArg(m, a[0])
		if l := m.pools[p]; len(l) > 0 {
			v := l[len(l)-1]
			m.pools[p] = l[:len(l)-1]
			return v
		}
		st := (*p).(Struct)
		for _, f := range st {
			if cl, ok := f.(*Closure); ok {
				if cl == nil {
					return Iface{}
				}
				return m.call(cl.fn, nil, cl.env)
			}
		}
		return Iface{}
	}
	in["(*sync.Pool).Put"] = func(m *Machine, _ *frame, a []Value) Value {
		if !m.multi {
			p := ptrArg(m, a[0])
			m.pools[p] = append(m.pools[p], a[1])
		}
		return nil
	}
	in["(*sync.WaitGroup).Add"] = func(m *Machine, _ *frame, a []Value) Value {
		m.wgAdd(ptrArg(m, a[0]), sext64(m.concretize(a[1]), 64))
		return nil
	}
	in["(*sync.WaitGroup).Done"] = func(m *Machine, _ *frame, a []Value) Value { m.wgAdd(ptrArg(m, a[0]), -1); return nil }
	in["(*sync.WaitGroup).Wait"] = func(m *Machine, _ *frame, a []Value) Value {
		w := m.wg(ptrArg(m, a[0]))
		m.yieldPoint()
		m.block(func() bool { return w.n == 0 }, "wait group")
		m.cur.vc = m.cur.vc.join(w.vc)
		return nil
	}
	in["(*sync.Map).Load"] = func(m *Machine, _ *frame, a []Value) Value {
		mp := m.syncMap(ptrArg(m, a[0]))
		v, ok := m.mapGet(mp, a[1])
		if !ok {
			v = Iface{}
		}
		return Tuple{v, b2c(ok)}
	}
	in["(*sync.Map).Store"] = func(m *Machine, _ *frame, a []Value) Value {
		m.mapPut(m.syncMap(ptrArg(m, a[0])), a[1], a[2])
		return nil
	}
	in["(*sync.Map).LoadOrStore"] = func(m *Machine, _ *frame, a []Value) Value {
		mp := m.syncMap(ptrArg(m, a[0]))
		v, ok := m.mapGet(mp, a[1])
		if ok {
			return Tuple{v, C(1)}
		}
		m.mapPut(mp, a[1], a[2])
		return Tuple{a[2], C(0)}
	}
	in["(*sync.Map).Delete"] = func(m *Machine, _ *frame, a []Value) Value { m.mapDelete(m.syncMap(ptrArg(m, a[0])), a[1]); return nil }

	initSym()
	initDecimal()
}

func (m *Machine) syncMap(p *Value) *MapV {
	m.atomicOp(p)
	mp := m.syncMaps[p]
	if mp == nil {
		mp = newMap(nil)
		m.syncMaps[p] = mp
	}
	// ordered by atomicOp: no race on the map itself
	mp.race = raceCell{}
	return mp
}

func (m *Machine) wg(p *Value) *wgState {
	w := m.wgs[p]
	if w == nil {
		w = &wgState{}
		m.wgs[p] = w
	}
	return w
}

func (m *Machine) wgAdd(p *Value, d int64) {
	w := m.wg(p)
	w.n += d
	if w.n < 0 {
		m.targetPanicStr("sync: negative WaitGroup counter")
	}
	if d < 0 {
		w.vc = w.vc.join(m.cur.vc)
		m.cur.tick()
	}
}

func (m *Machine) bitsLen(v Value, w uint8) Value {
	if c, ok := v.(C); ok {
		return C(uint64(bits.Len64(uint64(c))))
	}
	t := m.term(v, w)
	r := m.tt.Const(64, 0)
	for i := uint8(0); i < w; i++ {
		if t.hi>>i == 0 {
			break
		}
		r = m.tt.Ite(m.tt.Ule(m.tt.Const(w, uint64(1)<<i), t), m.tt.Const(64, uint64(i)+1), r)
	}
	return m.val(r)
}

// ---- errors ----

func (m *Machine) newError(msg string) Value {
	return m.call(m.eng.errorsNew, []Value{msg}, nil)
}

func (m *Machine) errorsIs(err, target Iface, depth int) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	for d := 0; ; d++ {
		if types.Comparable(target.t) && err.t == target.t {
			if m.branch(m.eqVal(err, target)) {
				return true
			}
		}
		if f := m.methodByName(err.t, "Is"); f != nil && f.ssa.Signature.Params().Len() == 1 {
			if m.branch(m.call(f, []Value{err.v, target}, nil)) {
				return true
			}
		}
		f := m.methodByName(err.t, "Unwrap")
		if f == nil {
			return false
		}
		r := m.call(f, []Value{err.v}, nil)
		switch x := r.(type) {
		case Iface:
			if x.t == nil {
				return false
			}
			err = x
		case Slice:
			for _, e := range x {
				if m.errorsIs(e.(Iface), target, depth+1) {
					return true
				}
			}
			return false
		default:
			return false
		}
		if d > 1000 {
			panic(violation{msg: "unbounded error chain", kind: "nontermination"})
		}
	}
}

func errorsAs(m *Machine, _ *frame, a []Value) Value {
	err, target := a[0].(Iface), a[1].(Iface)
	if err.t == nil {
		return C(0)
	}
	if target.t == nil {
		m.targetPanicStr("errors: target cannot be nil")
	}
	et := m.eng.canon.get(unptr(target.t))
	var rec func(err Iface) bool
	rec = func(err Iface) bool {
		for {
			if isIface(et) {
				if m.implements(err.t, et) {
					storeVal(ptrArg(m, target.v), err)
					return true
				}
			} else if err.t == et {
				storeVal(ptrArg(m, target.v), err.v)
				return true
			}
			if f := m.methodByName(err.t, "As"); f != nil {
				if m.branch(m.call(f, []Value{err.v, target}, nil)) {
					return true
				}
			}
			f := m.methodByName(err.t, "Unwrap")
			if f == nil {
				return false
			}
			switch x := m.call(f, []Value{err.v}, nil).(type) {
			case Iface:
				if x.t == nil {
					return false
				}
				err = x
			case Slice:
				for _, e := range x {
					if rec(e.(Iface)) {
						return true
					}
				}
				return false
			default:
				return false
			}
		}
	}
	return b2c(rec(err))
}

// fmtErrorf builds the error without formatting: the message is the format
// string; wrapped errors are kept.
func fmtErrorf(m *Machine, _ *frame, a []Value) Value {
	format, ok := a[0].(string)
	if !ok {
		format = "<symbolic format>"
	}
	args := sliceArg(a[1])
	var wrapped []Value
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && k < len(args) {
			if e, ok := args[k].(Iface); ok && e.t != nil && m.implements(e.t, m.eng.errorIface) {
				wrapped = append(wrapped, e)
			}
		}
		k++
	}
	switch len(wrapped) {
	case 0:
		return m.newError(format)
	case 1:
		p := new(Value)
		*p = Struct{format, wrapped[0]}
		return Iface{m.eng.wrapErrT, p}
	}
	p := new(Value)
	*p = Struct{format, Slice(wrapped)}
	return Iface{m.eng.wrapErrsT, p}
}

func sortSlice(m *Machine, _ *frame, a []Value) Value {
	s := sliceArg(a[0].(Iface).v)
	less := a[1].(*Closure)
	// insertion sort through the interface the library uses (indices into s)
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !m.branch(m.call(less.fn, []Value{C(uint64(j)), C(uint64(j - 1))}, less.env)) {
				break
			}
			x, y := copyVal(s[j]), copyVal(s[j-1])
			storeVal(&s[j], y)
			storeVal(&s[j-1], x)
		}
	}
	return nil
}

// ---- encoding/binary ----

func fixedSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int, types.Uint, types.Uintptr, types.String:
			return -1
		case types.Float32:
			return 4
		case types.Float64:
			return 8
		}
		w, _, ok := intInfo(t)
		if !ok {
			return -1
		}
		return int(w) / 8
	case *types.Array:
		n := fixedSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * int(u.Len())
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := fixedSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

// binTarget resolves pointers; for slices the element type and values are given.
func binTarget(i Iface) (t types.Type, p *Value, v Value, sl Slice, isSl bool) {
	if i.t == nil {
		return
	}
	switch u := i.t.Underlying().(type) {
	case *types.Pointer:
		p, _ = i.v.(*Value)
		t = u.Elem()
		if p == nil {
			return nil, nil, nil, nil, false
		}
		v = *p
		if s, ok := t.Underlying().(*types.Slice); ok {
			sl, _ = v.(Slice)
			return s.Elem(), p, v, sl, true
		}
		return t, p, v, nil, false
	case *types.Slice:
		sl, _ = i.v.(Slice)
		return u.Elem(), nil, i.v, sl, true
	}
	return i.t, nil, i.v, nil, false
}

func binSize(i Iface) int {
	t, p, _, sl, isSl := binTarget(i)
	if t == nil {
		// nil pointer to a fixed-size type
		if i.t != nil {
			if u, ok := i.t.Underlying().(*types.Pointer); ok {
				return fixedSize(u.Elem())
			}
		}
		return -1
	}
	_ = p
	n := fixedSize(t)
	if n < 0 {
		return -1
	}
	if isSl {
		return n * len(sl)
	}
	return n
}

func (m *Machine) isBig(order Value) bool {
	i := order.(Iface)
	if i.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	s := i.t.String()
	switch {
	case strings.HasSuffix(s, "bigEndian"):
		return true
	case strings.HasSuffix(s, "littleEndian"), strings.HasSuffix(s, "nativeEndian"):
		return false
	}
	panic(unsupported{"byte order " + s})
}

func (m *Machine) binEnc(out []Value, t types.Type, v Value, big bool) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := v.(Struct)
		for i := 0; i < u.NumFields(); i++ {
			out = m.binEnc(out, u.Field(i).Type(), s[i], big)
		}
		return out
	case *types.Array:
		for _, e := range v.(Array) {
			out = m.binEnc(out, u.Elem(), e, big)
		}
		return out
	}
	w, _, ok := intInfo(t)
	if !ok {
		panic(unsupported{"binary encoding of " + t.String()})
	}
	if w == 0 {
		return append(out, m.val(m.tt.BoolToBV(m.term(v, 0), 8)))
	}
	n := int(w) / 8
	for i := 0; i < n; i++ {
		k := i
		if big {
			k = n - 1 - i
		}
		if c, ok := v.(C); ok {
			out = append(out, C(uint64(c)>>(8*k)&0xff))
		} else {
			out = append(out, m.val(m.tt.Extract(m.term(v, w), uint8(8*k), 8)))
		}
	}
	return out
}

func (m *Machine) binDec(b []Value, t types.Type, p *Value, big bool, blank bool) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := (*p).(Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				b = b[fixedSize(u.Field(i).Type()):]
				continue
			}
			b = m.binDec(b, u.Field(i).Type(), &s[i], big, false)
		}
		return b
	case *types.Array:
		a := (*p).(Array)
		for i := range a {
			b = m.binDec(b, u.Elem(), &a[i], big, false)
		}
		return b
	}
	w, _, ok := intInfo(t)
	if !ok {
		panic(unsupported{"binary decoding of " + t.String()})
	}
	if w == 0 {
		m.store(p, m.val(m.tt.Not(m.tt.Eq(m.term(b[0], 8), m.tt.Const(8, 0)))))
		return b[1:]
	}
	n := int(w) / 8
	m.store(p, m.joinBytes(b[:n], big))
	return b[n:]
}

// joinBytes assembles an integer of len(b) bytes.
func (m *Machine) joinBytes(b []Value, big bool) Value {
	n := len(b)
	allC := true
	var cv uint64
	for i := 0; i < n; i++ {
		k := n - 1 - i
		if big {
			k = i
		}
		c, ok := b[k].(C)
		if !ok {
			allC = false
			break
		}
		cv = cv<<8 | uint64(c)
	}
	if allC {
		return C(cv)
	}
	var t *Term
	for i := 0; i < n; i++ { // from the least significant byte
		k := i
		if big {
			k = n - 1 - i
		}
		x := m.term(b[k], 8)
		if t == nil {
			t = x
		} else {
			t = m.tt.Concat(x, t)
		}
	}
	return m.val(t)
}

func (m *Machine) binEncAll(i Iface, big bool) []Value {
	t, _, v, sl, isSl := binTarget(i)
	var out []Value
	if isSl {
		for _, e := range sl {
			out = m.binEnc(out, t, e, big)
		}
		return out
	}
	return m.binEnc(out, t, v, big)
}

func (m *Machine) binDecAll(b []Value, i Iface, big bool) {
	t, p, _, sl, isSl := binTarget(i)
	if isSl {
		for k := range sl {
			b = m.binDec(b, t, &sl[k], big, false)
		}
		return
	}
	m.binDec(b, t, p, big, false)
}

func binRead(m *Machine, _ *frame, a []Value) Value {
	i := a[2].(Iface)
	n := binSize(i)
	_, p, _, _, isSl := binTarget(i)
	if n < 0 || (p == nil && !isSl) {
		return m.newError("binary.Read: invalid type")
	}
	big := m.isBig(a[1])
	buf := make(Slice, n)
	for k := range buf {
		buf[k] = C(0)
	}
	r := m.call(m.eng.ioReadFull, []Value{a[0], buf}, nil).(Tuple)
	if e := r[1].(Iface); e.t != nil {
		return e
	}
	m.binDecAll(buf, i, big)
	return Iface{}
}

func binWrite(m *Machine, _ *frame, a []Value) Value {
	i := a[2].(Iface)
	n := binSize(i)
	if n < 0 {
		return m.newError("binary.Write: some values are not fixed-sized in type")
	}
	buf := Slice(m.binEncAll(i, m.isBig(a[1])))
	if buf == nil {
		buf = Slice{}
	}
	w := a[0].(Iface)
	if w.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	f := m.methodByName(w.t, "Write")
	return m.call(f, []Value{w.v, buf}, nil).(Tuple)[1]
}

func binAppend(m *Machine, _ *frame, a []Value) Value {
	i := a[2].(Iface)
	if binSize(i) < 0 {
		return Tuple{Slice(nil), m.newError("binary.Append: invalid type")}
	}
	return Tuple{m.appendSlice(a[0].(Slice), m.binEncAll(i, m.isBig(a[1])), types.Typ[types.Uint8]), Iface{}}
}

func binEncode(m *Machine, _ *frame, a []Value) Value {
	i := a[2].(Iface)
	n := binSize(i)
	if n < 0 {
		return Tuple{C(0), m.newError("binary.Encode: invalid type")}
	}
	buf := sliceArg(a[0])
	if len(buf) < n {
		return Tuple{C(0), m.newError("buffer too small")}
	}
	for k, v := range m.binEncAll(i, m.isBig(a[1])) {
		m.store(&buf[k], v)
	}
	return Tuple{C(uint64(n)), Iface{}}
}

func binDecode(m *Machine, _ *frame, a []Value) Value {
	i := a[2].(Iface)
	n := binSize(i)
	if n < 0 {
		return Tuple{C(0), m.newError("binary.Decode: invalid type")}
	}
	buf := sliceArg(a[0])
	if len(buf) < n {
		return Tuple{C(0), m.newError("buffer too small")}
	}
	m.binDecAll(buf, i, m.isBig(a[1]))
	return Tuple{C(uint64(n)), Iface{}}
}

// ---- crc32 as an affine function over GF(2) ----

func (m *Machine) crcTable(poly uint32) Value {
	for p, po := range m.eng.crcPolys {
		if po == poly {
			return p
		}
	}
	panic(unsupported{"crc32 polynomial"})
}

func (m *Machine) crcUpdate(crc, tab Value, p []Value) Value {
	tp, ok := tab.(*Value)
	if !ok {
		panic(unsupported{"crc table"})
	}
	poly, ok := m.eng.crcPolys[tp]
	if !ok {
		panic(unsupported{"unknown crc table"})
	}
	T := crc32.MakeTable(poly)
	// raw(state, data): table-driven update without the final inversions
	raw := func(s uint32, data []byte) uint32 { return ^crc32.Update(^s, T, data) }
	n := len(p)
	conc := make([]byte, n)
	type sb struct {
		i int
		t *Term
	}
	var syms []sb
	for i, v := range p {
		switch x := v.(type) {
		case C:
			conc[i] = byte(x)
		case *Term:
			syms = append(syms, sb{i, x})
		default:
			panic(unsupported{"crc over poison"})
		}
	}
	zeros := make([]byte, n)
	tt := m.tt
	var r *Term
	switch c := crc.(type) {
	case C:
		r = tt.Const(32, uint64(raw(^uint32(c), conc)))
	case *Term:
		// state = ~crc; linear in its bits
		r = tt.Const(32, uint64(raw(0xffffffff, conc)))
		for b := 0; b < 32; b++ {
			k := raw(1<<b, zeros) // effect of flipping state bit b
			bit := tt.Eq(tt.Extract(c, uint8(b), 1), tt.Const(1, 1))
			r = tt.BXor(r, tt.Ite(bit, tt.Const(32, uint64(k)), tt.Const(32, 0)))
		}
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].i < syms[j].i })
	for _, s := range syms {
		for b := 0; b < 8; b++ {
			d := make([]byte, n-s.i)
			d[0] = 1 << b
			k := raw(0, d)
			bit := tt.Eq(tt.Extract(s.t, uint8(b), 1), tt.Const(1, 1))
			r = tt.BXor(r, tt.Ite(bit, tt.Const(32, uint64(k)), tt.Const(32, 0)))
		}
	}
	return m.val(tt.BNot(r))
}
