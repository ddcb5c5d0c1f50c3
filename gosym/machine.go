package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var solverErrors atomic.Int64

// Input is one symbolic input with the value the model gives it.
type Input struct {
	Name string `json:"n"`
	Val  uint64 `json:"v"`
}

type Item struct {
	site   siteKey
	prefix []byte
	model  []uint64 // values by order of creation on the path
}

// siteKey identifies a program point, to detect a replay that went astray.
type siteKey struct {
	fn  *Fn
	blk int
	ip  int
}

func (m *Machine) site() siteKey {
	if m.cur == nil || m.cur.fr == nil || m.cur.fr.block == nil {
		return siteKey{}
	}
	fr := m.cur.fr
	return siteKey{fr.fn, fr.block.idx, fr.ip}
}

// path outcomes (engine-level unwinding)
type pathEnd struct{ kind string } // "done", "infeasible"
type violation struct {
	msg   string
	kind  string // assert, panic, deadlock, race, nontermination, stack
	stack string
	known string
}
type killG struct{}

type inputVar struct {
	name string
	t    *Term
}

type obs struct {
	label string
	v     Value // Iface
}

type comp struct {
	cons []*Term
	vars []int32
}

type cacheEnt struct {
	res  Result
	vars []int32
	vals []uint64
}

// Machine executes one path at a time for one worker.
type Machine struct {
	eng   *Engine
	tt    *TermTable
	sol   *Solver
	alt   *Solver // second solver for fallback / cross checking
	cache map[string]*cacheEnt

	globals []*Value // by global index; std packages persist, others are per path

	// per path
	item       Item
	pos        int
	dec        []byte
	pcSet      map[*Term]bool // terms known true on this path
	comps      map[int32]*comp
	inputs     []inputVar
	nameCount  map[string]int
	obs        []obs
	reach      map[string]bool
	funcs      map[*Fn]bool
	steps      int64
	maxSteps   int64
	stepKnown  string // finding that exceeding maxSteps is
	depth      int
	permMaps   int // orders explored per map iteration
	muted      bool
	orderDep   bool // the path made a scheduling or map order choice
	allocLimit uint64
	ticks      uint64
	tolerant   bool
	mutexes    map[*Value]*mutexState
	syncMaps   map[*Value]*MapV
	lastPos    *frame
	crcTabs    map[*Value]int
	pools      map[*Value][]Value

	// goroutines
	gs       []*G
	cur      *G
	multi    bool
	abortVal any
	killed   bool
	shadow   map[*Value]*raceCell
	syncVC   map[*Value]vclock
	wgs      map[*Value]*wgState
	preempts int
	maxPre   int
	schedN   int
	sched    []int
	tmpSched []string

	// caches
	meths map[methKey]*Fn
	impls map[implKey]bool

	// statistics
	st Stats
}

type Stats struct {
	Paths, Infeasible, Decisions, Forks        int64
	Asserts, AssertQueries, Queries, CacheHits int64
	ModelHits, Steps, Unknowns, CrossChecked   int64
	Reach                                      map[string]int64
	Funcs                                      map[*Fn]bool
	SolverTime                                 time.Duration
	MaxQuery                                   time.Duration
}

type methKey struct {
	t types.Type
	m *types.Func
}
type implKey struct{ t, i types.Type }

func NewMachine(eng *Engine) *Machine {
	m := &Machine{eng: eng, meths: map[methKey]*Fn{}, impls: map[implKey]bool{}}
	m.st.Reach = map[string]int64{}
	m.st.Funcs = map[*Fn]bool{}
	m.resetTerms()
	return m
}

func (m *Machine) resetTerms() {
	if m.sol != nil {
		m.st.SolverTime += m.sol.dur
		m.st.MaxQuery = max(m.st.MaxQuery, m.sol.maxDur)
		m.sol.stop()
	}
	if m.alt != nil {
		m.alt.stop()
		m.alt = nil
	}
	m.tt = NewTermTable()
	m.sol = newZ3(m.tt, m.eng.cfg.QueryTimeoutMS)
	m.cache = map[string]*cacheEnt{}
}

// ---------------------------------------------------------------- path start

func (m *Machine) beginPath(it Item) {
	if m.tt.n > 3000000 {
		m.resetTerms()
	}
	m.item = it
	m.pos = 0
	m.dec = append([]byte(nil), it.prefix...)[:0]
	m.pcSet = map[*Term]bool{}
	m.comps = map[int32]*comp{}
	m.inputs = nil
	m.nameCount = map[string]int{}
	m.obs = nil
	m.reach = map[string]bool{}
	m.steps = 0
	m.maxSteps = m.eng.cfg.MaxSteps
	m.stepKnown = ""
	m.depth = 0
	m.permMaps = 0
	m.ticks = 0
	m.orderDep = false
	m.allocLimit = 1 << 26
	m.mutexes = map[*Value]*mutexState{}
	m.syncMaps = map[*Value]*MapV{}
	m.pools = map[*Value][]Value{}
	m.gs = nil
	m.multi = false
	m.abortVal = nil
	m.killed = false
	m.shadow = map[*Value]*raceCell{}
	m.wgs = map[*Value]*wgState{}
	m.syncVC = map[*Value]vclock{}
	m.preempts = 0
	m.maxPre = 1 << 30
	m.tt.gen++
	m.lastPos = nil
}

func (m *Machine) newVar(name string, w uint8) *Term { return m.newVarMax(name, w, mask(w)) }

func (m *Machine) newVarMax(name string, w uint8, hi uint64) *Term {
	c := m.nameCount[name]
	m.nameCount[name] = c + 1
	if c > 0 {
		name = fmt.Sprintf("%s#%d", name, c)
	}
	t := m.tt.VarMax(name, w, hi)
	k := len(m.inputs)
	m.inputs = append(m.inputs, inputVar{name, t})
	var v uint64
	if k < len(m.item.model) {
		v = m.item.model[k] & mask(w)
	}
	m.tt.setModelVar(int32(t.k), min(v, hi))
	return t
}

func (m *Machine) snapshot() []uint64 {
	out := make([]uint64, len(m.inputs))
	for i, in := range m.inputs {
		out[i] = m.tt.model[in.t.k]
	}
	return out
}

func (m *Machine) inputValues() []Input {
	out := make([]Input, len(m.inputs))
	for i, in := range m.inputs {
		out[i] = Input{in.name, m.tt.model[in.t.k]}
	}
	return out
}

// ---------------------------------------------------------------- constraints

func (m *Machine) addPC(c *Term) {
	if c.isTrue() || m.pcSet[c] {
		return
	}
	m.pcSet[c] = true
	if c.op == OAnd {
		m.addPC(c.a)
		m.addPC(c.b)
		return
	}
	if len(c.vars) == 0 {
		return
	}
	var base *comp
	for _, v := range c.vars {
		cp := m.comps[v]
		if cp == nil {
			continue
		}
		if base == nil {
			base = cp
		} else if base != cp {
			if len(base.vars) < len(cp.vars) {
				base, cp = cp, base
			}
			base.cons = append(base.cons, cp.cons...)
			base.vars = append(base.vars, cp.vars...)
			for _, x := range cp.vars {
				m.comps[x] = base
			}
		}
	}
	if base == nil {
		base = &comp{}
	}
	for _, v := range c.vars {
		if m.comps[v] == nil {
			m.comps[v] = base
			base.vars = append(base.vars, v)
		}
	}
	base.cons = append(base.cons, c)
}

// query decides pc && extra over the constraints connected to extra. On Sat the
// returned values satisfy them (values for vars).
func (m *Machine) query(extra *Term, assertion bool) *cacheEnt {
	var cons []*Term
	seen := map[*comp]bool{}
	vars := append([]int32(nil), extra.vars...)
	for _, v := range extra.vars {
		if cp := m.comps[v]; cp != nil && !seen[cp] {
			seen[cp] = true
			cons = append(cons, cp.cons...)
			vars = append(vars, cp.vars...)
		}
	}
	sort.Slice(cons, func(i, j int) bool { return cons[i].id < cons[j].id })
	key := make([]byte, 0, 4*len(cons)+4)
	for _, c := range cons {
		key = binary.LittleEndian.AppendUint32(key, uint32(c.id))
	}
	key = binary.LittleEndian.AppendUint32(key, uint32(extra.id))
	if e, ok := m.cache[string(key)]; ok {
		m.st.CacheHits++
		return e
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	u := vars[:0]
	for i, v := range vars {
		if i == 0 || v != vars[i-1] {
			u = append(u, v)
		}
	}
	vars = u
	if !m.eng.deadline.IsZero() && time.Now().After(m.eng.deadline) {
		panic(pathEnd{"deadline"})
	}
	vals := make([]uint64, len(vars))
	all := append(append([]*Term(nil), cons...), extra)
	m.st.Queries++
	t0 := time.Now()
	res := m.sol.Check(all, vars, vals)
	if profile {
		noteQuery(m, extra, time.Since(t0))
	}
	if res == Unknown {
		if m.alt == nil {
			m.alt = newCVC5(m.tt, m.eng.cfg.AltTimeoutMS)
		}
		res = m.alt.Check(all, vars, vals)
	} else if assertion && m.eng.cfg.CrossCheck {
		if m.alt == nil {
			m.alt = newCVC5(m.tt, m.eng.cfg.AltTimeoutMS)
		}
		v2 := make([]uint64, len(vars))
		r2 := m.alt.Check(all, vars, v2)
		if r2 != Unknown {
			m.st.CrossChecked++
			if r2 != res {
				panic(unsupported{fmt.Sprintf("solvers disagree: z3 %v cvc5 %v", res, r2)})
			}
		}
	}
	if res == Unknown {
		m.st.Unknowns++
	}
	e := &cacheEnt{res, vars, vals}
	m.cache[string(key)] = e
	return e
}

func (m *Machine) applyModel(e *cacheEnt) {
	for i, v := range e.vars {
		m.tt.setModelVar(v, e.vals[i])
	}
}

func (m *Machine) modelWith(e *cacheEnt) []uint64 {
	out := m.snapshot()
	idx := map[int32]uint64{}
	for i, v := range e.vars {
		idx[v] = e.vals[i]
	}
	for i, in := range m.inputs {
		if v, ok := idx[int32(in.t.k)]; ok {
			out[i] = v
		}
	}
	return out
}

// known returns +1/-1 if the path condition syntactically decides c.
func (m *Machine) known(c *Term) int {
	if m.pcSet[c] {
		return 1
	}
	if m.pcSet[m.tt.Not(c)] {
		return -1
	}
	return 0
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (m *Machine) branch(v Value) bool {
	switch c := v.(type) {
	case C:
		return c != 0
	case *Term:
		return m.branchT(c)
	case Poison:
		panic(unsupported{"branch on poison: " + c.why})
	}
	panic(unsupported{fmt.Sprintf("branch on %T", v)})
}

func (m *Machine) branchT(c *Term) bool {
	if c.isConst() {
		return c.k != 0
	}
	if k := m.known(c); k != 0 {
		return k > 0
	}
	if m.tolerant {
		panic(unsupported{"symbolic branch during init"})
	}
	if m.pos < len(m.item.prefix) {
		d := m.item.prefix[m.pos]
		m.pos++
		m.dec = append(m.dec, d)
		if m.pos == len(m.item.prefix) && m.site() != m.item.site {
			panic(unsupported{"replay divergence"})
		}
		val := d&1 == 1
		t := c
		if !val {
			t = m.tt.Not(c)
		}
		if d >= 2 {
			m.addPC(t)
		} else {
			m.pcSet[t] = true
		}
		return val
	}
	m.pos++
	m.st.Decisions++
	val := m.tt.Eval(c) != 0
	other := c
	taken := m.tt.Not(c)
	if val {
		other, taken = taken, other
	}
	e := m.query(other, false)
	d := byte(0)
	if val {
		d = 1
	}
	if e.res == Unsat {
		m.dec = append(m.dec, d)
		m.pcSet[taken] = true
		return val
	}
	if e.res == Unknown {
		m.eng.noteUnknown("branch query undecided")
		m.dec = append(m.dec, d)
		m.addPC(taken)
		return val
	}
	m.st.Forks++
	if profile {
		noteFork(m)
	}
	pre := make([]byte, len(m.dec)+1)
	copy(pre, m.dec)
	pre[len(m.dec)] = (d ^ 1) | 2
	m.eng.push(Item{site: m.site(), prefix: pre, model: m.modelWith(e)})
	m.dec = append(m.dec, d|2)
	m.addPC(taken)
	return val
}

// assume restricts the path.
func (m *Machine) assume(v Value) {
	switch c := v.(type) {
	case C:
		if c == 0 {
			panic(pathEnd{"infeasible"})
		}
		return
	case *Term:
		if c.isConst() {
			if c.k == 0 {
				panic(pathEnd{"infeasible"})
			}
			return
		}
		if k := m.known(c); k != 0 {
			if k < 0 {
				panic(pathEnd{"infeasible"})
			}
			return
		}
		if m.pos < len(m.item.prefix) {
			m.addPC(c)
			return
		}
		if m.tt.Eval(c) == 0 {
			e := m.query(c, false)
			switch e.res {
			case Unsat:
				panic(pathEnd{"infeasible"})
			case Unknown:
				m.eng.noteUnknown("assumption query undecided")
				panic(pathEnd{"infeasible"})
			}
			m.applyModel(e)
		}
		m.addPC(c)
	default:
		panic(unsupported{fmt.Sprintf("assume on %T", v)})
	}
}

// assert checks that the condition holds for every value on this path.
func (m *Machine) assert(v Value, msg, known string) {
	m.st.Asserts++
	switch c := v.(type) {
	case C:
		if c == 0 {
			panic(violation{msg: msg, kind: "assert", known: known})
		}
		return
	case *Term:
		if c.isConst() {
			if c.k == 0 {
				panic(violation{msg: msg, kind: "assert", known: known})
			}
			return
		}
		if m.known(c) > 0 {
			return
		}
		if m.pos < len(m.item.prefix) {
			m.pcSet[c] = true
			return
		}
		m.st.AssertQueries++
		if m.tt.Eval(c) == 0 {
			panic(violation{msg: msg, kind: "assert", known: known})
		}
		e := m.query(m.tt.Not(c), true)
		switch e.res {
		case Sat:
			m.applyModel(e)
			panic(violation{msg: msg, kind: "assert", known: known})
		case Unknown:
			m.eng.noteUnknown("assertion undecided: " + msg)
		}
		m.pcSet[c] = true
	default:
		panic(unsupported{fmt.Sprintf("assert on %T", v)})
	}
}

// concretize forks over the feasible values of a symbolic integer.
func (m *Machine) concretize(v Value) uint64 {
	switch c := v.(type) {
	case C:
		return uint64(c)
	case *Term:
		if c.isConst() {
			return c.k
		}
		for n := 0; ; n++ {
			var val uint64
			if m.pos < len(m.item.prefix) {
				// replay: the value tried is recorded in concVals via model-independent order
				val = m.concReplay()
			} else {
				val = m.tt.Eval(c)
			}
			m.concRecord(val)
			if m.branchT(m.tt.Eq(c, m.tt.Const(c.w, val))) {
				return val
			}
			if n > m.eng.cfg.MaxConcretize {
				panic(unsupported{"too many values to concretize: " + c.String()})
			}
			// With many values, divide them by their low bits, so that the
			// path condition stays short.
			if b := n - 3; b >= 0 && b < int(c.w) && b < 14 {
				m.branchT(m.tt.Eq(m.tt.Extract(c, uint8(b), 1), m.tt.Const(1, 1)))
			}
		}
	case Poison:
		panic(unsupported{"poison: " + c.why})
	}
	panic(unsupported{fmt.Sprintf("concretize %T", v)})
}

// Concretisation must try the same value on replay. The value is stored in the
// decision list itself as 8 bytes following a marker.
func (m *Machine) concRecord(val uint64) {
	m.pos += 9
	m.dec = append(m.dec, 0xC0)
	m.dec = binary.LittleEndian.AppendUint64(m.dec, val)
}

func (m *Machine) concReplay() uint64 {
	p := m.item.prefix
	if m.pos+9 > len(p) || p[m.pos] != 0xC0 {
		panic(unsupported{"replay divergence at concretisation"})
	}
	return binary.LittleEndian.Uint64(p[m.pos+1:])
}

func (m *Machine) concInt(v Value) int { return int(int64(m.concretize(v))) }

// choose picks one of n alternatives, exploring all of them.
func (m *Machine) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := m.newVar(name, 16)
	m.assume(m.tt.Ult(v, m.tt.Const(16, uint64(n))))
	return int(m.concretize(v))
}

// ---------------------------------------------------------------- target stack

func (m *Machine) stack() string {
	var sb strings.Builder
	if m.cur == nil {
		return ""
	}
	n := 0
	for fr := m.cur.fr; fr != nil && n < 25; fr = fr.caller {
		fmt.Fprintf(&sb, "  %s", fr.fn.name)
		if fr.curPos().IsValid() {
			p := m.eng.prog.Fset.Position(fr.curPos())
			fmt.Fprintf(&sb, " %s:%d", p.Filename, p.Line)
		}
		sb.WriteByte('\n')
		n++
	}
	return sb.String()
}

var _ = ssa.NaiveForm

// profile collects where the solver's time goes (-prof).
var (
	profile bool
	profMu  sync.Mutex
	profTab = map[string]*profEnt{}
)

type profEnt struct {
	n, forks int
	dur      time.Duration
	ex       string
}

func noteFork(m *Machine) {
	e := profAt(m)
	profMu.Lock()
	e.forks++
	profMu.Unlock()
}

func profAt(m *Machine) *profEnt {
	k := ""
	n := 0
	for fr := m.cur.fr; fr != nil && n < 3; fr = fr.caller {
		p := m.eng.prog.Fset.Position(fr.curPos())
		k += fmt.Sprintf(" %s:%d", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line)
		n++
	}
	profMu.Lock()
	defer profMu.Unlock()
	e := profTab[k]
	if e == nil {
		e = &profEnt{}
		profTab[k] = e
	}
	return e
}

func noteQuery(m *Machine, c *Term, d time.Duration) {
	e := profAt(m)
	profMu.Lock()
	defer profMu.Unlock()
	e.n++
	e.dur += d
	if d > 0 && len(e.ex) < 400 {
		e.ex = c.String()
	}
}

func printProfile() {
	var ks []string
	for k := range profTab {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return profTab[ks[i]].dur+time.Duration(profTab[ks[i]].forks)*time.Millisecond > profTab[ks[j]].dur+time.Duration(profTab[ks[j]].forks)*time.Millisecond
	})
	for i, k := range ks {
		if i == 25 {
			break
		}
		e := profTab[k]
		if len(e.ex) > 300 {
			e.ex = e.ex[:300]
		}
		fmt.Printf("%6d %6d %8.1fs%s  %s\n", e.forks, e.n, e.dur.Seconds(), k, e.ex)
	}
}
