package main

// Loading, path scheduling and reporting.

import (
	"fmt"
	"go/types"
	"hash/crc32"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/dpeckett/archivefs"
const harnessPath = "verif.local/harness"

type Config struct {
	QueryTimeoutMS, AltTimeoutMS int
	CrossCheck                   bool
	MaxSteps                     int64
	MaxConcretize                int
}

type Options struct {
	tier   string
	params map[string]int
	budget time.Duration
	jobs   int
	strict bool
	v      bool
}

type Engine struct {
	cfg   Config
	opt   Options
	prog  *ssa.Program
	main  *ssa.Package
	mains *ssa.Function // package initialiser of the harness

	fns   sync.Map
	canon typeCanon

	globalIdx  map[*ssa.Global]int
	globalList []*ssa.Global
	perPath    []int // globals re-initialised for each path

	rtErrType  types.Type
	utf8Decode *Fn
	errorsNew  *Fn
	ioReadFull *Fn
	errorIface types.Type
	wrapErrT   types.Type
	wrapErrsT  types.Type
	crcPolys   map[*Value]uint32
	crcIEEE    *Value
	initAborts map[string]string

	machines []*Machine
	nat      *Native
	known    []KnownFinding

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Item
	pops     int
	busy     int
	stop     bool
	deadline time.Time
	h        *HarnessRun
	params   map[string]int
	runs     []*HarnessRun
	natMu    sync.Mutex
	nonce    atomic.Int64
}

type KnownFinding struct{ prop, id, text string }

// HarnessRun is the record of exploring one harness.
type HarnessRun struct {
	Name       string
	fn         *Fn
	Paths      int64
	Infeasible int64
	Reach      map[string]int64
	Unknown    map[string]int64
	Unsup      map[string]int64
	Mismatch   []string
	Truncated  bool
	Violation  *Finding
	Known      map[string]string
	samples    []sample
	Validated  int64
	Wall       float64
	forkSites  map[string]int64
	OrderDep   int64
	fallback   int64
	rest       []Item // unexplored when the time was over
}

type sample struct {
	In    []Input
	Obs   []string
	Reach []string
	steps int64
}

type Finding struct {
	Harness   string   `json:"harness"`
	Kind      string   `json:"kind"`
	Msg       string   `json:"message"`
	Inputs    []Input  `json:"inputs"`
	Stack     string   `json:"stack"`
	Native    string   `json:"native_replay"`
	OrderDep  bool     `json:"depends_on_schedule_or_map_order"`
	Confirmed bool     `json:"reproduced_natively"`
	Sched     []string `json:"schedule,omitempty"`
}

func (e *Engine) isRepo(p string) bool {
	return p == repoPath || strings.HasPrefix(p, repoPath+"/")
}

func (e *Engine) isHarness(p string) bool {
	return p == harnessPath || strings.HasPrefix(p, harnessPath+"/")
}

func (e *Engine) globalIndex(g *ssa.Global) int {
	i, ok := e.globalIdx[g]
	if !ok {
		panic(unsupported{"unknown global " + g.String()})
	}
	return i
}

func loadEnv(base []string) []string {
	return append(base, "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off", "GOTOOLCHAIN=local")
}

func (e *Engine) load(dir, pattern string) error {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  loadEnv(os.Environ()),
	}
	pkgs, err := packages.Load(cfg, pattern)
	if err != nil {
		return err
	}
	bad := ""
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if bad == "" && len(p.Errors) > 0 && (e.isRepo(p.PkgPath) || e.isHarness(p.PkgPath)) {
			bad = p.Errors[0].Error()
		}
	})
	if bad != "" {
		return fmt.Errorf("load: %s", bad)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	if len(spkgs) != 1 || spkgs[0] == nil {
		return fmt.Errorf("load: expected one package")
	}
	prog.Build()
	e.prog, e.main = prog, spkgs[0]
	e.globalIdx = map[*ssa.Global]int{}
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, p := range all {
		var names []string
		for n, mem := range p.Members {
			if _, ok := mem.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := p.Members[n].(*ssa.Global)
			e.globalIdx[g] = len(e.globalList)
			if e.isRepo(p.Pkg.Path()) || e.isHarness(p.Pkg.Path()) {
				e.perPath = append(e.perPath, len(e.globalList))
			}
			e.globalList = append(e.globalList, g)
		}
	}
	fn := func(pkg, name string) *ssa.Function {
		p := prog.ImportedPackage(pkg)
		if p == nil {
			return nil
		}
		return p.Func(name)
	}
	need := func(pkg, name string) *Fn {
		f := fn(pkg, name)
		if f == nil {
			panic("missing " + pkg + "." + name)
		}
		return e.fnFor(f)
	}
	e.utf8Decode = need("unicode/utf8", "DecodeRuneInString")
	e.errorsNew = need("errors", "New")
	e.ioReadFull = need("io", "ReadFull")
	e.rtErrType = e.canon.get(prog.ImportedPackage("runtime").Type("plainError").Type())
	e.errorIface = e.canon.get(types.Universe.Lookup("error").Type())
	if p := prog.ImportedPackage("fmt"); p != nil {
		e.wrapErrT = e.canon.get(types.NewPointer(p.Type("wrapError").Type()))
		e.wrapErrsT = e.canon.get(types.NewPointer(p.Type("wrapErrors").Type()))
	}
	e.crcPolys = map[*Value]uint32{}
	for _, po := range []uint32{crc32.IEEE, crc32.Castagnoli, crc32.Koopman} {
		p := new(Value)
		*p = Poison{"crc table"}
		e.crcPolys[p] = po
		if po == crc32.IEEE {
			e.crcIEEE = p
		}
	}
	e.initAborts = map[string]string{}
	return nil
}

func (e *Engine) harnesses(filter string) []*Fn {
	var names []string
	for n, mem := range e.main.Members {
		if _, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, "Harness") {
			if filter == "" || strings.Contains(","+filter+",", ","+n+",") {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	var out []*Fn
	for _, n := range names {
		out = append(out, e.fnFor(e.main.Func(n)))
	}
	return out
}

func (e *Engine) noteParam(n string, v int) {
	e.mu.Lock()
	e.params[n] = v
	e.mu.Unlock()
}

func (e *Engine) noteUnknown(s string) {
	e.mu.Lock()
	e.h.Unknown[s]++
	e.mu.Unlock()
}

func (e *Engine) knownFinding(id string) bool {
	for _, k := range e.known {
		if k.id == id {
			return true
		}
	}
	return false
}

func (e *Engine) reportKnown(id, msg string, in []Input) {
	e.mu.Lock()
	e.h.Known[id] = msg
	e.mu.Unlock()
}

// ---------------------------------------------------------------- queue

func (e *Engine) push(it Item) {
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) pop() (Item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return Item{}, false
		}
		if time.Now().After(e.deadline) {
			if len(e.queue) > 0 {
				e.h.Truncated = true
			}
			e.stop = true
			e.cond.Broadcast()
			return Item{}, false
		}
		if n := len(e.queue); n > 0 {
			// mostly depth first, but no subtree keeps all workers busy
			at := n - 1
			e.pops++
			if n < 200000 {
				switch e.pops % 8 {
				case 3:
					at = 0
				case 7:
					at = int(uint32(e.pops*2654435761)>>4) % n
				}
			}
			it := e.queue[at]
			if at == 0 {
				e.queue[0] = Item{}
				e.queue = e.queue[1:]
			} else {
				e.queue[at] = e.queue[n-1]
				e.queue = e.queue[:n-1]
			}
			e.busy++
			return it, true
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return Item{}, false
		}
		e.cond.Wait()
	}
}

func (e *Engine) release() {
	e.mu.Lock()
	e.busy--
	if e.busy == 0 && len(e.queue) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

// ---------------------------------------------------------------- running

// initStd runs every package initialiser once, tolerating what cannot be interpreted.
func (m *Machine) initStd() {
	e := m.eng
	m.globals = make([]*Value, len(e.globalList))
	m.beginPath(Item{})
	m.maxSteps = 1 << 40
	m.tolerant = true
	m.startMain()
	m.call(e.fnFor(e.main.Func("init")), nil, nil)
	m.tolerant = false
	if cp := e.prog.ImportedPackage("hash/crc32"); cp != nil {
		g := cp.Members["IEEETable"].(*ssa.Global)
		p := m.globalPtr(e.globalIdx[g]).(*Value)
		*p = e.crcIEEE
	}
	m.pools = map[*Value][]Value{}
}

// outcome of a path
type outcome struct {
	kind string // done, infeasible, known, violation, unsupported
	v    violation
	why  string
}

func (m *Machine) runPath(fn *Fn, it Item) (out outcome) {
	e := m.eng
	m.beginPath(it)
	for _, i := range e.perPath {
		m.globals[i] = nil
	}
	m.startMain()
	defer func() {
		r := recover()
		if r != nil {
			switch x := r.(type) {
			case pathEnd:
				out = outcome{kind: x.kind}
			case violation:
				if x.stack == "" {
					x.stack = m.stack()
				}
				out = outcome{kind: "violation", v: x}
			case targetPanic:
				out = outcome{kind: "violation", v: violation{kind: "panic", msg: "panic: " + m.panicText(x.v), stack: m.stack()}}
			case unsupported:
				out = outcome{kind: "unsupported", why: x.why + "\n" + m.stack()}
			default:
				out = outcome{kind: "unsupported", why: fmt.Sprintf("engine failure: %v\n%s\n%s", r, m.stack(), trimStack())}
			}
		}
		m.endGoroutines()
	}()
	m.call(e.fnFor(e.main.Func("init")), nil, nil)
	m.maxSteps = m.steps + e.cfg.MaxSteps
	m.call(fn, nil, nil)
	// a harness must not leave goroutines behind that are blocked for good
	return outcome{kind: "done"}
}

func (e *Engine) worker(m *Machine) {
	for {
		it, ok := e.pop()
		if !ok {
			return
		}
		e.runItem(m, it)
		e.release()
	}
}

func (e *Engine) runItem(m *Machine, it Item) {
	h := e.h
	out := m.runPath(h.fn, it)
	m.st.Steps += m.steps
	switch out.kind {
	case "deadline":
		e.mu.Lock()
		h.Truncated = true
		h.rest = append(h.rest, it)
		e.mu.Unlock()
		return
	case "infeasible":
		e.mu.Lock()
		h.Infeasible++
		e.mu.Unlock()
		return
	case "done":
		var obs, reach []string
		e.mu.Lock()
		h.Paths++
		n := h.Paths
		if m.orderDep {
			h.OrderDep++
		}
		for l := range m.reach {
			h.Reach[l]++
		}
		take := n <= 60 || n&(n-1) == 0 || (n < 20000 && n%101 == 0)
		take = take && len(h.samples) < 250
		e.mu.Unlock()
		if !take {
			return
		}
		for l := range m.reach {
			reach = append(reach, l)
		}
		sort.Strings(reach)
		if !m.orderDep {
			for _, o := range m.obs {
				obs = append(obs, o.label+"="+m.show(o.v))
			}
		}
		in := m.inputValues()
		e.mu.Lock()
		h.samples = append(h.samples, sample{in, obs, reach, m.steps})
		e.mu.Unlock()
		return
	case "known":
		e.mu.Lock()
		h.Paths++
		e.mu.Unlock()
		return
	case "unsupported":
		key := strings.SplitN(out.why, "\n", 2)[0]
		e.mu.Lock()
		first := h.Unsup[key] == 0
		h.Unsup[key]++
		nfb := h.fallback
		h.fallback++
		e.mu.Unlock()
		if first && (e.opt.v || e.opt.strict) {
			fmt.Fprintf(os.Stderr, "UNSUPPORTED in %s: %s\n", h.Name, out.why)
		}
		if nfb > 200 {
			return
		}
		// fall back to a concrete run of this path's model against the real code
		f := &Finding{Harness: h.Name, Kind: "concrete", Inputs: m.inputValues(), Msg: key, OrderDep: m.orderDep}
		if st, msg := e.nat.runOne(f, 1); st == "assert" || st == "panic" || st == "timeout" || st == "crash" {
			f.Kind, f.Msg, f.Native, f.Confirmed = st, msg, st+": "+msg, true
			e.found(f)
		}
		return
	}
	f := &Finding{Harness: h.Name, Kind: out.v.kind, Msg: out.v.msg, Inputs: m.inputValues(), Stack: out.v.stack, OrderDep: m.orderDep}
	for _, in := range f.Inputs {
		if strings.HasPrefix(in.Name, "sched") || strings.HasPrefix(in.Name, "map") {
			f.Sched = append(f.Sched, fmt.Sprintf("%s=%d", in.Name, in.Val))
		}
	}
	if out.v.kind == "race" || out.v.kind == "deadlock" {
		f.OrderDep = f.OrderDep || m.multi
	}
	e.natMu.Lock()
	e.mu.Lock()
	stopped := e.stop && h.Violation != nil
	e.mu.Unlock()
	if !stopped {
		e.confirm(f)
	}
	e.natMu.Unlock()
	if stopped {
		return
	}
	if f.Confirmed || f.OrderDep {
		e.found(f)
		return
	}
	e.mu.Lock()
	if len(h.Mismatch) < 20 {
		h.Mismatch = append(h.Mismatch, fmt.Sprintf("%s: %s (native: %s)", f.Kind, f.Msg, f.Native))
		if e.opt.v || e.opt.strict {
			fmt.Fprintf(os.Stderr, "MISMATCH %s %s: %s\nnative: %s\n%s\n%v\n", h.Name, f.Kind, f.Msg, f.Native, f.Stack, f.Inputs)
		}
	}
	e.mu.Unlock()
}

func (e *Engine) found(f *Finding) {
	e.mu.Lock()
	if e.h.Violation == nil {
		e.h.Violation = f
	}
	e.stop = true
	e.mu.Unlock()
	e.cond.Broadcast()
}

// confirm replays a counterexample against the natively built code.
func (e *Engine) confirm(f *Finding) {
	n := 1
	if f.OrderDep {
		n = 3000
	}
	var st, msg string
	if f.Kind == "race" {
		st, msg = e.nat.runRace(f)
	} else {
		st, msg = e.nat.runOne(f, n)
	}
	f.Native = st
	if msg != "" {
		f.Native += ": " + msg
	}
	switch st {
	case "assert", "panic", "timeout", "crash", "race":
		f.Confirmed = true
		if st == "assert" && f.Kind == "assert" {
			f.Msg = msg
		}
	}
}

func (e *Engine) runHarness(fn *Fn, deadline time.Time) *HarnessRun {
	h := &HarnessRun{Name: fn.ssa.Name(), fn: fn, Reach: map[string]int64{}, Unknown: map[string]int64{}, Unsup: map[string]int64{}, Known: map[string]string{}, rest: []Item{{}}}
	e.runs = append(e.runs, h)
	e.resume(h, deadline)
	return h
}

// resume explores what is left of a harness.
func (e *Engine) resume(h *HarnessRun, deadline time.Time) {
	t0 := time.Now()
	e.mu.Lock()
	e.h = h
	e.queue, h.rest, h.Truncated = h.rest, nil, false
	e.busy = 0
	e.stop = false
	e.deadline = deadline
	e.mu.Unlock()
	var wg sync.WaitGroup
	done := make(chan struct{})
	go func() { // wake sleepers for the deadline
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
				e.cond.Broadcast()
			}
		}
	}()
	for _, m := range e.machines {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker(m)
		}()
	}
	wg.Wait()
	close(done)
	h.Wall += time.Since(t0).Seconds()
	h.rest = append(h.rest, e.queue...)
	e.queue = nil
}

func (e *Engine) noteAbort(fr *frame, r any) {
	e.mu.Lock()
	k := fr.fn.name
	if fr.curPos().IsValid() {
		p := e.prog.Fset.Position(fr.curPos())
		k += fmt.Sprintf(" %s:%d", p.Filename, p.Line)
	}
	e.initAborts[k] = fmt.Sprint(r)
	e.mu.Unlock()
}
