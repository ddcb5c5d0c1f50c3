// Package sym is the interface between the harnesses and the symbolic executor.
// The engine replaces these functions; this file is what a native build of a
// harness uses to replay the values of a path.
package sym

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"time"
)

type input struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}

type caseT struct {
	H  string  `json:"h"`
	In []input `json:"in"`
}

type jobT struct {
	Cases   []caseT        `json:"cases"`
	Params  map[string]int `json:"params"`
	Tier    string         `json:"tier"`
	Repeat  int            `json:"repeat"`
	Timeout int            `json:"timeout_ms"`
	Replay  bool           `json:"replay"`
}

type result struct {
	I      int      `json:"i"`
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Reach  []string `json:"reach"`
}

// state of the case being run. A harness uses it from its own goroutine only,
// except Assert and Fail.
type state struct {
	vals  map[string]uint64
	count map[string]int
	obs   []string
	reach map[string]bool
	alloc uint64
	mem0  uint64
	job   *jobT
}

var cur *state
var mu sync.Mutex

type assertFail struct{ msg string }
type assumeFail struct{}

func get(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	c := cur.count[name]
	cur.count[name] = c + 1
	if c > 0 {
		name = fmt.Sprintf("%s#%d", name, c)
	}
	return cur.vals[name]
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(get(name)) }

// U16 is an arbitrary 16-bit value.
func U16(name string) uint16 { return uint16(get(name)) }

// U32 is an arbitrary 32-bit value.
func U32(name string) uint32 { return uint32(get(name)) }

// U64 is an arbitrary 64-bit value.
func U64(name string) uint64 { return get(name) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return get(name)&1 == 1 }

// Range is an arbitrary value between lo and hi, inclusive.
func Range(name string, lo, hi int) int {
	if hi < lo {
		panic(assumeFail{})
	}
	if hi == lo {
		return lo
	}
	span := uint64(hi - lo)
	w := bits.Len64(span)
	v := get(name)
	if w < 64 {
		v &= 1<<w - 1
	}
	if v > span {
		panic(assumeFail{})
	}
	return lo + int(v)
}

// Choose is an arbitrary value in [0,n); every value is explored on its own path.
func Choose(name string, n int) int { return Range(name, 0, n-1) }

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

// Char is an arbitrary byte of alphabet.
func Char(name, alphabet string) byte {
	u := get(name)
	run := true // consecutive characters are numbered from the first one
	for i := range alphabet {
		run = run && alphabet[i] == alphabet[0]+byte(i)
	}
	if run {
		if u >= uint64(len(alphabet)) {
			panic(assumeFail{})
		}
		return alphabet[u]
	}
	v := byte(u)
	for i := 0; i < len(alphabet); i++ {
		if alphabet[i] == v {
			return v
		}
	}
	panic(assumeFail{})
}

// String is n arbitrary bytes of alphabet.
func String(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Char(fmt.Sprintf("%s[%d]", name, i), alphabet)
	}
	return string(b)
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

// Assert is a property.
func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) {
	panic(assertFail{msg})
}

// Reach marks a label that some path must reach.
func Reach(label string) {
	mu.Lock()
	cur.reach[label] = true
	mu.Unlock()
}

// Observe records a value that engine and native run must agree on.
func Observe(label string, v any) {
	mu.Lock()
	cur.obs = append(cur.obs, label+"="+show(v))
	mu.Unlock()
}

func show(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case error:
		return "err"
	case string:
		return strconv.Quote(x)
	case []byte:
		return fmt.Sprintf("%x", x)
	}
	return fmt.Sprint(v)
}

// And, Or, Not, Implies and the Ite functions do not fork.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// EqBytes compares without forking.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// EqString compares without forking.
func EqString(a, b string) bool { return a == b }

// Param is a bound: quick or thorough value.
func Param(name string, quick, thorough int) int {
	if v, ok := cur.job.Params[name]; ok {
		return v
	}
	if Thorough() {
		return thorough
	}
	return quick
}

// Thorough tells the tier.
func Thorough() bool { return cur.job.Tier == "thorough" }

// MapOrder makes the engine explore up to n orders of every map iteration: all
// of them when there are no more than that.
func MapOrder(n int) {}

// Concrete makes the engine explore each value of v on its own path.
func Concrete(v int) int { return v }

// Known reports whether v has a single value without asking the solver.
func Known(v int) bool { return true }

// ConcreteBool forks on c.
func ConcreteBool(c bool) bool { return c }

// StepLimit bounds the engine's steps from here on; exceeding it is non-termination.
func StepLimit(n int) {}

// StepLimitKnown is StepLimit; where known_findings.txt lists id, exceeding it is
// that finding.
func StepLimitKnown(n int, id string) {}

// AllocLimit bounds what a single allocation may request from here on.
func AllocLimit(n int) {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	cur.alloc, cur.mem0 = uint64(n), ms.TotalAlloc
}

// Preemptions bounds the number of preemptive context switches explored.
func Preemptions(n int) {}

// Tick lets time pass: an hour in the engine, over a second when a finding is
// replayed.
func Tick() {
	if cur.job.Replay {
		time.Sleep(1100 * time.Millisecond)
	}
}

// Engine reports whether the symbolic executor is running the harness.
func Engine() bool { return false }

// Yield is a scheduling point.
func Yield() { runtime.Gosched() }

// Entry is a harness.
type Entry struct {
	Name string
	F    func()
}

func runCase(i int, f func(), c caseT, job *jobT) (r result) {
	r.I = i
	st := &state{vals: map[string]uint64{}, count: map[string]int{}, reach: map[string]bool{}, job: job}
	for _, in := range c.In {
		st.vals[in.N] = in.V
	}
	mu.Lock()
	cur = st
	mu.Unlock()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			switch x := recover().(type) {
			case nil:
				if r.Status == "" {
					r.Status = "panic"
					r.Msg = "goexit"
				}
			case assertFail:
				r.Status, r.Msg = "assert", x.msg
			case assumeFail:
				r.Status = "assume"
			default:
				r.Status, r.Msg = "panic", fmt.Sprint(x)
			}
		}()
		f()
		r.Status = "ok"
		if st.alloc > 0 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			// the total of many allocations is compared, so leave room
			if d := ms.TotalAlloc - st.mem0; d > 16*st.alloc {
				r.Status, r.Msg = "assert", fmt.Sprintf("allocated %d bytes, limit %d", d, 16*st.alloc)
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(time.Duration(job.Timeout) * time.Millisecond):
		return result{I: i, Status: "timeout", Msg: fmt.Sprintf("no result within %d ms", job.Timeout)}
	}
	mu.Lock()
	r.Obs = st.obs
	mu.Unlock()
	for l := range st.reach {
		r.Reach = append(r.Reach, l)
	}
	sort.Strings(r.Reach)
	return r
}

// Main runs the cases of the job file given as argument.
func Main(hs ...Entry) {
	debug.SetMaxStack(64 << 20)
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var job jobT
	var keep struct {
		Inputs  []input        `json:"inputs"`
		Harness string         `json:"harness"`
		Params  map[string]int `json:"params"`
		Tier    string         `json:"tier"`
	}
	if err := json.Unmarshal(b, &job); err != nil {
		panic(err)
	}
	if len(job.Cases) == 0 { // a replay file
		json.Unmarshal(b, &keep)
		job.Cases = []caseT{{keep.Harness, keep.Inputs}}
		job.Params, job.Tier = keep.Params, keep.Tier
	}
	if job.Repeat == 0 {
		job.Repeat = 1
	}
	if job.Timeout == 0 {
		job.Timeout = 20000
	}
	start := time.Now()
	for i, c := range job.Cases {
		var f func()
		for _, h := range hs {
			if h.Name == c.H {
				f = h.F
			}
		}
		if f == nil {
			panic("no harness " + c.H)
		}
		var r result
		for k := 0; k < job.Repeat; k++ {
			r = runCase(i, f, c, &job)
			if r.Status != "ok" || time.Since(start) > 45*time.Second {
				break
			}
		}
		out, _ := json.Marshal(r)
		fmt.Println(string(out))
		if r.Status == "timeout" {
			os.Exit(0)
		}
	}
}
