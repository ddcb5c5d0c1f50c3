package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Meta describes a check (check.json beside the harness).
type Meta struct {
	Property    string              `json:"property"`
	Assumptions []string            `json:"assumptions"`
	Outside     []string            `json:"outside"`
	Bounds      []string            `json:"bounds"`
	Reach       map[string][]string `json:"reach"`
	MaxSteps    int64               `json:"max_steps"`
}

func trimStack() string {
	s := strings.Split(string(debug.Stack()), "\n")
	if len(s) > 40 {
		s = s[:40]
	}
	return strings.Join(s, "\n")
}

type paramFlag map[string]int

func (p paramFlag) String() string { return "" }
func (p paramFlag) Set(s string) error {
	k, v, ok := strings.Cut(s, "=")
	if !ok {
		return fmt.Errorf("want name=value")
	}
	n, err := strconv.Atoi(v)
	p[k] = n
	return err
}

var knownRe = regexp.MustCompile(`^known: property=(C\d+) (KF-[A-Za-z0-9-]+) (.*)$`)

func readKnown(fn, prop string) []KnownFinding {
	f, err := os.Open(fn)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []KnownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := knownRe.FindStringSubmatch(sc.Text()); m != nil && m[1] == prop {
			out = append(out, KnownFinding{m[1], m[2], m[3]})
		}
	}
	return out
}

func main() {
	verif := flag.String("verif", "/verif", "verification directory")
	check := flag.String("check", "", "harness package (c01)")
	tier := flag.String("tier", "quick", "quick or thorough")
	jobs := flag.Int("j", runtime.NumCPU(), "workers")
	budget := flag.Int("budget", 0, "seconds")
	only := flag.String("h", "", "only these harnesses (comma separated)")
	strict := flag.Bool("strict", false, "fail on unsupported, undecided or mismatching paths")
	flag.BoolVar(&profile, "prof", false, "show where the solver's time goes")
	verbose := flag.Bool("v", false, "verbose")
	params := paramFlag{}
	flag.Var(params, "p", "param name=value")
	flag.Parse()
	os.Exit(run(*verif, *check, *only, Options{tier: *tier, params: params, budget: time.Duration(*budget) * time.Second, jobs: *jobs, strict: *strict, v: *verbose}))
}

func run(verif, check, only string, opt Options) int {
	start := time.Now()
	if opt.budget == 0 {
		opt.budget = 240 * time.Second
		if opt.tier == "thorough" {
			opt.budget = 800 * time.Second
		}
	}
	deadline := start.Add(opt.budget)
	debug.SetGCPercent(200)
	hdir := filepath.Join(verif, "harness")
	var meta Meta
	b, err := os.ReadFile(filepath.Join(hdir, check, "check.json"))
	if err == nil {
		err = json.Unmarshal(b, &meta)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "check.json:", err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	e := &Engine{opt: opt, params: map[string]int{}}
	e.cond = sync.NewCond(&e.mu)
	e.cfg = Config{QueryTimeoutMS: 20000, AltTimeoutMS: 20000, CrossCheck: opt.tier == "thorough", MaxSteps: 20000000, MaxConcretize: 4096}
	if meta.MaxSteps > 0 {
		e.cfg.MaxSteps = meta.MaxSteps
	}
	e.known = readKnown(filepath.Join(verif, "known_findings.txt"), meta.Property)
	e.nat = &Native{dir: hdir, pattern: "./" + check, tmp: tmp, tier: opt.tier, params: opt.params}
	go e.nat.build()
	if err := e.load(hdir, "./"+check); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	loadT := time.Since(start)
	var wg sync.WaitGroup
	for i := 0; i < opt.jobs; i++ {
		m := NewMachine(e)
		e.machines = append(e.machines, m)
		e.h = &HarnessRun{Unknown: map[string]int64{}}
		wg.Add(1)
		go func() { defer wg.Done(); m.initStd() }()
	}
	wg.Wait()
	initT := time.Since(start) - loadT
	if opt.v {
		var ab []string
		for k, v := range e.initAborts {
			ab = append(ab, k+": "+v)
		}
		sort.Strings(ab)
		fmt.Fprintln(os.Stderr, "init aborts:", strings.Join(ab, "\n  "))
	}
	hs := e.harnesses(only)
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness")
		return 2
	}
	rc := 0
	fail := func(f string, a ...any) {
		fmt.Fprintf(os.Stderr, "ERROR "+f+"\n", a...)
		rc = 2
	}
	var viol *Finding
	var explored int64
	// report judges a harness that is done
	report := func(h *HarnessRun) {
		fmt.Printf("%s: %d paths (%d cut by assumptions), %d validated natively, %.1fs", h.Name, h.Paths, h.Infeasible, h.Validated, h.Wall)
		if h.Truncated {
			fmt.Printf(", TIME BUDGET REACHED")
		}
		if n := sum(h.Unsup); n > 0 {
			fmt.Printf(", %d not encodable", n)
		}
		if n := sum(h.Unknown); n > 0 {
			fmt.Printf(", %d undecided", n)
		}
		if len(h.Mismatch) > 0 {
			fmt.Printf(", %d mismatches", len(h.Mismatch))
		}
		fmt.Println()
		if opt.v {
			fmt.Fprintln(os.Stderr, "  reach:", h.Reach)
		}
		if h.Violation != nil {
			return
		}
		if opt.strict && (sum(h.Unsup) > 0 || sum(h.Unknown) > 0 || len(h.Mismatch) > 0 || h.Truncated) {
			fail("%s: incomplete: unsupported %v unknown %v mismatch %d truncated %v", h.Name, h.Unsup, h.Unknown, len(h.Mismatch), h.Truncated)
		}
		if h.Paths == 0 && !h.Truncated && sum(h.Unsup) == 0 {
			fail("%s: no path completed", h.Name)
		}
		for _, l := range meta.Reach[h.Name] {
			if h.Reach[l] == 0 && !h.Truncated && sum(h.Unsup) == 0 {
				fail("%s: label %q was never reached: the check would be vacuous", h.Name, l)
			}
		}
	}
	var later []*HarnessRun
	for i, fn := range hs {
		// time a harness does not need is left to those that follow
		h := e.runHarness(fn, time.Now().Add(max(time.Until(deadline)/time.Duration(len(hs)-i), time.Second)))
		var bad []string
		if h.Violation == nil && time.Now().Before(deadline.Add(60*time.Second)) {
			h.Validated, bad = e.nat.validate(h)
		}
		for _, b := range bad {
			if opt.strict || opt.v {
				fmt.Fprintf(os.Stderr, "VALIDATION %s: %s\n", h.Name, b)
			}
			h.Mismatch = append(h.Mismatch, "validation: "+b)
		}
		if h.Truncated && h.Violation == nil {
			later = append(later, h)
		} else {
			report(h)
		}
		if h.Violation != nil {
			viol = h.Violation
			break
		}
		if time.Now().After(deadline) {
			break
		}
	}
	// and what is left in the end to those that had too little
	for i, h := range later {
		if viol == nil && time.Until(deadline) > time.Second {
			e.resume(h, time.Now().Add(time.Until(deadline)/time.Duration(len(later)-i)))
			viol = h.Violation
		}
		report(h)
	}
	for _, h := range e.runs {
		explored += h.Paths
	}
	if viol == nil && explored == 0 {
		fail("no path of any harness completed")
	}
	for _, k := range e.known {
		for _, h := range e.runs {
			if msg, ok := h.Known[k.id]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s %s (%s)\n", k.prop, k.id, k.text, msg)
				break
			}
		}
	}
	writeEvidence(e, verif, meta, check, start, viol, hs)
	if opt.v {
		fmt.Fprintf(os.Stderr, "load %.1fs init %.1fs total %.1fs\n", loadT.Seconds(), initT.Seconds(), time.Since(start).Seconds())
		if profile {
			printProfile()
		}
	}
	for _, m := range e.machines {
		m.sol.stop()
		if m.alt != nil {
			m.alt.stop()
		}
	}
	if viol != nil {
		rdir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(rdir, 0o755)
		fn := filepath.Join(rdir, fmt.Sprintf("%s-%s.json", meta.Property, viol.Harness))
		b, _ := json.MarshalIndent(struct {
			*Finding
			Property string         `json:"property"`
			Params   map[string]int `json:"params"`
			Tier     string         `json:"tier"`
		}{viol, meta.Property, opt.params, opt.tier}, "", " ")
		os.WriteFile(fn, b, 0o644)
		fmt.Printf("counterexample in %s: %s: %s\n", viol.Harness, viol.Kind, viol.Msg)
		fmt.Printf("  native replay: %s\n", viol.Native)
		if !viol.Confirmed {
			fmt.Printf("  (depends on a schedule or map order the native stress run did not hit)\n")
		}
		for _, in := range viol.Inputs {
			fmt.Printf("  %s = %d\n", in.Name, in.Val)
		}
		if viol.Stack != "" {
			fmt.Printf("%s", viol.Stack)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", meta.Property, fn)
		return 1
	}
	return rc
}

func sum(m map[string]int64) int64 {
	var n int64
	for _, v := range m {
		n += v
	}
	return n
}

func writeEvidence(e *Engine, verif string, meta Meta, check string, start time.Time, viol *Finding, hs []*Fn) {
	var st Stats
	funcs := map[string]bool{}
	reach := map[string]int64{}
	var nstd int
	for _, m := range e.machines {
		st.Decisions += m.st.Decisions
		st.Forks += m.st.Forks
		st.Asserts += m.st.Asserts
		st.AssertQueries += m.st.AssertQueries
		st.Queries += m.st.Queries
		st.CacheHits += m.st.CacheHits
		st.Steps += m.st.Steps
		st.CrossChecked += m.st.CrossChecked
		st.SolverTime += m.st.SolverTime + m.sol.dur
		st.MaxQuery = max(st.MaxQuery, m.st.MaxQuery, m.sol.maxDur)
		for f := range m.st.Funcs {
			if f.inRepo {
				funcs[f.name] = true
			} else {
				reach[f.name] = 1
			}
		}
	}
	nstd = len(reach)
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, repoPath, "archivefs"))
	}
	sort.Strings(fl)
	var paths, validated int64
	var per []any
	var samples []any
	reduced := []string{}
	violations := 0
	if viol != nil {
		violations = 1
		samples = append(samples, map[string]any{"violation": viol})
	}
	complete := len(e.runs) == len(hs)
	if !complete && viol == nil {
		reduced = append(reduced, "time budget reached: not every harness was run")
	}
	for _, h := range e.runs {
		paths += h.Paths
		validated += h.Validated
		per = append(per, map[string]any{"harness": h.Name, "paths": h.Paths, "cut_by_assumptions": h.Infeasible, "reach": h.Reach, "order_dependent_paths": h.OrderDep, "validated": h.Validated, "wall_s": h.Wall, "complete": !h.Truncated && h.Violation == nil})
		for i, s := range h.samples {
			if i >= 3 {
				break
			}
			in := s.In
			if len(in) > 40 {
				in = in[:40]
			}
			samples = append(samples, map[string]any{"harness": h.Name, "inputs": in, "reached": s.Reach})
		}
		if h.Truncated {
			reduced = append(reduced, h.Name+": stopped at the time budget before all paths were explored")
			complete = false
		}
		for k, n := range h.Unsup {
			reduced = append(reduced, fmt.Sprintf("%s: %d paths not encodable (%s); their models were run concretely", h.Name, n, k))
			complete = false
		}
		for k, n := range h.Unknown {
			reduced = append(reduced, fmt.Sprintf("%s: %d undecided queries (%s)", h.Name, n, k))
			complete = false
		}
		for _, x := range h.Mismatch {
			reduced = append(reduced, h.Name+": engine and native run disagree: "+x)
			complete = false
		}
	}
	ev := map[string]any{
		"property": meta.Property,
		"tier":     e.opt.tier,
		"seed":     seed(),
		"level":    "model_checking",
		"coverage": map[string]any{
			"states":                        paths,
			"transitions":                   st.Decisions,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    complete && viol == nil,
			"explanation":                   "states: symbolic paths explored to their end (each stands for every input satisfying its path condition); transitions: symbolic branch decisions; traces validated: paths whose model was also run against the natively built code with equal observations",
			"functions_encoded":             fl,
			"library_functions_encoded":     nstd,
			"parameters":                    e.params,
			"bounds":                        meta.Bounds,
			"outside_the_bounds":            meta.Outside,
			"reduced":                       reduced,
			"forks":                         st.Forks,
			"assertions_evaluated":          st.Asserts,
			"assertion_queries":             st.AssertQueries,
			"solver_queries":                st.Queries,
			"query_cache_hits":              st.CacheHits,
			"solver_time_s":                 st.SolverTime.Seconds(),
			"longest_query_s":               st.MaxQuery.Seconds(),
			"cross_checked_queries":         st.CrossChecked,
			"steps":                         st.Steps,
			"solver_errors":                 solverErrors.Load(),
			"harnesses":                     per,
		},
		"assumptions": meta.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if ev["assumptions"] == nil || len(meta.Assumptions) == 0 {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", meta.Property+".json"), b, 0o644)
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if n == 0 {
		n = 1
	}
	return n
}
