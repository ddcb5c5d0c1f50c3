package main

// Native builds of the harness: replay of counterexamples and validation of
// explored paths.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type Native struct {
	dir, pattern, tmp string
	tier              string
	params            map[string]int
	once, rOnce       sync.Once
	bin, raceBin      string
	err, rErr         error
	seq               int
	mu                sync.Mutex
	budget            time.Duration
}

type natCase struct {
	H  string  `json:"h"`
	In []Input `json:"in"`
}

type natJob struct {
	Cases   []natCase      `json:"cases"`
	Params  map[string]int `json:"params"`
	Tier    string         `json:"tier"`
	Repeat  int            `json:"repeat"`
	Timeout int            `json:"timeout_ms"`
	Replay  bool           `json:"replay"` // of a finding
}

type natResult struct {
	I      int      `json:"i"`
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Reach  []string `json:"reach"`
}

func (n *Native) build() error {
	n.once.Do(func() {
		n.bin = filepath.Join(n.tmp, "native")
		for try := 0; try < 3; try++ { // a loaded machine may fail it once
			c := exec.Command("go", "build", "-o", n.bin, n.pattern)
			c.Dir = n.dir
			c.Env = loadEnv(os.Environ())
			out, err := c.CombinedOutput()
			if n.err = nil; err == nil {
				return
			}
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	})
	return n.err
}

func (n *Native) buildRace() error {
	n.rOnce.Do(func() {
		n.raceBin = filepath.Join(n.tmp, "native-race")
		c := exec.Command("go", "build", "-race", "-o", n.raceBin, n.pattern)
		c.Dir = n.dir
		c.Env = append(loadEnv(os.Environ()), "CGO_ENABLED=1")
		out, err := c.CombinedOutput()
		if err != nil {
			n.rErr = fmt.Errorf("native race build: %v\n%s", err, out)
		}
	})
	return n.rErr
}

func (n *Native) exec(bin string, job natJob, limit time.Duration, vmKB int) ([]natResult, string, error) {
	n.mu.Lock()
	n.seq++
	fn := filepath.Join(n.tmp, fmt.Sprintf("job%d.json", n.seq))
	n.mu.Unlock()
	b, _ := json.Marshal(job)
	if err := os.WriteFile(fn, b, 0o644); err != nil {
		return nil, "", err
	}
	defer os.Remove(fn)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	sh := fmt.Sprintf("exec %s %s", bin, fn)
	if vmKB > 0 {
		sh = fmt.Sprintf("ulimit -v %d; ", vmKB) + sh
	}
	c := exec.CommandContext(ctx, "bash", "-c", sh)
	c.Dir = n.tmp
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	var rs []natResult
	for _, l := range strings.Split(out.String(), "\n") {
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var r natResult
		if json.Unmarshal([]byte(l), &r) == nil {
			rs = append(rs, r)
		}
	}
	if ctx.Err() != nil {
		err = ctx.Err()
	}
	return rs, errb.String(), err
}

func (n *Native) job(f *Finding, repeat int) natJob {
	return natJob{Cases: []natCase{{f.Harness, f.Inputs}}, Params: n.params, Tier: n.tier, Repeat: repeat, Timeout: 20000, Replay: true}
}

func firstLines(s string, k int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > k {
		l = l[:k]
	}
	return strings.Join(l, " | ")
}

// runOne replays a finding; status is ok, assert, panic, timeout, crash, assume or error.
func (n *Native) runOne(f *Finding, repeat int) (string, string) {
	if err := n.build(); err != nil {
		return "error", err.Error()
	}
	rs, stderr, err := n.exec(n.bin, n.job(f, repeat), 60*time.Second, 12000000)
	if len(rs) == 1 {
		return rs[0].Status, rs[0].Msg
	}
	if err == context.DeadlineExceeded {
		return "timeout", "no result within 60 s"
	}
	if err != nil {
		return "crash", firstLines(stderr, 3)
	}
	return "error", "no result"
}

func (n *Native) runRace(f *Finding) (string, string) {
	if err := n.buildRace(); err != nil {
		return "error", err.Error()
	}
	rs, stderr, err := n.exec(n.raceBin, n.job(f, 2000), 60*time.Second, 0)
	if strings.Contains(stderr, "DATA RACE") {
		return "race", firstLines(stderr, 12)
	}
	if strings.Contains(stderr, "concurrent map") {
		return "crash", firstLines(stderr, 2)
	}
	if len(rs) == 1 {
		return rs[0].Status, rs[0].Msg
	}
	if err != nil {
		return "error", firstLines(stderr, 3)
	}
	return "error", "no result"
}

// validate compares completed paths with native runs of the same inputs.
func (n *Native) validate(h *HarnessRun) (int64, []string) {
	if err := n.build(); err != nil {
		return 0, []string{err.Error()}
	}
	var cases []natCase
	for _, s := range h.samples {
		cases = append(cases, natCase{h.Name, s.In})
	}
	if len(cases) == 0 {
		return 0, nil
	}
	rs, stderr, err := n.exec(n.bin, natJob{Cases: cases, Params: n.params, Tier: n.tier, Repeat: 1, Timeout: 20000}, 120*time.Second, 0)
	var bad []string
	if err != nil {
		bad = append(bad, fmt.Sprintf("native run: %v %s", err, firstLines(stderr, 5)))
	}
	var ok int64
	for _, r := range rs {
		s := h.samples[r.I]
		if r.Status != "ok" {
			bad = append(bad, fmt.Sprintf("case %v: native %s %s", s.In, r.Status, r.Msg))
			continue
		}
		if s.Obs != nil && strings.Join(s.Obs, "\n") != strings.Join(r.Obs, "\n") {
			d := ""
			for k := 0; k < len(s.Obs) || k < len(r.Obs); k++ {
				a, b := "<none>", "<none>"
				if k < len(s.Obs) {
					a = s.Obs[k]
				}
				if k < len(r.Obs) {
					b = r.Obs[k]
				}
				if a != b {
					d = fmt.Sprintf("engine %s, native %s", a, b)
					break
				}
			}
			bad = append(bad, fmt.Sprintf("case %v: observations differ: %s", s.In, d))
			continue
		}
		if s.Obs != nil && strings.Join(s.Reach, ",") != strings.Join(r.Reach, ",") {
			bad = append(bad, fmt.Sprintf("case %v: reach differs: engine %v native %v", s.In, s.Reach, r.Reach))
			continue
		}
		ok++
	}
	return ok, bad
}
