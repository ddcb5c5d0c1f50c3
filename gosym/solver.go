package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver is one SMT solver process spoken to over a pipe.
type Solver struct {
	tt       *TermTable
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	gen      uint32 // emission generation
	nEmitted int
	declared int // number of vars declared
	name     string
	args     []string
	timeout  int // ms
	queries  int64
	dur      time.Duration
	maxDur   time.Duration
	emit     map[*Term]bool // used by secondary solver (cvc5)
	own      bool
}

var solverGen uint32

func newZ3(tt *TermTable, timeoutMS int) *Solver {
	return &Solver{tt: tt, name: "z3-new", args: []string{"-in"}, timeout: timeoutMS, own: true}
}

func newCVC5(tt *TermTable, timeoutMS int) *Solver {
	return &Solver{tt: tt, name: "cvc5", args: []string{"--incremental", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", timeoutMS)}, timeout: timeoutMS}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.name, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start %s: %v", s.name, err))
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.declared, s.nEmitted = 0, 0
	s.emit = map[*Term]bool{}
	var sb strings.Builder
	sb.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if s.name == "z3-new" || s.name == "z3" {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", s.timeout)
	}
	sb.WriteString("(set-logic QF_BV)\n")
	io.WriteString(s.in, sb.String())
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) emitTerm(sb *strings.Builder, t *Term) {
	if t.op == OConst || t.op == OVar || s.emit[t] {
		return
	}
	if t.a != nil {
		s.emitTerm(sb, t.a)
	}
	if t.b != nil {
		s.emitTerm(sb, t.b)
	}
	if t.c != nil {
		s.emitTerm(sb, t.c)
	}
	s.emit[t] = true
	s.nEmitted++
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortStr(t.w))
	t.body(sb)
	sb.WriteString(")\n")
}

// Check decides the conjunction of cs. If sat, vals receives model values for vars.
func (s *Solver) Check(cs []*Term, vars []int32, vals []uint64) Result {
	if s.cmd != nil && s.nEmitted > 150000 {
		s.stop()
	}
	if s.cmd == nil {
		s.start()
	}
	t0 := time.Now()
	var sb strings.Builder
	for s.declared < len(s.tt.varList) {
		v := s.tt.varList[s.declared]
		fmt.Fprintf(&sb, "(declare-const v%d %s)\n", v.k, sortStr(v.w))
		s.declared++
	}
	for _, c := range cs {
		s.emitTerm(&sb, c)
	}
	sb.WriteString("(push 1)\n")
	for _, c := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", c.ref())
	}
	sb.WriteString("(check-sat)\n")
	io.WriteString(s.in, sb.String())
	res := Unknown
	line, err := s.readLine()
	if err == nil {
		switch line {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		case "unknown", "timeout":
			res = Unknown
		default:
			// an (error ...) line: inconclusive; restart
			solverErrors.Add(1)
			fmt.Println("solver said:", line)
			s.stop()
			return Unknown
		}
	} else {
		s.stop()
		return Unknown
	}
	if res == Sat && len(vars) > 0 {
		sb.Reset()
		sb.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(&sb, "v%d ", v)
		}
		sb.WriteString("))\n")
		io.WriteString(s.in, sb.String())
		if !s.readValues(vars, vals) {
			s.stop()
			return Unknown
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	d := time.Since(t0)
	s.queries++
	s.dur += d
	if d > s.maxDur {
		s.maxDur = d
	}
	return res
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readValues(vars []int32, vals []uint64) bool {
	// ((v0 #x00) (v1 true) ...)
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return false
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := sb.String()
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		return false
	}
	txt = strings.NewReplacer("(", " ", ")", " ").Replace(txt)
	f := strings.Fields(txt)
	got := map[string]uint64{}
	for i := 0; i+1 < len(f); {
		name := f[i]
		v := f[i+1]
		i += 2
		switch {
		case v == "true":
			got[name] = 1
		case v == "false":
			got[name] = 0
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return false
			}
			got[name] = x
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return false
			}
			got[name] = x
		case v == "_": // (_ bvN w)
			x, err := strconv.ParseUint(strings.TrimPrefix(f[i], "bv"), 10, 64)
			if err != nil {
				return false
			}
			got[name] = x
			i += 2
		default:
			return false
		}
	}
	for i, v := range vars {
		x, ok := got[fmt.Sprintf("v%d", v)]
		if !ok {
			return false
		}
		vals[i] = x
	}
	return true
}
