package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver is one incremental SMT solver process.
type Solver struct {
	bin                    string
	cmd                    *exec.Cmd
	in                     io.WriteCloser
	out                    *bufio.Reader
	epoch                  int
	stack                  []*Term
	Queries                int
	NSat, NUnsat, NUnknown int
	Time                   time.Duration
	Timeout                int // ms
	emittedCount           int
	ctx                    *TermCtx
	log                    *os.File
	Deadline               time.Time
	maxQ                   time.Duration
	fp                     bool // floating point terms in use: no bit-vector logic
}

var solverEpoch atomic.Int64

func solverBin() string {
	if b := os.Getenv("VX_Z3"); b != "" {
		return b
	}
	for _, b := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(b); err == nil {
			return p
		}
	}
	return "z3"
}

func NewSolver(ctx *TermCtx, timeoutMS int) *Solver {
	s := &Solver{bin: solverBin(), ctx: ctx, Timeout: timeoutMS}
	if f := os.Getenv("VX_SMTLOG"); f != "" {
		s.log, _ = os.Create(f)
	}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(engineError{"cannot start solver: " + err.Error()})
	}
	s.epoch = int(solverEpoch.Add(1))
	s.stack = nil
	s.emittedCount = s.ctx.next
	if !s.fp {
		s.send("(set-logic QF_AUFBV)\n")
	}
	s.send(fmt.Sprintf("(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", s.Timeout))
}

func (s *Solver) send(t string) {
	if s.log != nil {
		s.log.WriteString(t)
	}
	io.WriteString(s.in, t)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) Reset(ctx *TermCtx) { // new term context: restart definitions
	s.ctx = ctx
	if s.cmd != nil {
		s.Close()
	}
}

// NewHarness drops the floating-point mode of the previous harness.
func (s *Solver) NewHarness(timeoutMS int) {
	s.Timeout = timeoutMS
	if s.fp {
		s.fp = false
		s.Close()
	}
}

// Check decides satisfiability of pc ∧ extra; on sat returns a model.
func (s *Solver) Check(pc []*Term, extra ...*Term) (SatResult, Model) {
	for _, e := range extra {
		if e == s.ctx.False {
			return Unsat, nil
		}
	}
	t0 := time.Now()
	if !s.Deadline.IsZero() && t0.After(s.Deadline) {
		panic(&pathEnd{kind: "time budget", msg: "path cut by the time budget"})
	}
	if s.cmd == nil {
		s.start()
	}
again:
	var sb strings.Builder
	fp := false
	// sync stack
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		pc[k].emit(&sb, s.epoch, &fp)
		fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n", pc[k].ref())
		s.stack = append(s.stack, pc[k])
	}
	for _, e := range extra {
		e.emit(&sb, s.epoch, &fp)
	}
	if fp && !s.fp {
		s.fp = true
		s.Close()
		s.start()
		goto again
	}
	sb.WriteString("(push 1)\n")
	for _, e := range extra {
		fmt.Fprintf(&sb, "(assert %s)\n", e.ref())
	}
	sb.WriteString("(check-sat)\n")
	s.send(sb.String())
	s.Queries++
	line := s.readLine()
	var res SatResult
	var m Model
	bad := false
	switch line {
	case "sat":
		res = Sat
		s.NSat++
		m = s.getModel()
		if m == nil {
			res = Unknown
			bad = true
		}
	case "unsat":
		res = Unsat
		s.NUnsat++
	default:
		res = Unknown
		s.NUnknown++
		if line != "unknown" {
			bad = true
			fmt.Fprintln(os.Stderr, "solver said:", line)
		}
	}
	if bad {
		s.Close()
	} else {
		s.send("(pop 1)\n")
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.maxQ {
		s.maxQ = d
	}
	return res, m
}

func (s *Solver) readLine() string {
	done := make(chan string, 1)
	go func(r *bufio.Reader) {
		l, err := r.ReadString('\n')
		if err != nil {
			done <- "(error eof " + err.Error()
			return
		}
		done <- strings.TrimSpace(l)
	}(s.out)
	select {
	case l := <-done:
		return l
	case <-time.After(time.Duration(s.Timeout)*time.Millisecond*2 + 5*time.Second):
		return "(timeout"
	}
}

func (s *Solver) getModel() Model {
	m := Model{}
	var vs []*Term
	for _, v := range s.ctx.vars {
		if v.emitted == s.epoch {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vs {
		sb.WriteString(smtName(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	// read balanced parens
	depth := 0
	var buf []byte
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return nil
		}
		buf = append(buf, c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	str := string(buf)
	if strings.HasPrefix(str, "(error") {
		return nil
	}
	// parse ((|a| #x..) (|b| true) ...)
	i := 1
	for i < len(str) {
		if str[i] != '(' {
			i++
			continue
		}
		i++
		var name string
		if str[i] == '|' {
			j := strings.IndexByte(str[i+1:], '|') + i + 1
			name = str[i+1 : j]
			i = j + 1
		} else {
			j := strings.IndexAny(str[i:], " \n") + i
			name = str[i:j]
			i = j
		}
		for str[i] == ' ' || str[i] == '\n' {
			i++
		}
		j := strings.IndexByte(str[i:], ')') + i
		val := strings.TrimSpace(str[i:j])
		i = j + 1
		switch {
		case val == "true":
			m[name] = 1
		case val == "false":
			m[name] = 0
		case strings.HasPrefix(val, "#x"):
			u, _ := strconv.ParseUint(val[2:], 16, 64)
			m[name] = u
		case strings.HasPrefix(val, "#b"):
			u, _ := strconv.ParseUint(val[2:], 2, 64)
			m[name] = u
		default:
			return nil
		}
	}
	return m
}
