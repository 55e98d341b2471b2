package main

// SMT solver front end: one `z3 -in` process per worker, kept alive, driven incrementally.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	CrossChecked, CrossDisagree  int
	Time                         time.Duration
}

type Solver struct {
	c        *Ctx
	bin      []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	inPipe   io.WriteCloser
	defined  map[*Term]bool // defined in the current process (global declarations)
	stack    []*Term        // asserted path-condition literals, one push level each
	timeout  int            // ms
	stats    SolverStats
	dead     bool
	cross    *Solver // second solver asked the same final queries
	lastErr  string
	nDefined int
}

func newSolver(c *Ctx, bin string, timeoutMs int) *Solver {
	s := &Solver{c: c, bin: solverArgs(bin), timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.defined = map[*Term]bool{}
	s.nDefined = 0
	s.stack = nil
	args := append([]string(nil), s.bin[1:]...)
	s.cmd = exec.Command(s.bin[0], args...)
	var err error
	s.inPipe, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	op, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(s.inPipe, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	s.dead = false
	s.send("(set-option :global-declarations true)\n")
	if strings.Contains(s.bin[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	} else {
		s.send("(set-option :produce-models true)\n(set-logic QF_UFBV)\n")
	}
}

func (s *Solver) close() {
	if s.cross != nil {
		s.cross.close()
	}
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.inPipe.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
}

func (s *Solver) send(x string) { s.in.WriteString(x) }

// define emits (define-fun tN ...) for every not yet defined subterm.
func (s *Solver) define(t *Term) {
	if s.defined[t] || t.op == OpConst {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.a) {
			ch := f.t.a[f.i]
			f.i++
			if ch.op != OpConst && !s.defined[ch] {
				st = append(st, fr{ch, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if s.defined[x] {
			continue
		}
		s.defined[x] = true
		s.nDefined++
		switch x.op {
		case OpVar:
			s.send(fmt.Sprintf("(declare-const %s %s)\n", s.ref(x), sortName(x.w)))
		case OpUF:
			if !s.defined[s.c.ufMark(x.name)] {
				s.defined[s.c.ufMark(x.name)] = true
				s.send("(declare-fun " + x.name + " (")
				for _, a := range x.a {
					s.send(sortName(a.w) + " ")
				}
				s.send(") " + sortName(x.w) + ")\n")
			}
			fallthrough
		default:
			s.send("(define-fun " + s.ref(x) + " () " + sortName(x.w) + " ")
			switch x.op {
			case OpExtract:
				s.send(fmt.Sprintf("((_ extract %d %d) %s)", x.lo+x.w-1, x.lo, s.ref(x.a[0])))
			case OpSExt:
				s.send(fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a[0].w, s.ref(x.a[0])))
			default:
				if x.op == OpUF {
					s.send("(" + x.name)
				} else {
					s.send("(" + opSMT[x.op])
				}
				for _, a := range x.a {
					s.send(" " + s.ref(a))
				}
				s.send(")")
			}
			s.send(")\n")
		}
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return constSMT(t)
	case OpVar:
		return fmt.Sprintf("|%s:%d|", t.name, t.w)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (s *Solver) readLine() (string, bool) {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "", false
	}
	return strings.TrimSpace(l), true
}

// Check decides pc ∧ extra. On Sat the model assigns every variable occurring in pc∧extra.
func (s *Solver) Check(pc []*Term, extra *Term, vars func() []*Term) (Result, Model) {
	if extra.isFalse() {
		return Unsat, nil
	}
	t0 := time.Now()
	defer func() { s.stats.Time += time.Since(t0) }()
	s.stats.Queries++
	if s.nDefined > 400000 {
		s.restart()
	}
	for try := 0; try < 2; try++ {
		r, m, ok := s.check1(pc, extra, vars)
		if ok {
			switch r {
			case Sat:
				s.stats.Sat++
			case Unsat:
				s.stats.Unsat++
			default:
				s.stats.Unknown++
			}
			return r, m
		}
		s.restart()
	}
	s.stats.Unknown++
	return Unknown, nil
}

func (s *Solver) check1(pc []*Term, extra *Term, vars func() []*Term) (Result, Model, bool) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", k))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		s.send("(push 1)\n(assert " + s.ref(pc[n]) + ")\n")
		s.stack = append(s.stack, pc[n])
	}
	s.define(extra)
	s.send("(push 1)\n(assert " + s.ref(extra) + ")\n(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.dead = true
		return Unknown, nil, false
	}
	killer := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+10*time.Second, func() { s.cmd.Process.Kill() })
	line, ok := s.readLine()
	killer.Stop()
	if !ok {
		return Unknown, nil, false
	}
	res := Unknown
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
	default:
		s.lastErr = line
		fmt.Fprintln(os.Stderr, "solver:", line)
		return Unknown, nil, false
	}
	var m Model
	if res == Sat {
		m = Model{}
		vs := vars()
		const chunk = 512
		for i := 0; i < len(vs); i += chunk {
			part := vs[i:min(i+chunk, len(vs))]
			var names []string
			for _, v := range part {
				s.define(v)
				names = append(names, s.ref(v))
			}
			s.send("(get-value (" + strings.Join(names, " ") + "))\n")
			s.in.Flush()
			vals, ok := s.readValues(len(part))
			if !ok {
				return Unknown, nil, false
			}
			for j, v := range part {
				m[v] = vals[j]
			}
		}
	}
	s.send("(pop 1)\n")
	return res, m, true
}

// readValues parses ((name val) (name val) ...) spanning several lines.
func (s *Solver) readValues(n int) ([]uint64, bool) {
	depth := 0
	var toks []string
	var cur strings.Builder
	inBar := false
	flush := func() {
		if cur.Len() > 0 {
			toks = append(toks, cur.String())
			cur.Reset()
		}
	}
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return nil, false
		}
		if inBar {
			cur.WriteByte(b)
			if b == '|' {
				inBar = false
			}
			continue
		}
		switch b {
		case '|':
			inBar = true
			cur.WriteByte(b)
		case '(':
			flush()
			depth++
		case ')':
			flush()
			depth--
			if depth == 0 {
				s.out.ReadString('\n')
				var out []uint64
				for i := 0; i+1 < len(toks); i += 2 {
					v, ok := parseVal(toks[i+1])
					if !ok {
						fmt.Fprintln(os.Stderr, "solver: bad value", toks[i:i+2])
						return nil, false
					}
					out = append(out, v)
				}
				return out, len(out) == n
			}
		case ' ', '\n', '\t', '\r':
			flush()
		default:
			cur.WriteByte(b)
		}
	}
}

func parseVal(x string) (uint64, bool) {
	switch {
	case x == "true":
		return 1, true
	case x == "false":
		return 0, true
	case strings.HasPrefix(x, "#x"):
		var v uint64
		_, err := fmt.Sscanf(x[2:], "%x", &v)
		return v, err == nil
	case strings.HasPrefix(x, "#b"):
		var v uint64
		for _, c := range x[2:] {
			v = v<<1 | uint64(c-'0')
		}
		return v, true
	}
	return 0, false
}

func solverArgs(bin string) []string {
	a := strings.Fields(bin)
	if len(a) == 1 && strings.Contains(a[0], "z3") {
		a = append(a, "-in", "-smt2")
	}
	return a
}
