package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process over SMT-LIB text.
type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[uint32]bool
	queries  int
	nsat     int
	nunsat   int
	nunk     int
	dur      time.Duration
	sinceRst int
	timeout  int
}

type qres struct {
	r string // sat unsat unknown
	m map[uint32]uint64
}

var z3Path = "z3"

func newSolver(timeoutMS int) *Solver {
	s := &Solver{timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3Path, "-in")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.declared = map[uint32]bool{}
	s.header()
}

func (s *Solver) header() {
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :produce-models true)\n(set-logic QF_BV)\n", s.timeout)
}

func (s *Solver) reset() {
	io.WriteString(s.in, "(reset)\n")
	s.declared = map[uint32]bool{}
	s.sinceRst = 0
	s.header()
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error eof)"
	}
	return strings.TrimSpace(l)
}

// check decides the conjunction of ts and returns a model for vars when sat.
func (s *Solver) check(c *Ctx, ts []*Term) qres {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	s.sinceRst++
	if s.sinceRst > 3000 {
		s.reset()
	}
	var sb strings.Builder
	var vars []uint32
	for _, t := range ts {
		vars = mergeVars(vars, c.varsOf(t))
	}
	for _, v := range vars {
		if !s.declared[v] {
			t := c.byID[v]
			if t.w == 0 {
				fmt.Fprintf(&sb, "(declare-const v%d Bool)\n", v)
			} else {
				fmt.Fprintf(&sb, "(declare-const v%d (_ BitVec %d))\n", v, t.w)
			}
			s.declared[v] = true
		}
	}
	sb.WriteString("(push)\n")
	for _, t := range ts {
		sb.WriteString("(assert ")
		sb.WriteString(smtPrint(t))
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	io.WriteString(s.in, sb.String())
	r := s.readLine()
	res := qres{r: r}
	switch r {
	case "sat":
		s.nsat++
		res.m = map[uint32]uint64{}
		if len(vars) > 0 {
			sb.Reset()
			sb.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(&sb, "v%d ", v)
			}
			sb.WriteString("))\n")
			io.WriteString(s.in, sb.String())
			depth := 0
			var txt strings.Builder
			for {
				l := s.readLine()
				txt.WriteString(l)
				txt.WriteByte(' ')
				depth += strings.Count(l, "(") - strings.Count(l, ")")
				if depth <= 0 {
					break
				}
			}
			if strings.Contains(txt.String(), "(error") {
				res.r = "unknown"
				s.restart()
				return res
			}
			parseModel(txt.String(), res.m)
		}
	case "unsat":
		s.nunsat++
	default:
		s.nunk++
		res.r = "unknown"
		if strings.HasPrefix(r, "(error") {
			s.restart()
			return res
		}
	}
	io.WriteString(s.in, "(pop)\n")
	return res
}

func (s *Solver) restart() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
}

func parseModel(txt string, m map[uint32]uint64) {
	// ((v1 #x00) (v2 true) (v3 #b101))
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	for i := 0; i+1 < len(toks); i += 2 {
		id, err := strconv.Atoi(strings.TrimPrefix(toks[i], "v"))
		if err != nil {
			panic("model parse: " + txt)
		}
		v := toks[i+1]
		var x uint64
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, _ = strconv.ParseUint(v[2:], 2, 64)
		default:
			panic("model parse value: " + txt)
		}
		m[uint32(id)] = x
	}
}
