package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process. The assertion stack mirrors the path condition of the last query.
type Solver struct {
	cmd   *exec.Cmd
	in    *bufio.Writer
	out   *bufio.Reader
	stack []*Term
	def   map[int32]bool
	decl  map[int]*Term
	// statistics
	queries, sat, unsat, unknown int64
	tm                           time.Duration
	log                          io.Writer
	tmo                          int
	bin                          string
	dead                         bool
	ndef                         int
}

func NewSolver(bin string, tmoMs int) (*Solver, error) {
	s := &Solver{bin: bin, tmo: tmoMs}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	cmd := exec.Command(s.bin, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.out = cmd, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.def = map[int32]bool{}
	s.decl = map[int]*Term{}
	s.stack = nil
	s.ndef = 0
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.tmo))
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.send("(exit)\n")
		s.in.Flush()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(t string) {
	s.in.WriteString(t)
}

func (s *Solver) name(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t.w, t.c)
	case OVar:
		return t.name
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.def[t.id] {
		return
	}
	if t.op == OVar {
		s.def[t.id] = true
		s.ndef++
		s.send("(declare-const " + t.name + " " + sortOf(t.w) + ")\n")
		s.decl[t.vidx] = t
		return
	}
	for _, a := range t.a {
		if a != nil {
			s.define(a)
		}
	}
	body := t.body(s.name)
	s.def[t.id] = true
	s.ndef++
	s.send("(define-fun " + s.name(t) + " () " + sortOf(t.w) + " " + body + ")\n")
}

// Check decides pc ∧ extra. It returns "sat", "unsat" or "unknown".
func (s *Solver) Check(pc []*Term, extra *Term, model Model) (string, Model) {
	t0 := time.Now()
	defer func() { s.tm += time.Since(t0) }()
	if s.ndef > 200000 {
		s.Close()
		if err := s.start(); err != nil {
			panic(err)
		}
	}
	for _, t := range pc {
		s.define(t)
	}
	s.define(extra)
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if len(s.stack) > n {
		s.send(fmt.Sprintf("(pop %d)\n", len(s.stack)-n))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.send("(push 1)\n(assert " + s.name(pc[n]) + ")\n")
		s.stack = append(s.stack, pc[n])
	}
	s.send("(push 1)\n(assert " + s.name(extra) + ")\n(check-sat)\n")
	s.in.Flush()
	s.queries++
	r := s.line()
	switch r {
	case "sat":
		s.sat++
	case "unsat":
		s.unsat++
	default:
		s.unknown++
		if strings.HasPrefix(r, "(error") {
			fmt.Println("solver error:", r)
		}
		r = "unknown"
	}
	var out Model
	if r == "sat" {
		out = append(Model(nil), model...)
		// only the variables reachable from the query matter
		vars := map[int]*Term{}
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == OVar {
				vars[t.vidx] = t
			}
			for _, a := range t.a {
				if a != nil {
					walk(a)
				}
			}
		}
		for _, t := range pc {
			walk(t)
		}
		walk(extra)
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.name + " ")
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			txt := s.sexpr()
			vals := parseValues(txt)
			for i, v := range vars {
				val, ok := vals[v.name]
				if !ok {
					panic(fmt.Sprintf("no model value for %s in %s", v.name, txt))
				}
				for len(out) <= i {
					out = append(out, 0)
				}
				out[i] = val
			}
		}
	}
	s.send("(pop 1)\n")
	return r, out
}

func (s *Solver) line() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			panic(unsupported("solver died: %v", err))
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) sexpr() string {
	var sb strings.Builder
	depth := 0
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			panic(unsupported("solver died: %v", err))
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
		}
		sb.WriteByte(c)
		if depth == 0 && sb.Len() > 1 && strings.TrimSpace(sb.String()) != "" {
			return sb.String()
		}
	}
}

func parseValues(txt string) map[string]uint64 {
	r := map[string]uint64{}
	f := strings.FieldsFunc(txt, func(c rune) bool { return c == '(' || c == ')' || c == ' ' || c == '\n' })
	for i := 0; i+1 < len(f); i += 2 {
		v := f[i+1]
		var n uint64
		switch {
		case v == "true":
			n = 1
		case v == "false":
			n = 0
		case strings.HasPrefix(v, "#x"):
			n, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			n, _ = strconv.ParseUint(v[2:], 2, 64)
		default:
			panic("unexpected model value " + v)
		}
		r[f[i]] = n
	}
	return r
}
