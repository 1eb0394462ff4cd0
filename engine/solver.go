package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// solver wraps one interactive SMT solver process.
type solver struct {
	name string
	args []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader

	queries  int
	sat      int
	unsat    int
	unknown  int
	time     time.Duration
	dump     io.Writer
	restarts int
	side     *solver // runs complete scripts
}

func newSolver(name string, args ...string) *solver {
	s := &solver{name: name, args: args}
	return s
}

func (s *solver) start() {
	s.cmd = exec.Command(s.name, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	io.WriteString(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout 20000)\n(set-logic QF_BV)\n")
}

func (s *solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

type verdict int

const (
	vUnknown verdict = iota
	vSat
	vUnsat
)

// check decides the conjunction of cs; with model it returns values for vars.
func (s *solver) check(cs []*Term, vars []*Term) (verdict, map[int32]uint64) {
	script := smtScript(cs)
	return s.checkScript(script, cs, vars)
}

func (s *solver) checkScript(script string, cs, vars []*Term) (verdict, map[int32]uint64) {
	defer func() {
		if r := recover(); r != nil {
			// never go on with a solver whose answers may be out of step
			s.close()
			panic(r)
		}
	}()
	if s.cmd == nil {
		s.start()
	}
	if s.queries > 0 && s.queries%4000 == 0 {
		s.close()
		s.start()
	}
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	sb.WriteString(script)
	sb.WriteString("(check-sat)\n")
	io.WriteString(s.in, sb.String())
	line, err := s.readLine()
	if err != nil {
		panic(engineErr{fmt.Sprintf("solver %s: %v", s.name, err)})
	}
	v := vUnknown
	switch {
	case line == "sat":
		v = vSat
		s.sat++
	case line == "unsat":
		v = vUnsat
		s.unsat++
	case strings.HasPrefix(line, "(error"):
		panic(engineErr{"solver error: " + line + "\n" + script})
	default:
		s.unknown++
	}
	var m map[int32]uint64
	if v == vSat && len(vars) > 0 {
		m = map[int32]uint64{}
		declared := map[int32]bool{}
		for _, c := range cs {
			for _, x := range c.vars {
				declared[x] = true
			}
		}
		var q []string
		var qv []*Term
		for _, x := range vars {
			if declared[int32(x.n)] {
				q = append(q, varName(int32(x.n)))
				qv = append(qv, x)
			}
		}
		if len(q) > 0 {
			io.WriteString(s.in, "(get-value ("+strings.Join(q, " ")+"))\n")
			txt, err := s.readSexp()
			if err != nil {
				panic(engineErr{"solver: " + err.Error()})
			}
			parseModel(txt, m)
			for _, x := range qv {
				if _, ok := m[int32(x.n)]; !ok {
					panic(engineErr{"solver: no value for " + varName(int32(x.n)) + " in " + txt})
				}
			}
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	return v, m
}

func (s *solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		switch b {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// parseModel reads ((v1 #x00) (v2 true) ...).
func parseModel(txt string, m map[int32]uint64) {
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(f); {
		if f[i][0] != 'v' {
			i++
			continue
		}
		var idx int32
		fmt.Sscanf(f[i], "v%d", &idx)
		v := f[i+1]
		var n uint64
		adv := 2
		switch {
		case v == "true":
			n = 1
		case v == "false":
			n = 0
		case strings.HasPrefix(v, "#x"):
			fmt.Sscanf(v[2:], "%x", &n)
		case strings.HasPrefix(v, "#b"):
			fmt.Sscanf(v[2:], "%b", &n)
		case v == "_": // (_ bv12 8)
			fmt.Sscanf(f[i+2], "bv%d", &n)
			adv = 4
		}
		m[idx] = n
		i += adv
	}
}

// script runs a complete script (declarations, assertions, one check-sat) in a solver of its own
// and returns what it prints.
func (s *solver) script(txt string) string {
	if s.side == nil {
		s.side = newSolver(s.name, s.args...)
	}
	d := s.side
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	// an (exit) as the last command changes nothing but would end the process
	txt = strings.TrimSuffix(strings.TrimSpace(txt), "(exit)")
	if d.cmd == nil {
		d.start()
	}
	io.WriteString(d.in, "(reset)\n(set-option :timeout 20000)\n"+txt+"\n(echo \"end-of-script\")\n")
	res := ""
	for {
		l, err := d.readLine()
		if err != nil {
			// the script ended the solver
			d.close()
			break
		}
		if strings.Trim(l, "\"") == "end-of-script" {
			break
		}
		if res != "" {
			res += " "
		}
		res += l
	}
	res = strings.Join(strings.Fields(res), " ")
	switch res {
	case "sat":
		s.sat++
	case "unsat":
		s.unsat++
	default:
		s.unknown++
	}
	return res
}
