package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult uint8

const (
	Unknown SatResult = iota
	Sat
	Unsat
)

func (r SatResult) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// SolverStats counts what was asked of the solver.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	CacheHits                    int
	ModelHits                    int
	Time                         time.Duration
	CrossChecked, CrossDisagree  int
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.CacheHits += o.CacheHits
	s.ModelHits += o.ModelHits
	s.Time += o.Time
	s.CrossChecked += o.CrossChecked
	s.CrossDisagree += o.CrossDisagree
}

type cacheEnt struct {
	res   SatResult
	model map[uint32]uint64
}

// Solver is one z3 process kept alive over a pipe.
type Solver struct {
	p       *TermPool
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	cache   map[string]cacheEnt
	stats   SolverStats
	timeout int // ms
	cross   *Solver
	bin     []string
}

func NewSolver(p *TermPool, timeoutMS int, bin ...string) (*Solver, error) {
	if len(bin) == 0 {
		bin = []string{"z3-new", "-in", "-smt2"}
	}
	s := &Solver{p: p, cache: map[string]cacheEnt{}, timeout: timeoutMS, bin: bin}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	if strings.Contains(s.bin[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeout)
	} else {
		fmt.Fprintf(s.in, "(set-logic ALL)\n")
	}
	return nil
}

func (s *Solver) Close() {
	if s.in != nil {
		s.in.Close()
	}
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	if s.cross != nil {
		s.cross.Close()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

// slice keeps the constraints of pc connected with q by shared variables.
func slicePC(pc []*Term, q []*Term) []*Term {
	vars := map[uint32]bool{}
	for _, t := range q {
		for _, v := range t.vars {
			vars[v] = true
		}
	}
	used := make([]bool, len(pc))
	res := append([]*Term(nil), q...)
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				res = append(res, c)
				for _, v := range c.vars {
					vars[v] = true
				}
			}
		}
	}
	return res
}

// Check decides pc ∧ q. pc is known to be satisfiable on its own, so only the
// constraints connected with q matter. The model covers the variables of the slice.
func (s *Solver) Check(pc []*Term, q ...*Term) (SatResult, map[uint32]uint64) {
	ts := slicePC(pc, q)
	sortTerms(ts)
	var kb []byte
	var last uint32
	uniq := ts[:0]
	for _, t := range ts {
		if t.isConst() {
			if t.val == 0 {
				return Unsat, nil
			}
			continue
		}
		if t.id == last {
			continue
		}
		last = t.id
		uniq = append(uniq, t)
		kb = append(kb, byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24))
	}
	ts = uniq
	if len(ts) == 0 {
		return Sat, nil
	}
	key := string(kb)
	if e, ok := s.cache[key]; ok {
		s.stats.CacheHits++
		return e.res, e.model
	}
	res, model := s.query(ts)
	if res != Unknown {
		if len(s.cache) > 400000 {
			s.cache = map[string]cacheEnt{}
		}
		s.cache[key] = cacheEnt{res, model}
	}
	return res, model
}

func (s *Solver) query(ts []*Term) (SatResult, map[uint32]uint64) {
	start := time.Now()
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	done := map[uint32]bool{}
	var vars []uint32
	for _, t := range ts {
		s.p.script(&sb, t, done)
		vars = mergeVars(vars, t.vars)
	}
	for _, t := range ts {
		fmt.Fprintf(&sb, "(assert %s)\n", t.ref())
	}
	sb.WriteString("(check-sat)\n")
	s.stats.Queries++
	defer func() { s.stats.Time += time.Since(start) }()
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.restart()
		s.stats.Unknown++
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.restart()
		s.stats.Unknown++
		return Unknown, nil
	}
	switch line {
	case "unsat":
		io.WriteString(s.in, "(pop 1)\n")
		s.stats.Unsat++
		s.crossCheck(ts, Unsat)
		return Unsat, nil
	case "sat":
	default:
		if line != "unknown" && line != "timeout" {
			// an error: anything it says is worth nothing
			dbg("solver said %q for\n%s", line, sb.String())
			s.restart()
		} else {
			io.WriteString(s.in, "(pop 1)\n")
		}
		s.stats.Unknown++
		return Unknown, nil
	}
	var gv strings.Builder
	gv.WriteString("(get-value (")
	for _, v := range vars {
		gv.WriteString(" " + s.p.byID[v].ref())
	}
	gv.WriteString("))\n(pop 1)\n")
	io.WriteString(s.in, gv.String())
	txt, err := s.readSexp()
	if err != nil {
		s.restart()
		s.stats.Unknown++
		return Unknown, nil
	}
	model := map[uint32]uint64{}
	parseValues(txt, s.p, model)
	s.stats.Sat++
	s.crossCheck(ts, Sat)
	return Sat, model
}

func (s *Solver) crossCheck(ts []*Term, want SatResult) {
	if s.cross == nil || s.cross.stats.Queries >= 200 {
		return
	}
	r, _ := s.cross.query(ts)
	if r != Unknown {
		s.stats.CrossChecked++
		if r != want {
			s.stats.CrossDisagree++
		}
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	bar := false
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		switch {
		case b == '|':
			bar = !bar
		case bar:
		case b == '(':
			depth++
			started = true
		case b == ')':
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

// parseValues reads ((|x| #x00) (|y| true) ...).
func parseValues(txt string, p *TermPool, m map[uint32]uint64) {
	i := 0
	for i < len(txt) {
		if txt[i] != '|' {
			// names z3 prints without bars
			if txt[i] == '(' && i+1 < len(txt) && txt[i+1] != '(' && txt[i+1] != '|' && txt[i+1] != '_' && i > 0 {
				j := i + 1
				for j < len(txt) && txt[j] != ' ' && txt[j] != ')' {
					j++
				}
				name := txt[i+1 : j]
				if t := p.vars[name]; t != nil && t.real {
					v, n := parseReal(txt[j:])
					m[t.id] = v
					i = j + n
					continue
				}
				v, n := parseVal(txt[j:])
				if t := p.vars[name]; t != nil {
					m[t.id] = v
				}
				i = j + n
				continue
			}
			i++
			continue
		}
		j := strings.IndexByte(txt[i+1:], '|') + i + 1
		name := txt[i+1 : j]
		if t := p.vars[name]; t != nil && t.real {
			v, n := parseReal(txt[j+1:])
			m[t.id] = v
			i = j + 1 + n
			continue
		}
		v, n := parseVal(txt[j+1:])
		if t := p.vars[name]; t != nil {
			m[t.id] = v
		}
		i = j + 1 + n
	}
}

func parseVal(s string) (uint64, int) {
	i := 0
	for i < len(s) && (s[i] == ' ' || s[i] == '\n') {
		i++
	}
	j := i
	for j < len(s) && s[j] != ')' && s[j] != ' ' && s[j] != '\n' {
		j++
	}
	tok := s[i:j]
	switch {
	case tok == "true":
		return 1, j
	case tok == "false":
		return 0, j
	case strings.HasPrefix(tok, "#x"):
		v, _ := strconv.ParseUint(tok[2:], 16, 64)
		return v, j
	case strings.HasPrefix(tok, "#b"):
		v, _ := strconv.ParseUint(tok[2:], 2, 64)
		return v, j
	}
	return 0, j
}
