package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

// VarTable interns symbolic variables (shared between workers).
type VarTable struct {
	mu    sync.Mutex
	ids   map[string]int32
	names []string
	ws    []uint8
}

func NewVarTable() *VarTable { return &VarTable{ids: map[string]int32{}} }

func (v *VarTable) get(name string, w uint8) int32 {
	key := name + "#" + strconv.Itoa(int(w))
	v.mu.Lock()
	defer v.mu.Unlock()
	if id, ok := v.ids[key]; ok {
		return id
	}
	id := int32(len(v.names))
	v.ids[key] = id
	v.names = append(v.names, name)
	v.ws = append(v.ws, w)
	return id
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries   int64
	SatN      int64
	UnsatN    int64
	UnknownN  int64
	CacheHit  int64
	Time      time.Duration
	MaxTime   time.Duration
	XChecked  int64
	XAgree    int64
	XUnknown  int64
	XDisagree int64
	Errors    int64
	Fallback  int64
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.SatN += o.SatN
	s.UnsatN += o.UnsatN
	s.UnknownN += o.UnknownN
	s.CacheHit += o.CacheHit
	s.Time += o.Time
	s.MaxTime = max(s.MaxTime, o.MaxTime)
	s.XChecked += o.XChecked
	s.XAgree += o.XAgree
	s.XUnknown += o.XUnknown
	s.XDisagree += o.XDisagree
	s.Errors += o.Errors
	s.Fallback += o.Fallback
}

type proc struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	session uint32
	defs    int
}

type Solver struct {
	T       *Terms
	bin     []string
	timeout int // ms
	long    int // ms, for the fallback procedures
	p       *proc
	nsess   uint32
	Stats   SolverStats
	cache   map[string]cacheEnt
	xevery  int // cross-check every n-th unsat query with the second solver (0: never)
	xcount  int
	dump    *os.File
}

type cacheEnt struct {
	r Res
	m Model
}

func NewSolver(T *Terms, bin []string, timeoutMs int) *Solver {
	return &Solver{T: T, bin: bin, timeout: min(timeoutMs, 3000), long: timeoutMs, cache: map[string]cacheEnt{}}
}

func (s *Solver) start() error {
	cmd := exec.Command(s.bin[0], s.bin[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return err
	}
	s.nsess++
	s.p = &proc{cmd: cmd, in: bufio.NewWriterSize(in, 1<<16), inc: in, out: bufio.NewReaderSize(out, 1<<16), session: s.nsess}
	fmt.Fprintf(s.p.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeout)
	return nil
}

func (s *Solver) Close() {
	if s.p != nil {
		s.p.inc.Close()
		s.p.cmd.Process.Kill()
		s.p.cmd.Wait()
		s.p = nil
	}
}

// Reset forgets everything (terms were reset).
func (s *Solver) Reset(T *Terms) {
	s.Close()
	s.T = T
	s.cache = map[string]cacheEnt{}
}

// Check decides the conjunction of cs. On Sat returns a model for the vars in cs.
func (s *Solver) Check(cs []*Term) (Res, Model) {
	var kb strings.Builder
	ids := make([]uint32, 0, len(cs))
	for _, c := range cs {
		if c.isFalse() {
			return Unsat, nil
		}
		if c.isTrue() {
			continue
		}
		ids = append(ids, c.id)
	}
	if len(ids) == 0 {
		return Sat, Model{}
	}
	// order-insensitive key
	for i := 1; i < len(ids); i++ {
		for j := i; j > 0 && ids[j-1] > ids[j]; j-- {
			ids[j-1], ids[j] = ids[j], ids[j-1]
		}
	}
	for _, id := range ids {
		kb.WriteString(strconv.FormatUint(uint64(id), 36))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.Stats.CacheHit++
		return e.r, e.m
	}
	t0 := time.Now()
	r, m := s.query(cs)
	if r == Unknown {
		r, m = s.fallback(cs)
	}
	dt := time.Since(t0)
	s.Stats.Queries++
	s.Stats.Time += dt
	if dt > s.Stats.MaxTime {
		s.Stats.MaxTime = dt
	}
	switch r {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
		if s.xevery > 0 {
			s.xcount++
			if s.xcount%s.xevery == 0 {
				s.crossCheck(cs)
			}
		}
	default:
		s.Stats.UnknownN++
	}
	if r != Unknown {
		s.cache[key] = cacheEnt{r, m}
	}
	return r, m
}

func (s *Solver) query(cs []*Term) (Res, Model) {
	if s.p != nil && s.p.defs > 60000 {
		s.Close()
	}
	if s.p == nil {
		if err := s.start(); err != nil {
			s.Stats.Errors++
			return Unknown, nil
		}
	}
	var sb strings.Builder
	var vars []int32
	for _, c := range cs {
		if c.isConst() {
			continue
		}
		before := sb.Len()
		s.T.emitDefs(c, s.p.session, &sb, nil)
		if sb.Len() > before {
			s.p.defs += 1 + (sb.Len()-before)/40
		}
		vars = mergeVars(vars, c.vars)
	}
	sb.WriteString("(push 1)\n")
	s.T.divisions(cs, &sb)
	for _, c := range cs {
		if c.isConst() {
			continue
		}
		sb.WriteString("(assert ")
		sb.WriteString(s.T.ref(c))
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	s.p.in.WriteString(sb.String())
	if err := s.p.in.Flush(); err != nil {
		s.Stats.Errors++
		s.Close()
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.Stats.Errors++
		s.Close()
		return Unknown, nil
	}
	switch line {
	case "unsat":
		s.p.in.WriteString("(pop 1)\n")
		return Unsat, nil
	case "sat":
		m := Model{}
		if len(vars) > 0 {
			sb.Reset()
			sb.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(&sb, "v%d ", v)
			}
			sb.WriteString("))\n(pop 1)\n")
			s.p.in.WriteString(sb.String())
			s.p.in.Flush()
			txt, err := s.readSexp()
			if err != nil || strings.Contains(txt, "error") {
				s.Stats.Errors++
				s.Close()
				return Unknown, nil
			}
			parseValues(txt, m)
		} else {
			s.p.in.WriteString("(pop 1)\n")
		}
		return Sat, m
	default:
		if line != "unknown" && line != "timeout" {
			s.Stats.Errors++
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver said:", line)
			}
			s.Close()
			return Unknown, nil
		}
		s.p.in.WriteString("(pop 1)\n")
		return Unknown, nil
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.p.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.p.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(l)
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string, m Model) {
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i++ {
		if f[i][0] != 'v' {
			continue
		}
		id, err := strconv.Atoi(f[i][1:])
		if err != nil {
			continue
		}
		v := f[i+1]
		var u uint64
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			u, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, _ = strconv.ParseUint(v[2:], 2, 64)
		case v == "_" && i+2 < len(f) && strings.HasPrefix(f[i+2], "bv"):
			u, _ = strconv.ParseUint(f[i+2][2:], 10, 64)
		}
		m[int32(id)] = u
		i++
	}
}

// oneShot runs a self-contained query in a fresh solver process.
func (s *Solver) oneShot(cs []*Term, model bool, bin string, args ...string) (Res, Model, bool) {
	var sb strings.Builder
	fp := false
	for _, c := range cs {
		fp = fp || c.fp
	}
	if !fp {
		sb.WriteString("(set-logic QF_BV)\n")
	}
	if model {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	s.nsess++
	sess := s.nsess
	var vars []int32
	for _, c := range cs {
		s.T.emitDefs(c, sess, &sb, nil)
		vars = mergeVars(vars, c.vars)
	}
	// the live session no longer knows which terms it has defined
	s.Close()
	s.T.divisions(cs, &sb)
	for _, c := range cs {
		if c.isConst() {
			continue
		}
		fmt.Fprintf(&sb, "(assert %s)\n", s.T.ref(c))
	}
	sb.WriteString("(check-sat)\n")
	if model && len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(&sb, "v%d ", v)
		}
		sb.WriteString("))\n")
	}
	sb.WriteString("(exit)\n")
	cmd := exec.Command(bin, args...)
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.CombinedOutput()
	txt := strings.TrimSpace(string(out))
	switch firstLine(txt) {
	case "unsat":
		return Unsat, nil, true
	case "sat":
		m := Model{}
		if model {
			parseValues(txt[3:], m)
		}
		return Sat, m, true
	}
	if d := os.Getenv("VERIF_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d_%d.smt2", d, len(sb.String()), s.nsess), []byte(sb.String()), 0o644)
	}
	return Unknown, nil, false
}

// fallback tries other procedures on a query the main solver gave up on.
func (s *Solver) fallback(cs []*Term) (Res, Model) {
	fp := false
	for _, c := range cs {
		fp = fp || c.fp
	}
	lim := strconv.Itoa(s.long)
	if !fp {
		// word-level arithmetic (divisions, products) over the integers
		if r, m, ok := s.oneShot(cs, true, "cvc5", "--lang=smt2", "--solve-bv-as-int=bv", "--tlimit="+lim, "-"); ok {
			s.Stats.Fallback++
			return r, m
		}
	}
	if r, m, ok := s.oneShot(cs, true, s.bin[0], "-in", "-T:"+strconv.Itoa(s.long/1000)); ok {
		s.Stats.Fallback++
		return r, m
	}
	return Unknown, nil
}

// crossCheck re-runs an unsat query in cvc5.
func (s *Solver) crossCheck(cs []*Term) {
	for _, c := range cs {
		if c.fp {
			return
		}
	}
	r, _, ok := s.oneShot(cs, false, "cvc5", "--lang=smt2", "--tlimit=10000", "-")
	s.Stats.XChecked++
	switch {
	case !ok:
		s.Stats.XUnknown++
	case r == Unsat:
		s.Stats.XAgree++
	default:
		s.Stats.XDisagree++
		fmt.Fprintln(os.Stderr, "SOLVER DISAGREEMENT")
	}
}
