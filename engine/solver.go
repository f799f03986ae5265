package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type Stats struct {
	queries, sat, unsat, unknown int64
	solverNs                     int64
	modelHits, cacheHits         int64
	maxNs                        int64
}

var solverBin = func() string {
	if s := os.Getenv("GOSYM_SOLVER"); s != "" {
		return s
	}
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}()

var solverTimeoutMs = 10000

type Solver struct {
	tc    *TermCtx
	cmd   *exec.Cmd
	in    *bufio.Writer
	inC   io.Closer
	out   *bufio.Reader
	gen   int
	defs  int
	stack []*Term
	st    *Stats
	log   io.Writer

	// Constraint independence: a query is decided on the constraints that
	// share variables with it, and verdicts of the solver are reused when
	// the very same constraints come up again.
	cache map[string]*qres
	sats  map[int][]*qres
	unss  map[int][]map[*Term]bool
	base  []uint64
}

type qval struct {
	i int
	v uint64
}

type qres struct {
	r SatResult
	m []qval
}

var genCounter int64

func NewSolver(tc *TermCtx, st *Stats) *Solver {
	s := &Solver{tc: tc, st: st, cache: map[string]*qres{}, sats: map[int][]*qres{}, unss: map[int][]map[*Term]bool{}}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		f, _ := os.Create(fmt.Sprintf("%s.%d", p, atomic.AddInt64(&genCounter, 1)))
		s.log = f
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen = int(atomic.AddInt64(&genCounter, 1)) + 1
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic("cannot start solver: " + err.Error())
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defs = 0
	s.stack = nil
	s.send("(set-option :global-declarations true)\n(set-option :print-success false)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", solverTimeoutMs))
	s.send("(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	s.in.Flush()
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

// define emits definitions for all subterms not yet known to this solver.
func (s *Solver) define(t *Term) {
	if t.emit == s.gen || t.op == OConst {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.emit == s.gen || f.t.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		for f.i < 3 && ch == nil {
			switch f.i {
			case 0:
				ch = f.t.a
			case 1:
				ch = f.t.b
			case 2:
				ch = f.t.c
			}
			f.i++
			if ch != nil && (ch.emit == s.gen || ch.op == OConst) {
				ch = nil
			}
		}
		if ch != nil {
			st = append(st, fr{ch, 0})
			continue
		}
		tt := f.t
		if tt.op == OVar {
			s.send(fmt.Sprintf("(declare-const %s %s)\n", tt.ref(), sortStr(tt.w)))
		} else {
			s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", tt.ref(), sortStr(tt.w), tt.body()))
		}
		tt.emit = s.gen
		s.defs++
		st = st[:len(st)-1]
	}
}

func (s *Solver) sync(pc []*Term) {
	if s.defs > 60000 {
		s.Close()
		s.start()
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if len(s.stack) > n {
		s.send(fmt.Sprintf("(pop %d)\n", len(s.stack)-n))
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.define(t)
		s.send("(push 1)\n(assert " + t.ref() + ")\n")
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error \"solver died: " + err.Error() + "\")"
	}
	return strings.TrimSpace(l)
}

// varsOf returns the variables of t as a bit set.
func (c *TermCtx) varsOf(t *Term) []uint64 {
	if t.op == OConst {
		return nil
	}
	if t.vs != nil {
		return t.vs
	}
	var r []uint64
	if t.op == OVar {
		i := int(t.k)
		r = make([]uint64, i/64+1)
		r[i/64] |= 1 << (i % 64)
	} else {
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x == nil {
				continue
			}
			v := c.varsOf(x)
			if r == nil {
				r = v
				continue
			}
			sub := true
			for i, w := range v {
				if i >= len(r) || w&^r[i] != 0 {
					sub = false
					break
				}
			}
			if sub {
				continue
			}
			n := make([]uint64, max(len(r), len(v)))
			copy(n, r)
			for i, w := range v {
				n[i] |= w
			}
			r = n
		}
	}
	t.vs = r
	return r
}

func bsOverlap(a, b []uint64) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

// slice returns the constraints of pc connected to extra, in order.
func (s *Solver) slice(pc []*Term, extra *Term) ([]*Term, []uint64) {
	cl := append([]uint64(nil), s.tc.varsOf(extra)...)
	in := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, t := range pc {
			if in[i] {
				continue
			}
			v := s.tc.varsOf(t)
			if bsOverlap(v, cl) {
				in[i] = true
				for len(cl) < len(v) {
					cl = append(cl, 0)
				}
				for j, w := range v {
					if w&^cl[j] != 0 {
						cl[j] |= w
						changed = true
					}
				}
			}
		}
	}
	var r []*Term
	for i, t := range pc {
		if in[i] {
			r = append(r, t)
		}
	}
	return r, cl
}

func (s *Solver) withModel(base []uint64, q *qres) []uint64 {
	m := make([]uint64, len(s.tc.vars))
	copy(m, base)
	for _, x := range q.m {
		if x.i < len(m) {
			m[x.i] = x.v
		}
	}
	return m
}

// Check decides pc ∧ extra, given that base is a model of pc.
func (s *Solver) Check(pc []*Term, extra *Term, base []uint64) (SatResult, []uint64) {
	sl, vars := s.slice(pc, extra)
	key := make([]byte, 0, 4*len(sl)+4)
	for _, t := range append(sl[:len(sl):len(sl)], extra) {
		key = append(key, byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24))
	}
	if q := s.cache[string(key)]; q != nil {
		s.st.cacheHits++
		if q.r != Sat {
			return q.r, nil
		}
		return Sat, s.withModel(base, q)
	}
	for _, q := range s.sats[extra.id] {
		// only variables of this slice: the rest of base must stay as it is
		m := make([]uint64, len(s.tc.vars))
		copy(m, base)
		for _, x := range q.m {
			if x.i < len(m) && x.i/64 < len(vars) && vars[x.i/64]>>(x.i%64)&1 != 0 {
				m[x.i] = x.v
			}
		}
		good := s.tc.Eval(extra, m) != 0
		for i := 0; good && i < len(sl); i++ {
			good = s.tc.Eval(sl[i], m) != 0
		}
		if good {
			s.st.modelHits++
			n := &qres{r: Sat}
			for i, v := range m {
				if i/64 < len(vars) && vars[i/64]>>(i%64)&1 != 0 {
					n.m = append(n.m, qval{i, v})
				}
			}
			s.cache[string(key)] = n
			return Sat, m
		}
	}
	if us := s.unss[extra.id]; len(us) > 0 {
		have := map[*Term]bool{}
		for _, t := range sl {
			have[t] = true
		}
	next:
		for _, u := range us {
			if len(u) > len(have) {
				continue
			}
			for t := range u {
				if !have[t] {
					continue next
				}
			}
			s.st.modelHits++
			s.cache[string(key)] = &qres{r: Unsat}
			return Unsat, nil
		}
	}
	r, m := s.check(sl, extra, true)
	q := &qres{r: r}
	switch r {
	case Sat:
		for i, v := range m {
			if i/64 < len(vars) && vars[i/64]>>(i%64)&1 != 0 {
				q.m = append(q.m, qval{i, v})
			}
		}
		if l := s.sats[extra.id]; len(l) < 6 {
			s.sats[extra.id] = append(l, q)
		} else {
			copy(l, l[1:])
			l[5] = q
		}
		m = s.withModel(base, q)
	case Unsat:
		u := map[*Term]bool{}
		for _, t := range sl {
			u[t] = true
		}
		if l := s.unss[extra.id]; len(l) < 8 {
			s.unss[extra.id] = append(l, u)
		}
	}
	if len(s.cache) < 300000 {
		s.cache[string(key)] = q
	}
	return r, m
}

func (s *Solver) check(pc []*Term, extra *Term, wantModel bool) (SatResult, []uint64) {
	t0 := time.Now()
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.send("(push 1)\n(assert " + extra.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	proc := s.cmd.Process
	dog := time.AfterFunc(time.Duration(solverTimeoutMs+5000)*time.Millisecond, func() { proc.Kill() })
	ans := s.readLine()
	dog.Stop()
	var r SatResult
	switch ans {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	default:
		r = Unknown
		if strings.HasPrefix(ans, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", ans)
		}
	}
	var m []uint64
	if r == Sat && wantModel {
		m = s.model()
	}
	if ans == "unknown" || r != Unknown {
		if extra != nil {
			s.send("(pop 1)\n")
		}
	} else {
		// broken solver: restart
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.start()
	}
	d := time.Since(t0).Nanoseconds()
	s.st.queries++
	s.st.solverNs += d
	if d > s.st.maxNs {
		s.st.maxNs = d
	}
	switch r {
	case Sat:
		s.st.sat++
	case Unsat:
		s.st.unsat++
	default:
		s.st.unknown++
	}
	return r, m
}

func (s *Solver) model() []uint64 {
	m := make([]uint64, len(s.tc.vars))
	var b strings.Builder
	var asked []*Term
	for _, v := range s.tc.vars {
		if v.emit == s.gen {
			asked = append(asked, v)
		}
	}
	if len(asked) == 0 {
		return m
	}
	b.WriteString("(get-value (")
	for _, v := range asked {
		b.WriteByte(' ')
		b.WriteString(v.ref())
	}
	b.WriteString("))\n")
	s.send(b.String())
	s.in.Flush()
	// read balanced s-expression
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return m
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(sb.String()))
	// pattern: ( v12 #x.. ) or ( v12 true ) or ( v12 ( _ bvN w ) )
	for i := 0; i+1 < len(toks); i++ {
		if toks[i][0] == 'v' && len(toks[i]) > 1 {
			idx, err := strconv.Atoi(toks[i][1:])
			if err != nil || idx >= len(m) {
				continue
			}
			x := toks[i+1]
			switch {
			case x == "true":
				m[idx] = 1
			case x == "false":
				m[idx] = 0
			case strings.HasPrefix(x, "#x"):
				m[idx], _ = strconv.ParseUint(x[2:], 16, 64)
			case strings.HasPrefix(x, "#b"):
				m[idx], _ = strconv.ParseUint(x[2:], 2, 64)
			case x == "(" && i+3 < len(toks) && strings.HasPrefix(toks[i+3], "bv"):
				m[idx], _ = strconv.ParseUint(toks[i+3][2:], 10, 64)
			}
			i++
		}
	}
	return m
}
