package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// pending is a path prefix still to be executed, with a model of it.
type pending struct {
	decs  []uint64
	model map[string]uint64
}

type Violation struct {
	Harness string           `json:"harness"`
	Kind    string           `json:"kind"`
	Msg     string           `json:"msg"`
	Inputs  map[string]int64 `json:"inputs"`
	Decs    []uint64         `json:"decisions"`
	Sched   bool             `json:"schedule_dependent"`
	Known   string           `json:"known,omitempty"`
	Obs     []string         `json:"observed,omitempty"`
	Where   string           `json:"where,omitempty"`
	Trace   []string         `json:"trace,omitempty"`
	count   int
}

type Sample struct {
	Inputs map[string]int64 `json:"inputs"`
	Obs    []string         `json:"obs"`
}

// Explorer drives all paths of one harness.
type Explorer struct {
	P        *Program
	fn       *ssa.Function
	name     string
	deadline time.Time
	maxPaths int64
	maxStep  int64
	tier     string

	mu       sync.Mutex
	cond     *sync.Cond
	stacks   [][]*pending
	busy     int
	stop     bool
	why      map[string]int
	notes    map[string]int
	viol     map[string]*Violation
	samples  []Sample
	reached  map[string]int64
	paths    int64
	ended    map[string]int64
	steps    int64
	branches int64
	merges   int64
	asserts  int64
	assertsC int64
	maxDecs  int
	nviol    int
	stopOnV  int
	st       Stats
	fns      map[*cfn]bool
	elapsed  time.Duration
	nsample  int64

	certified  int
	badRewrite bool
}

func (e *Explorer) incomplete(reason string) {
	e.mu.Lock()
	e.why[reason]++
	e.mu.Unlock()
}

func (e *Explorer) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}

func (e *Explorer) push(m *Machine, decs []uint64, model map[string]uint64) {
	e.mu.Lock()
	e.stacks[m.id] = append(e.stacks[m.id], &pending{decs, model})
	e.mu.Unlock()
	e.cond.Signal()
}

// next returns the next prefix for worker id, or nil when exploration is over.
func (e *Explorer) next(id int) *pending {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.busy--
	for {
		if e.stop {
			e.cond.Broadcast()
			return nil
		}
		if time.Now().After(e.deadline) {
			left := 0
			for _, s := range e.stacks {
				left += len(s)
			}
			if left > 0 || e.busy > 0 {
				e.why["time budget exhausted with unexplored paths"] += left
			}
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		if s := e.stacks[id]; len(s) > 0 {
			it := s[len(s)-1]
			s[len(s)-1] = nil
			e.stacks[id] = s[:len(s)-1]
			e.busy++
			return it
		}
		best := -1
		for i, s := range e.stacks {
			if len(s) > 0 && (best < 0 || len(s) > len(e.stacks[best])) {
				best = i
			}
		}
		if best >= 0 {
			s := e.stacks[best]
			it := s[0]
			e.stacks[best] = s[1:]
			e.busy++
			return it
		}
		if e.busy == 0 {
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func newExplorer(p *Program, fn *ssa.Function, budget time.Duration, tier string) *Explorer {
	e := &Explorer{P: p, fn: fn, name: fn.Name(), deadline: time.Now().Add(budget), maxStep: 20_000_000, tier: tier,
		why: map[string]int{}, notes: map[string]int{}, viol: map[string]*Violation{}, reached: map[string]int64{},
		ended: map[string]int64{}, fns: map[*cfn]bool{}, stopOnV: 40}
	e.cond = sync.NewCond(&e.mu)
	return e
}

// Run explores with the given machines (one worker each).
func (e *Explorer) Run(ms []*Machine) {
	t0 := time.Now()
	e.stacks = make([][]*pending, len(ms))
	e.stacks[0] = []*pending{{}}
	e.busy = len(ms)
	tick := time.NewTicker(200 * time.Millisecond)
	doneTick := make(chan bool)
	go func() {
		for {
			select {
			case <-tick.C:
				e.cond.Broadcast()
			case <-doneTick:
				return
			}
		}
	}()
	var wg sync.WaitGroup
	for i, m := range ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m.id = i
			m.ex = e
			for {
				it := e.next(i)
				if it == nil {
					m.certify()
					return
				}
				m.runPath(it)
			}
		}()
	}
	wg.Wait()
	tick.Stop()
	close(doneTick)
	e.elapsed = time.Since(t0)
	for _, m := range ms {
		e.st.queries += m.st.queries
		e.st.sat += m.st.sat
		e.st.unsat += m.st.unsat
		e.st.unknown += m.st.unknown
		e.st.solverNs += m.st.solverNs
		e.st.modelHits += m.st.modelHits
		e.st.cacheHits += m.st.cacheHits
		if m.st.maxNs > e.st.maxNs {
			e.st.maxNs = m.st.maxNs
		}
		m.st = Stats{}
		for c := range m.fnSeen {
			e.fns[c] = true
		}
		clear(m.fnSeen)
	}
}

func (m *Machine) resetPath(it *pending) {
	m.pc = m.pc[:0]
	clear(m.pcSet)
	if m.tc.n > 400000 {
		m.certify()
		m.sol.Close()
		m.tc = NewTermCtx()
		m.sol = NewSolver(m.tc, &m.st)
		m.pc = nil
	}
	m.setModel(it.model)
	m.decs = nil
	m.prefix = it.decs
	m.pos = 0
	m.steps = 0
	m.maxStep = m.ex.maxStep
	m.merging = 0
	m.inputs = m.inputs[:0]
	m.gs = nil
	m.runq = nil
	m.stalls, m.stalled = false, nil
	m.catchG, m.exiting = nil, nil
	m.pr, m.pcs = 0, nil
	m.cur = nil
	m.delays = 0
	m.schedOn = false
	m.permMaps = 0
	m.mapDev = 0
	m.mapRev = false
	m.procs = 4
	m.now = V{n: 1700000000}
	m.chanSeq = 0
	m.asserts, m.assertsC = 0, 0
	m.branches, m.merges = 0, 0
	clear(m.reached)
	m.trace = nil
	clear(m.side)
	m.known = nil
	m.depth = 0
	m.obsV = nil
	m.panicKnown = ""
	m.dead = false
	m.pathErr = nil
	m.raceStart(false)
	m.serial++
	m.doneCh = make(chan struct{})
	m.inputNames = map[string]int{}
	m.curKnown = ""
	m.exitGuard = nil
	m.schedUsed = false
}

func (m *Machine) runPath(it *pending) {
	m.resetPath(it)
	m.warm()
	g := m.newG("main")
	m.cur = g
	fn := m.P.cfn(m.ex.fn)
	m.gwg.Add(1)
	go func() {
		defer m.gwg.Done()
		defer func() {
			r := recover()
			g.done = true
			if pe, ok := r.(pathEnd); ok && pe.kind == "killed" {
				return
			}
			if r != nil {
				switch r.(type) {
				case pathEnd, goPanic:
				default:
					m.lastPos = fmt.Sprint(r) + "\n" + string(debug.Stack())
				}
			}
			m.finishPath(r)
		}()
		g.callFn(fn, nil, nil)
	}()
	<-m.doneCh
	r := m.pathErr
	where := m.where()
	for _, x := range m.gs {
		x.kill()
	}
	m.gwg.Wait()
	m.endPath(r, where)
	m.rollback()
}

func (g *G) kill() {
	if !g.killed {
		g.killed = true
		close(g.wake)
	}
}

func (m *Machine) inputVals(model []uint64) map[string]int64 {
	r := map[string]int64{}
	for _, in := range m.inputs {
		if in.t != nil {
			v := m.tc.Eval(in.t, model)
			r[in.name] = int64(v) + in.lo
		} else {
			r[in.name] = int64(in.v)
		}
	}
	return r
}

// fail records a violation on the current path under the given model.
func (m *Machine) fail(kind, msg string, model []uint64, where string) {
	if os.Getenv("GOSYM_CHECK") != "" {
		for i, t := range m.pc {
			if m.tc.Eval(t, model) == 0 {
				fmt.Fprintf(os.Stderr, "BOGUS model: pc[%d]/%d false: %s\n", i, len(m.pc), t.dump(5))
			}
		}
	}
	e := m.ex
	v := &Violation{Harness: e.name, Kind: kind, Msg: msg, Inputs: m.inputVals(model), Decs: append([]uint64(nil), m.decs...),
		Known: m.curKnown, Where: where, Sched: m.schedUsed || m.permMaps > 0 || m.schedOn, Trace: append([]string(nil), m.trace...)}
	key := kind + "|" + v.Known + "|" + trimDigits(msg)
	e.mu.Lock()
	defer e.mu.Unlock()
	if v.Known == "" {
		e.nviol++
		if e.nviol >= e.stopOnV {
			e.stop = true
			e.why["stopped after several violations"]++
		}
	}
	if o, ok := e.viol[key]; ok {
		o.count++
		if len(o.Decs) > len(v.Decs) {
			v.count = o.count
			e.viol[key] = v
		}
		return
	}
	v.count = 1
	e.viol[key] = v
}

func trimDigits(s string) string {
	var b strings.Builder
	last := false
	for _, r := range s {
		d := r >= '0' && r <= '9'
		if d {
			if !last {
				b.WriteByte('#')
			}
		} else {
			b.WriteRune(r)
		}
		last = d
		if b.Len() > 160 {
			break
		}
	}
	return b.String()
}

func (m *Machine) endPath(r any, where string) {
	e := m.ex
	kind := "done"
	switch x := r.(type) {
	case nil:
	case goPanic:
		kind = "panic"
		m.curKnown = m.knownPanic()
		m.fail("panic", "uncaught panic: "+m.safePanicStr(x.v), m.model, where)
	case pathEnd:
		kind = x.kind
		switch x.kind {
		case "steps":
			m.fail("nontermination", "no termination within the step limit: "+x.msg, m.model, where)
		case "race":
			m.fail("race", x.msg, m.model, x.msg)
		case "deadlock":
			m.fail("deadlock", "all goroutines are blocked: "+x.msg, m.model, x.msg)
		case "unsupported":
			e.incomplete("unsupported: " + x.msg)
		}
	case mergeAbort:
		kind = "internal"
		e.incomplete("internal: stray merge abort")
	default:
		kind = "internal"
		e.incomplete("internal error: " + m.lastPos)
	}
	e.mu.Lock()
	e.paths++
	e.ended[kind]++
	e.steps += m.steps
	e.branches += m.branches
	e.merges += m.merges
	e.asserts += m.asserts
	e.assertsC += m.assertsC
	if len(m.decs) > e.maxDecs {
		e.maxDecs = len(m.decs)
	}
	for k := range m.reached {
		e.reached[k]++
	}
	if kind == "done" && len(m.obsV) > 0 && !m.schedOn {
		e.nsample++
		// keep an exponentially thinning sample of the paths
		if n := e.nsample; n&(n-1) == 0 {
			e.samples = append(e.samples, Sample{m.inputVals(m.model), m.evalObs()})
		}
	}
	if e.maxPaths > 0 && e.paths >= e.maxPaths {
		e.stop = true
		e.why["path limit"]++
	}
	e.mu.Unlock()
}

func (m *Machine) knownPanic() string { return m.panicKnown }

func (m *Machine) safePanicStr(v V) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?"
		}
	}()
	// rendering may run interpreted code
	g := &G{m: m, id: 999, name: "panicStr", wake: make(chan bool)}
	m.cur = g
	m.pos = len(m.prefix)
	return m.panicStr(v)
}

// warm initialises the packages whose init has visible effects.
func (m *Machine) warm() {
	if m.warmed {
		return
	}
	m.warmed = true
	for _, q := range m.P.repoPkgs {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if pe, ok := r.(pathEnd); ok {
						m.note("init " + q.Pkg.Path() + ": " + pe.msg)
						return
					}
					panic(r)
				}
			}()
			m.ensureInit(q)
		}()
	}
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m *Machine) certify() {
	n, bad := m.sol.certify()
	m.ex.mu.Lock()
	m.ex.certified += n
	m.ex.mu.Unlock()
	if bad != "" {
		fmt.Fprintln(os.Stderr, "unsound rewrite:", bad)
		m.ex.badRewrite = true
	}
}
