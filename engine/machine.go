package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Machine executes one path at a time; each worker owns one.
type Machine struct {
	json    bool // encode and decode as encoding/json does
	id      int
	P       *Program
	tc      *TermCtx
	sol     *Solver
	st      Stats
	ex      *Explorer
	globals []V // one slot per *ssa.Global
	pkgInit map[*ssa.Package]int
	serial  int
	initing int

	stalls  bool // a preempted goroutine may also wait until no other can run
	stalled []*G

	races    bool // look for data races
	raceOn   bool // and there is more than one goroutine
	shadow   map[any]*shadow
	raceSync map[any]*vclock

	undo []undoEnt

	// path state
	pc      []*Term
	pcSet   map[*Term]bool // literal -> true
	model   []uint64
	pend    map[string]uint64
	decs    []uint64
	prefix  []uint64
	pos     int
	steps   int64
	maxStep int64
	merging int
	inputs  []inputRec
	notes   map[string]bool

	// scheduler
	gs       []*G
	cur      *G
	runq     []*G
	catchG   *G       // the goroutine in ndCatch: main of the running process
	exiting  *pathEnd // an exit on its way to catchG
	pr       int      // the running process
	pcs      []pctx   // the suspended ones
	delays   int      // remaining schedule deviations
	schedOn  bool
	permMaps int
	mapDev   int  // loops over maps that may still take any order
	mapRev   bool // the others run backwards
	procs    int
	now      V
	chanSeq  int
	asserts  int64
	assertsC int64
	reached  map[string]bool
	trace    []string
	utcLoc   *V
	mcache   map[mkey]*cfn
	side     map[any]any
	branches int64
	merges   int64
	fnSeen   map[*cfn]bool
	known    []string
	depth    int
	lastPos  string
	obs      []string
	segs     [][]V
	dead     bool
	pathErr  any
	doneCh   chan struct{}

	gwg        sync.WaitGroup
	inputNames map[string]int
	curKnown   string
	panicKnown string
	exitGuard  *G
	schedUsed  bool
	warmed     bool
	obsV       []V
	panicAt    string
}

type inputRec struct {
	name string
	kind string
	t    *Term
	w    uint8
	lo   int64
	v    uint64
	s    bool
}

type undoEnt struct {
	p   *V
	old V
	f   func()
}

type mkey struct {
	t types.Type
	m *types.Func
}

// ---- path termination -------------------------------------------------------

type pathEnd struct {
	kind string // infeasible, assume, unsupported, steps, exit, killed, violation
	msg  string
}

type goPanic struct{ v V } // v is an interface value

func (m *Machine) unsupported(msg string) {
	panic(pathEnd{"unsupported", msg + " at " + m.where()})
}

func (m *Machine) where() string {
	if m.cur == nil {
		return "?"
	}
	var parts []string
	f := m.cur.top
	for i := 0; f != nil && i < 6; i++ {
		parts = append(parts, f.fn.name+posOf(f))
		f = f.caller
	}
	return strings.Join(parts, " < ")
}

func posOf(f *frame) string {
	if f.curInstr != nil && f.curInstr.Pos().IsValid() {
		p := f.fn.fn.Prog.Fset.Position(f.curInstr.Pos())
		s := p.Filename
		if i := strings.LastIndexByte(s, '/'); i >= 0 {
			s = s[i+1:]
		}
		return fmt.Sprintf("(%s:%d)", s, p.Line)
	}
	return ""
}

func (m *Machine) rtPanic(msg string) {
	m.panicAt = msg + " at " + m.where()
	panic(goPanic{V{x: &Iface{t: m.P.rtErrType, v: strV(msg)}}})
}

func (m *Machine) logUndo(f func()) {
	if m.initing == 0 {
		m.undo = append(m.undo, undoEnt{f: f})
	}
}

func (m *Machine) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		e := &m.undo[i]
		if e.f != nil {
			e.f()
		} else {
			*e.p = e.old
		}
		*e = undoEnt{}
	}
	m.undo = m.undo[:0]
}

// storeTo writes v into *p, keeping the identity of nested aggregates.
func (m *Machine) storeTo(p *V, v V) {
	if a, ok := v.x.(*Agg); ok {
		if d, ok := p.x.(*Agg); ok && len(d.e) == len(a.e) {
			if d == a {
				return
			}
			for i := range a.e {
				m.storeTo(&d.e[i], a.e[i])
			}
			return
		}
		v = copyVal(v)
	}
	if m.initing == 0 {
		m.undo = append(m.undo, undoEnt{p: p, old: *p})
	}
	*p = v
}

// storeLocal is storeTo without the undo record.
func storeLocal(p *V, v V) {
	if a, ok := v.x.(*Agg); ok {
		if d, ok := p.x.(*Agg); ok && len(d.e) == len(a.e) {
			if d == a {
				return
			}
			for i := range a.e {
				storeLocal(&d.e[i], a.e[i])
			}
			return
		}
		v = copyVal(v)
	}
	*p = v
}

// ---- decisions --------------------------------------------------------------

func (m *Machine) addPC(t *Term) {
	if t == m.tc.T || m.pcSet[t] {
		return
	}
	m.pc = append(m.pc, t)
	m.pcSet[t] = true
	if debugModel && m.tc.Eval(t, m.model) == 0 {
		fmt.Fprintf(os.Stderr, "BAD addPC %s pos=%d/%d decs=%v\n", t.dump(6), m.pos, len(m.prefix), m.decs)
		debug.PrintStack()
		os.Exit(9)
	}
	if t.op == OAnd {
		m.pcSet[t.a] = true
		m.pcSet[t.b] = true
	}
	if t.op == ONot && t.a.op == OOr {
		m.pcSet[m.tc.Not(t.a.a)] = true
		m.pcSet[m.tc.Not(t.a.b)] = true
	}
}

func (m *Machine) known3(c *Term) (bool, bool) {
	if c == m.tc.T {
		return true, true
	}
	if c == m.tc.F {
		return false, true
	}
	if m.pcSet[c] {
		return true, true
	}
	if m.pcSet[m.tc.Not(c)] {
		return false, true
	}
	return false, false
}

type mergeAbort struct{}

func (m *Machine) branchV(v V) bool {
	if v.x == nil {
		return v.n != 0
	}
	return m.branch(v.x.(*Term))
}

// branch decides a symbolic condition, exploring the other side later.
func (m *Machine) branch(c *Term) bool {
	if v, ok := m.known3(c); ok {
		return v
	}
	if m.merging > 0 {
		panic(mergeAbort{})
	}
	m.branches++
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.decs = append(m.decs, d)
		if d == 1 {
			m.addPC(c)
			return true
		}
		m.addPC(m.tc.Not(c))
		return false
	}
	side := m.tc.Eval(c, m.model) != 0
	yes, no := c, m.tc.Not(c)
	if !side {
		yes, no = no, yes
	}
	r, mod := m.sol.Check(m.pc, no, m.model)
	if r == Unknown {
		m.note("solver returned unknown on a branch; that side was not explored")
		m.ex.incomplete("solver unknown")
	}
	if r == Sat {
		if debugModel {
			for i, t := range append(append([]*Term(nil), m.pc...), no) {
				if m.tc.Eval(t, mod) == 0 {
					fmt.Fprintf(os.Stderr, "BAD push %d/%d %s no=%s baseok=%d\n", i, len(m.pc), t.dump(6), no.dump(6), m.tc.Eval(t, m.model))
					os.Exit(9)
				}
			}
		}
		alt := append(append([]uint64(nil), m.decs...), b2u(!side))
		m.ex.push(m, alt, m.modelMap(mod))
	}
	m.decs = append(m.decs, b2u(side))
	m.addPC(yes)
	return side
}

// concretize picks one value for t and explores the others later.
func (m *Machine) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	if m.merging > 0 {
		panic(mergeAbort{})
	}
	for n := 0; ; n++ {
		if n > 4096 {
			m.unsupported("concretization of an unbounded value")
		}
		var v uint64
		if m.pos < len(m.prefix) {
			v = m.prefix[m.pos]
			m.pos++
		} else {
			v = m.tc.Eval(t, m.model)
		}
		m.decs = append(m.decs, v)
		if m.branch(m.tc.Eq(t, m.tc.Const(v, t.w))) {
			return v
		}
	}
}

func (m *Machine) concV(v V) V {
	if t, ok := v.x.(*Term); ok {
		return V{n: m.concretize(t)}
	}
	return v
}

func (m *Machine) concInt(v V) int { return int(int64(m.concV(v).n)) }

func (m *Machine) concF(v V) V {
	if s, ok := v.x.(*SymF); ok {
		return f64V(s.f(m.concretize(s.arg)))
	}
	return v
}

// choose returns a nondeterministic value in [0,n); all are explored.
// maxDecs limits the choices on a path; only one that goes round in circles makes
// this many.
const maxDecs = 5000

func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.merging > 0 {
		panic(mergeAbort{})
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.decs = append(m.decs, d)
		return int(d)
	}
	if len(m.decs) > maxDecs {
		panic(pathEnd{"steps", "limit of choices on a path"})
	}
	mm := m.modelMap(m.model)
	for i := n - 1; i > 0; i-- {
		alt := append(append([]uint64(nil), m.decs...), uint64(i))
		m.ex.push(m, alt, mm)
	}
	m.decs = append(m.decs, 0)
	return 0
}

func (m *Machine) modelMap(mod []uint64) map[string]uint64 {
	r := make(map[string]uint64, len(mod))
	for i, v := range mod {
		if v != 0 {
			r[m.tc.vars[i].name] = v
		}
	}
	return r
}

func (m *Machine) setModel(mm map[string]uint64) {
	m.model = m.model[:0]
	for _, v := range m.tc.vars {
		m.model = append(m.model, mm[v.name])
	}
	m.pend = mm
}

func (m *Machine) assume(v V) {
	if v.x == nil {
		if v.n == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	c := v.x.(*Term)
	if k, ok := m.known3(c); ok {
		if !k {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if m.pos < len(m.prefix) {
		// still replaying: the model of the pending item satisfies everything
		m.addPC(c)
		return
	}
	if m.tc.Eval(c, m.model) != 0 {
		m.addPC(c)
		return
	}
	r, mod := m.sol.Check(m.pc, c, m.model)
	if r == Unknown {
		m.ex.incomplete("solver unknown")
	}
	if r != Sat {
		panic(pathEnd{"assume", ""})
	}
	m.model = mod
	m.addPC(c)
}

func (m *Machine) note(s string) { m.ex.note(s) }

// newVar declares an input with unsigned range [0,hi].
func (m *Machine) newVar(name string, w uint8, hi uint64) *Term {
	t := m.tc.VarHi(name, w, hi)
	for len(m.model) <= int(t.k) {
		m.model = append(m.model, 0)
	}
	if m.pend != nil {
		m.model[t.k] = m.pend[name]
	}
	if hi < mask(w) {
		c := m.tc.mkRaw(OUle0, t, m.tc.Const(hi, w))
		m.pc = append(m.pc, c)
		m.pcSet[c] = true
	}
	return t
}

// ---- goroutines -------------------------------------------------------------

type G struct {
	m        *Machine
	id       int
	top      *frame
	frames   []*frame
	stack    []V
	sp       int
	wake     chan bool // true = run, false = die
	done     bool
	killed   bool
	wait     string
	selRes   int
	selVal   V
	selOk    bool
	sq       []*waiter
	name     string
	defFrame *frame
	pr       int // the process it belongs to
	vc       vclock
}

type waiter struct {
	g    *G
	c    *ChanV
	send bool
	v    V
	idx  int
	dead *bool
}

type ChanV struct {
	id     int
	cap    int
	buf    []V
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	et     types.Type
	sent   vclock // what came before the sends, and the receives
	recvd  vclock
}

func (m *Machine) newG(name string) *G {
	g := &G{m: m, id: len(m.gs), wake: make(chan bool), name: name, pr: m.pr}
	m.gs = append(m.gs, g)
	return g
}

// spawn starts a goroutine; it runs when scheduled.
func (m *Machine) spawn(fn V, args []V, name string) {
	g := m.newG(name)
	if m.races {
		m.raceOn = true
		if m.cur != nil {
			m.cur.release(&g.vc)
		}
	}
	m.runq = append(m.runq, g)
	m.gwg.Add(1)
	go func() {
		defer m.gwg.Done()
		if !<-g.wake {
			return
		}
		defer func() {
			r := recover()
			g.done = true
			if r != nil {
				pe, ok := r.(pathEnd)
				if ok && pe.kind == "killed" {
					return
				}
				if ok && pe.kind == "exit" && m.catchG != nil && m.catchG != g && !m.dead {
					// the process ends: its main goroutine takes over, in ndCatch
					c := m.catchG
					m.exiting = &pe
					m.runq = nil
					m.cur = c
					c.wake <- true
					return
				}
				switch r.(type) {
				case pathEnd, goPanic:
				default:
					m.lastPos = fmt.Sprint(r) + "\n" + string(debug.Stack())
				}
				m.finishPath(r)
				return
			}
			m.switchFrom(g, true)
		}()
		g.callV(fn, args)
	}()
}

// finishPath ends the path from any goroutine: result goes to the explorer.
func (m *Machine) finishPath(r any) {
	if m.dead {
		return
	}
	m.dead = true
	m.pathErr = r
	close(m.doneCh)
}

// pickNext chooses the next runnable goroutine.
func (m *Machine) pickNext() *G {
	if len(m.runq) == 0 {
		// those that were stalled go on once nothing else can
		m.runq, m.stalled = m.stalled, nil
	}
	if len(m.runq) == 0 {
		return nil
	}
	i := 0
	if m.schedOn && m.delays > 0 && len(m.runq) > 1 {
		i = m.choose(len(m.runq))
		if i > 0 {
			m.delays--
		}
	}
	g := m.runq[i]
	m.runq = append(append([]*G(nil), m.runq[:i]...), m.runq[i+1:]...)
	return g
}

// switchFrom hands control to another goroutine. If exiting, does not return control.
func (m *Machine) switchFrom(g *G, exiting bool) {
	var next *G
	func() {
		defer func() {
			if r := recover(); r != nil {
				m.finishPath(r)
			}
		}()
		next = m.pickNext()
	}()
	if m.dead {
		if exiting {
			return
		}
		panic(pathEnd{"killed", ""})
	}
	if next == nil {
		var ws []string
		for _, x := range m.gs {
			if !x.done {
				ws = append(ws, x.name+": "+x.wait)
			}
		}
		sort.Strings(ws)
		m.finishPath(pathEnd{"deadlock", strings.Join(ws, "; ")})
		if exiting {
			return
		}
		panic(pathEnd{"killed", ""})
	}
	if next == g {
		m.cur = g
		return
	}
	m.cur = next
	next.wake <- true
	if exiting {
		return
	}
	g.park()
}

// park waits for the goroutine's turn, which may be that of its process's end.
func (g *G) park() {
	if !<-g.wake {
		panic(pathEnd{"killed", ""})
	}
	if e := g.m.exiting; e != nil {
		g.m.exiting = nil
		panic(*e)
	}
}

// block parks g until made ready.
func (g *G) block(why string) {
	if g.m.initing > 0 {
		g.m.unsupported("blocking during package init")
	}
	if g.m.merging > 0 {
		panic(mergeAbort{})
	}
	g.wait = why
	g.m.switchFrom(g, false)
	g.wait = ""
}

func (m *Machine) ready(g *G) { m.runq = append(m.runq, g) }

// yield is a preemption point.
func (g *G) yield() {
	m := g.m
	if !m.schedOn || m.delays <= 0 || len(m.runq) == 0 || m.initing > 0 {
		return
	}
	n := 2
	if m.stalls {
		n = 3
	}
	if k := m.choose(n); k > 0 {
		m.delays--
		if k == 1 {
			m.runq = append(m.runq, g)
		} else {
			m.stalled = append(m.stalled, g)
		}
		// run another one first
		next := m.runq[0]
		m.runq = m.runq[1:]
		m.cur = next
		if next == g {
			return
		}
		next.wake <- true
		g.park()
	}
}

func deqWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !*w.dead {
			return w
		}
	}
	return nil
}

func liveWaiter(q []*waiter) bool {
	for _, w := range q {
		if !*w.dead {
			return true
		}
	}
	return false
}

func (w *waiter) fire(v V, ok bool) {
	*w.dead = true
	w.g.selRes = w.idx
	w.g.selVal = v
	w.g.selOk = ok
	w.g.m.ready(w.g)
}

func (c *ChanV) canSend() bool {
	return c.closed || len(c.buf) < c.cap || liveWaiter(c.recvq)
}
func (c *ChanV) canRecv() bool {
	return c.closed || len(c.buf) > 0 || liveWaiter(c.sendq)
}

func (g *G) doSend(c *ChanV, v V) {
	if c.closed {
		g.m.goErr("send on closed channel")
	}
	if w := deqWaiter(&c.recvq); w != nil {
		w.fire(v, true)
		return
	}
	c.buf = append(c.buf, v)
}

func (g *G) doRecv(c *ChanV) (V, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]V(nil), c.buf[1:]...)
		if w := deqWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.v)
			w.fire(V{}, true)
		}
		return v, true
	}
	if w := deqWaiter(&c.sendq); w != nil {
		v := w.v
		w.fire(V{}, true)
		return v, true
	}
	return zero(c.et), false
}

func (m *Machine) goErr(msg string) { m.rtPanic(msg) }

func (g *G) send(cv V, v V) {
	c, _ := cv.x.(*ChanV)
	g.yield()
	if c == nil {
		g.block("send on nil channel")
	}
	g.release(&c.sent)
	defer g.acquire(&c.recvd)
	if c.canSend() {
		g.doSend(c, copyVal(v))
		return
	}
	dead := false
	c.sendq = append(c.sendq, &waiter{g: g, c: c, send: true, v: copyVal(v), dead: &dead})
	g.selOk = true
	g.block(fmt.Sprintf("send on chan%d", c.id))
	if !g.selOk {
		g.m.goErr("send on closed channel")
	}
}

func (g *G) recv(cv V) (V, bool) {
	c, _ := cv.x.(*ChanV)
	g.yield()
	if c == nil {
		g.block("receive on nil channel")
	}
	g.release(&c.recvd)
	defer g.acquire(&c.sent)
	if c.canRecv() {
		return g.doRecv(c)
	}
	dead := false
	c.recvq = append(c.recvq, &waiter{g: g, c: c, dead: &dead})
	g.block(fmt.Sprintf("receive on chan%d", c.id))
	return g.selVal, g.selOk
}

func (g *G) closeChan(cv V) {
	c, _ := cv.x.(*ChanV)
	if c == nil {
		g.m.goErr("close of nil channel")
	}
	if c.closed {
		g.m.goErr("close of closed channel")
	}
	c.closed = true
	g.release(&c.sent)
	for {
		w := deqWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.fire(zero(c.et), false)
	}
	for {
		w := deqWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.fire(V{}, false)
	}
}

type selCase struct {
	c    *ChanV
	send bool
	v    V
}

func (g *G) selected(cases []selCase, i int) {
	if cases[i].send {
		g.acquire(&cases[i].c.recvd)
	} else {
		g.acquire(&cases[i].c.sent)
	}
}

// selectOp returns chosen index, received value, ok.
func (g *G) selectOp(cases []selCase, blocking bool) (int, V, bool) {
	m := g.m
	g.yield()
	var rdy []int
	for i, sc := range cases {
		if sc.c == nil {
			continue
		}
		if sc.send {
			g.release(&sc.c.sent)
		} else {
			g.release(&sc.c.recvd)
		}
		if sc.send && sc.c.canSend() || !sc.send && sc.c.canRecv() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 && m.schedOn && m.delays > 0 {
			// Go picks a ready case at random; any but the first is a deviation
			k = m.choose(len(rdy))
			if k > 0 {
				m.delays--
			}
		}
		i := rdy[k]
		defer g.selected(cases, i)
		if cases[i].send {
			g.doSend(cases[i].c, copyVal(cases[i].v))
			return i, V{}, false
		}
		v, ok := g.doRecv(cases[i].c)
		return i, v, ok
	}
	if !blocking {
		return -1, V{}, false
	}
	dead := false
	var names []string
	for i, sc := range cases {
		if sc.c == nil {
			continue
		}
		w := &waiter{g: g, c: sc.c, send: sc.send, idx: i, dead: &dead}
		if sc.send {
			w.v = copyVal(sc.v)
			sc.c.sendq = append(sc.c.sendq, w)
			names = append(names, fmt.Sprintf("send chan%d", sc.c.id))
		} else {
			sc.c.recvq = append(sc.c.recvq, w)
			names = append(names, fmt.Sprintf("recv chan%d", sc.c.id))
		}
	}
	g.selOk = true
	g.block("select{" + strings.Join(names, ",") + "}")
	i := g.selRes
	defer g.selected(cases, i)
	if cases[i].send && !g.selOk {
		m.goErr("send on closed channel")
	}
	return i, g.selVal, g.selOk
}

// ---- globals ----------------------------------------------------------------

func (m *Machine) global(i int, pkg *ssa.Package) *V {
	if m.pkgInit[pkg] != 2 {
		m.ensureInit(pkg)
	}
	return &m.globals[i]
}

func (m *Machine) ensureInit(pkg *ssa.Package) {
	switch m.pkgInit[pkg] {
	case 1, 2:
		return
	case 3:
		m.unsupported("global of package whose init failed: " + pkg.Pkg.Path())
	}
	m.pkgInit[pkg] = 1
	if m.P.skipInit[pkg.Pkg.Path()] {
		m.pkgInit[pkg] = 2
		return
	}
	fn := pkg.Func("init")
	if fn == nil {
		m.pkgInit[pkg] = 2
		return
	}
	m.initing++
	saveMerge := m.merging
	m.merging = 0
	saveSerial := m.serial
	m.serial = 0
	g := m.cur
	var saveTop *frame
	if g == nil {
		g = &G{m: m, name: "init"}
		m.cur = g
		defer func() { m.cur = nil }()
	}
	saveTop = g.top
	saveSp := g.sp
	steps := m.steps
	func() {
		defer func() {
			if r := recover(); r != nil {
				g.top = saveTop
				g.sp = saveSp
				m.pkgInit[pkg] = 3
				if pe, ok := r.(pathEnd); ok {
					m.note("init of " + pkg.Pkg.Path() + ": " + pe.msg)
				} else if gp, ok := r.(goPanic); ok {
					m.note("init of " + pkg.Pkg.Path() + " panicked: " + m.panicStr(gp.v))
				} else {
					panic(r)
				}
			}
		}()
		g.callFn(m.P.cfn(fn), nil, nil)
	}()
	m.initing--
	m.merging = saveMerge
	m.serial = saveSerial
	m.steps = steps
	if m.pkgInit[pkg] == 3 {
		// keep what was initialised; report use as unsupported only for this package
		m.unsupported("init of " + pkg.Pkg.Path() + " failed")
	}
	m.pkgInit[pkg] = 2
}

func (m *Machine) panicStr(v V) string {
	i, _ := v.x.(*Iface)
	if i == nil {
		return "nil"
	}
	if isString(i.t) {
		s := m.showStr(i.v)
		if i.t == m.P.rtErrType {
			return "runtime error: " + s
		}
		return s
	}
	// error / Stringer
	if fn := m.P.findMethod(i.t, "Error"); fn != nil {
		var out string
		func() {
			defer func() { recover() }()
			out = m.showStr(m.cur.callFn(m.P.cfn(fn), []V{i.v}, nil))
		}()
		return out
	}
	if w, s := intInfo(i.t); w != 0 && i.v.x == nil {
		if s {
			return fmt.Sprint(sext(i.v.n, w))
		}
		return fmt.Sprint(i.v.n)
	}
	return "(" + i.t.String() + ")"
}

var _ = atomic.AddInt64
var _ sync.Mutex

var debugModel = os.Getenv("GOSYM_CHECK") != ""
