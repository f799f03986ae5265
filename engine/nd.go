package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"os"
	"strconv"
	"strings"
)

// ndIntr implements the nondeterminism API of the harness package.
var ndIntr = map[string]intrinsicFn{}

func (m *Machine) inputName(n string) string {
	k := m.inputNames[n]
	m.inputNames[n] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k+1)
	}
	return n
}

func (m *Machine) symInput(name string, lo, hi int64, w uint8) V {
	name = m.inputName(name)
	if hi < lo {
		panic(pathEnd{"assume", "empty range for " + name})
	}
	if hi == lo {
		m.inputs = append(m.inputs, inputRec{name: name, v: uint64(lo)})
		return V{n: uint64(lo) & mask(w)}
	}
	rng := uint64(hi - lo)
	vw := uint8(8)
	switch n := bits.Len64(rng); {
	case n > 32:
		vw = 64
	case n > 16:
		vw = 32
	case n > 8:
		vw = 16
	}
	t := m.newVar(fmt.Sprintf("%s|%d|%d", name, vw, rng), vw, rng)
	m.inputs = append(m.inputs, inputRec{name: name, t: t, lo: lo})
	r := m.tc.Resize(t, w, false)
	if lo != 0 {
		r = m.tc.Bin(OAdd, r, m.tc.Const(uint64(lo), w))
	}
	return tV(r)
}

// check decides an assertion on the current path.
func (m *Machine) check(cond V, msg string) {
	m.asserts++
	if cond.x == nil {
		m.assertsC++
		if cond.n == 0 {
			m.fail("assert", msg, m.model, m.where())
			panic(pathEnd{"violation", msg})
		}
		return
	}
	c := cond.x.(*Term)
	if v, ok := m.known3(c); ok {
		if !v {
			m.fail("assert", msg, m.model, m.where())
			panic(pathEnd{"violation", msg})
		}
		return
	}
	if m.pos < len(m.prefix) {
		// already decided when this prefix was first executed
		m.addPC(c)
		return
	}
	if m.tc.Eval(c, m.model) == 0 {
		m.fail("assert", msg, m.model, m.where())
		// continue on the other side if there is one
		r, mod := m.sol.Check(m.pc, c, m.model)
		if r != Sat {
			panic(pathEnd{"violation", msg})
		}
		m.model = mod
		m.addPC(c)
		return
	}
	r, mod := m.sol.Check(m.pc, m.tc.Not(c), m.model)
	switch r {
	case Sat:
		m.fail("assert", msg, mod, m.where())
	case Unknown:
		m.ex.incomplete("solver unknown on an assertion")
	}
	m.addPC(c)
}

func (m *Machine) evalObs() []string {
	var r []string
	for _, v := range m.obsV {
		r = append(r, m.showStr(v))
	}
	return r
}

// freshGlobals gives the repository's packages their state at process start.
// pctx is what a process has while another one runs.
type pctx struct {
	g       *G // where it was suspended
	catchG  *G
	runq    []*G
	side    map[any]any
	depth   int
	globals map[int]V
}

// switchProc suspends the current process at g and resumes another one.
func (m *Machine) switchProc(g *G, to int) {
	if to < 0 || to >= len(m.pcs) || to == m.pr {
		m.unsupported("no such process")
	}
	c := &m.pcs[m.pr]
	*c = pctx{g, m.catchG, m.runq, m.side, m.depth, map[int]V{}}
	for i, q := range m.P.globals {
		if m.P.isRepoPkg(q.Pkg.Pkg.Path()) {
			c.globals[i] = m.globals[i]
		}
	}
	m.pr = to
	c = &m.pcs[to]
	m.catchG, m.runq, m.side, m.depth = c.catchG, c.runq, c.side, c.depth
	for i, v := range c.globals {
		m.undo = append(m.undo, undoEnt{p: &m.globals[i], old: m.globals[i]})
		m.globals[i] = v
	}
	m.cur = c.g
	c.g.wake <- true
	g.park()
}

func (m *Machine) freshGlobals() {
	for _, q := range m.P.repoPkgs {
		if st := m.pkgInit[q]; st == 2 {
			m.logUndo(func() { m.pkgInit[q] = st })
			m.pkgInit[q] = 0
		}
	}
	for i, g := range m.P.globals {
		if m.P.isRepoPkg(g.Pkg.Pkg.Path()) {
			m.undo = append(m.undo, undoEnt{p: &m.globals[i], old: m.globals[i]})
			m.globals[i] = zero(g.Type().(*types.Pointer).Elem())
		}
	}
	for _, q := range m.P.repoPkgs {
		m.ensureInit(q)
	}
}

func init() {
	N := ndIntr
	N["ndInt"] = func(g *G, a []V) V {
		return g.m.symInput(mustStr(g.m, a[0]), int64(g.m.concV(a[1]).n), int64(g.m.concV(a[2]).n), 64)
	}
	N["ndByte"] = func(g *G, a []V) V {
		return g.m.symInput(mustStr(g.m, a[0]), int64(g.m.concV(a[1]).n), int64(g.m.concV(a[2]).n), 8)
	}
	N["ndBool"] = func(g *G, a []V) V {
		v := g.m.symInput(mustStr(g.m, a[0]), 0, 1, 8)
		return tV(g.m.tc.Eq(g.m.term(v, 8), g.m.tc.Const(1, 8)))
	}
	N["ndChoice"] = func(g *G, a []V) V {
		m := g.m
		name := m.inputName(mustStr(m, a[0]))
		k := 0
		if v, ok := fixedChoice[name]; ok {
			k = v
		} else {
			k = m.choose(g.m.concInt(a[1]))
		}
		m.inputs = append(m.inputs, inputRec{name: name, v: uint64(k)})
		return intV(k)
	}
	N["ndConc"] = func(g *G, a []V) V { return g.m.concV(a[0]) }
	N["ndConcStr"] = func(g *G, a []V) V { return strV(mustStr(g.m, a[0])) }
	N["ndAssume"] = func(g *G, a []V) V { g.m.assume(a[0]); return V{} }
	N["ndAssert"] = func(g *G, a []V) V {
		g.m.check(a[0], g.m.showStr(a[1]))
		return V{}
	}
	N["ndReach"] = func(g *G, a []V) V { g.m.reached[mustStr(g.m, a[0])] = true; return V{} }
	N["ndDeep"] = func(g *G, a []V) V { return boolV(g.m.ex.tier == "thorough") }
	N["ndNative"] = func(g *G, a []V) V { return V{} }
	N["ndMapOrder"] = func(g *G, a []V) V {
		g.m.permMaps = g.m.concInt(a[0])
		g.m.mapDev = g.m.concInt(a[1])
		g.m.mapRev = a[2].n != 0
		return V{}
	}
	N["ndSchedule"] = func(g *G, a []V) V {
		g.m.delays = g.m.concInt(a[0])
		g.m.schedOn = g.m.delays > 0
		if g.m.schedOn {
			g.m.schedUsed = true
		}
		return V{}
	}
	N["ndProcs"] = func(g *G, a []V) V { g.m.procs = g.m.concInt(a[0]); return V{} }
	N["ndNow"] = func(g *G, a []V) V { g.m.now = a[0]; return V{} }
	N["ndSteps"] = func(g *G, a []V) V { g.m.maxStep = g.m.steps + int64(g.m.concV(a[0]).n); return V{} }
	N["ndStalls"] = func(g *G, a []V) V { g.m.stalls = a[0].n != 0; return V{} }
	N["ndYield"] = func(g *G, a []V) V { g.yield(); return V{} }
	N["ndRaces"] = func(g *G, a []V) V { g.m.raceStart(a[0].n != 0); return V{} }
	N["ndModelOnly"] = func(g *G, a []V) V { g.m.schedUsed = true; return V{} }
	N["ndKnown"] = func(g *G, a []V) V { g.m.curKnown = mustStr(g.m, a[0]); return V{} }
	N["ndObserve"] = func(g *G, a []V) V { g.m.obsV = append(g.m.obsV, a[0]); return V{} }
	N["ndTrace"] = func(g *G, a []V) V {
		if len(g.m.trace) < 200 {
			g.m.trace = append(g.m.trace, g.m.showStr(a[0]))
		}
		return V{}
	}
	N["ndEncode"] = func(g *G, a []V) V {
		i, _ := a[0].x.(*Iface)
		if i == nil {
			return V{}
		}
		return V{x: g.m.encode(i.v, i.t, nil)}
	}
	// ndJSON switches between the rules of encoding/gob and encoding/json
	N["ndJSON"] = func(g *G, a []V) V { g.m.json = a[0].n != 0; return V{} }
	// ndDecode(data, ptr) (rest int, err string)
	N["ndDecode"] = func(g *G, a []V) V {
		m := g.m
		i, _ := a[1].x.(*Iface)
		if i == nil {
			return ret(V{}, strV("nil target"))
		}
		pt, ok := under(i.t).(*types.Pointer)
		if !ok || i.v.x == nil {
			return ret(V{}, strV("target is not a pointer"))
		}
		d := &decoder{m: m, b: sl(a[0])}
		v := d.over(pt.Elem(), deref(m, i.v), false)
		if d.err == "" {
			setPtr(m, i.v, v)
		}
		return ret(intV(len(d.b)), strV(d.err))
	}
	N["ndTypeName"] = func(g *G, a []V) V {
		i, _ := a[0].x.(*Iface)
		if i == nil {
			return strV("nil")
		}
		return strV(i.t.String())
	}
	N["ndTZData"] = func(g *G, a []V) V {
		b, err := os.ReadFile("/usr/share/zoneinfo/" + mustStr(g.m, a[0]))
		if err != nil {
			g.m.unsupported("no zone data")
		}
		return V{x: strBytes(strV(string(b)))}
	}
	// ndSpawn(f) int: a process that runs f, suspended
	N["ndSpawn"] = func(g *G, a []V) V {
		m := g.m
		if m.pcs == nil {
			m.pcs = make([]pctx, 1)
		}
		id := len(m.pcs)
		runq := m.runq
		cur := m.pr
		m.pr = id
		m.spawn(a[0], nil, "process "+strconv.Itoa(id))
		m.pr = cur
		m.runq = runq
		m.pcs = append(m.pcs, pctx{g: m.gs[len(m.gs)-1], side: map[any]any{}})
		return intV(id)
	}
	// ndSwitch(to): resumes process to, until it switches back
	N["ndSwitch"] = func(g *G, a []V) V {
		g.m.switchProc(g, int(g.m.concV(a[0]).n))
		return V{}
	}
	// ndCatch(f) (kind, code int, msg string): 0 returned, 1 exited, 2 panicked
	N["ndCatch"] = func(g *G, a []V) V {
		m := g.m
		top, sp, stack, depth, df := g.top, g.sp, g.stack, m.depth, g.defFrame
		var kind, code int
		var msg V = strV("")
		before := len(m.gs)
		m.catchG = g
		m.freshGlobals()
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				switch x := r.(type) {
				case pathEnd:
					if x.kind != "exit" {
						panic(r)
					}
					kind = 1
					code, _ = strconv.Atoi(x.msg)
				case goPanic:
					kind, code = 2, 2
					g.top, g.sp, g.stack, m.depth, g.defFrame = top, sp, stack, depth, df
					msg = strV(m.panicStr(x.v))
					if len(m.trace) < 200 && m.panicAt != "" {
						m.trace = append(m.trace, m.panicAt)
					}
				default:
					panic(r)
				}
				g.top, g.sp, g.stack, m.depth, g.defFrame = top, sp, stack, depth, df
			}()
			g.callV(a[0], nil)
		}()
		// the process is gone: so are its goroutines
		for _, x := range m.gs[before:] {
			if x.pr == g.pr {
				x.kill()
				x.done = true
			}
		}
		m.runq = nil
		m.catchG = nil
		clear(m.side)
		return ret(intV(kind), intV(code), msg)
	}
}

// fixedChoice (GOSYM_FIX=name=value,...) pins choices while debugging.
var fixedChoice = func() map[string]int {
	r := map[string]int{}
	for _, kv := range strings.Split(os.Getenv("GOSYM_FIX"), ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			r[k], _ = strconv.Atoi(v)
		}
	}
	return r
}()
