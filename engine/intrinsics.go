package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"os"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn = func(g *G, args []V) V

var intrinsics = map[string]intrinsicFn{}

// packages all of whose functions do nothing and return zero values
var noopPkgs = map[string]bool{"log/slog": true, "log": true, "internal/godebug": true, "internal/testlog": true, "runtime/trace": true,
	"runtime/pprof": true, "internal/race": true, "internal/msan": true, "internal/asan": true, "log/slog/internal": true}

func ret(vs ...V) V { return V{x: &Agg{e: vs}} }

func (p *Program) intrinsic(fn *ssa.Function) intrinsicFn {
	name := fnName(fn)
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if fn.Pkg != nil {
		path := fn.Pkg.Pkg.Path()
		if noopPkgs[path] && fn.Name() != "init" && p.models[name] == nil {
			rt := fn.Signature.Results()
			return func(g *G, args []V) V { return zeroResult(rt) }
		}
		if fn.Pkg == p.harness {
			if f, ok := ndIntr[fn.Name()]; ok {
				return f
			}
		}
	}
	return nil
}

func mkErr(m *Machine, s V) V {
	v := V{x: &Agg{e: []V{s}}}
	return V{x: &Iface{t: ptrTo(m, "errors", "errorString"), v: V{x: &v}}}
}

// ptrTypes must be canonical enough for types.Identical; caching avoids garbage.
func ptrTo(m *Machine, pkg, name string) types.Type {
	k := "*" + pkg + "." + name
	if t, ok := m.P.byName.Load(k); ok {
		return t.(types.Type)
	}
	t, _ := m.P.byName.LoadOrStore(k, types.NewPointer(m.P.namedType(pkg, name)))
	return t.(types.Type)
}

func (g *G) writeTo(w V, s V) V {
	i, _ := w.x.(*Iface)
	if i == nil {
		g.m.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := g.m.P.findMethod(i.t, "Write")
	if fn == nil {
		g.m.unsupported("no Write on " + i.t.String())
	}
	return g.callFn(g.m.P.cfn(fn), []V{i.v, {x: append([]V(nil), strBytes(s)...)}}, nil)
}

func (m *Machine) globalByName(pkg, name string) *V {
	q := m.P.pkg(pkg)
	return m.global(m.P.globalIdx(q.Var(name)), q)
}

func (g *G) stdout() V {
	v := *g.m.globalByName("os", "Stdout")
	return V{x: &Iface{t: ptrTo(g.m, "os", "File"), v: v}}
}

func sl(v V) []V {
	s, _ := v.x.([]V)
	return s
}

func mustStr(m *Machine, v V) string {
	s, ok := concStr(v)
	if !ok {
		// pick the model's string and commit to it
		b := v.x.(*SymStr).b
		out := make([]byte, len(b))
		for i := range b {
			out[i] = byte(m.concV(b[i]).n)
		}
		return string(out)
	}
	return s
}

func (m *Machine) indexByte(b []V, c V) int {
	for i, x := range b {
		if m.branchV(m.eqByte(x, c)) {
			return i
		}
	}
	return -1
}

func vbytes(v V) []V {
	switch v.x.(type) {
	case string, *SymStr:
		return strBytes(v)
	}
	return sl(v)
}

func idxSub(m *Machine, s, sub []V) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if m.branchV(m.eqBytes(s[i:i+n], sub)) {
			return i
		}
	}
	return -1
}

func (m *Machine) eqBytes(a, b []V) V {
	if len(a) != len(b) {
		return V{}
	}
	r := V{n: 1}
	for i := range a {
		r = m.andV(r, m.eqByte(a[i], b[i]))
		if r.x == nil && r.n == 0 {
			return r
		}
	}
	return r
}

func (m *Machine) cmpBytes(a, b []V) V {
	for i := 0; i < len(a) && i < len(b); i++ {
		if m.branchV(m.eqByte(a[i], b[i])) {
			continue
		}
		if m.branchV(tV(m.tc.Ult(m.term(a[i], 8), m.term(b[i], 8)))) {
			return intV(-1)
		}
		return intV(1)
	}
	switch {
	case len(a) < len(b):
		return intV(-1)
	case len(a) > len(b):
		return intV(1)
	}
	return intV(0)
}

func concBytes(b []V) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, x := range b {
		if x.x != nil {
			return nil, false
		}
		r[i] = byte(x.n)
	}
	return r, true
}

// ---- locks ------------------------------------------------------------------

type lockState struct {
	w       bool
	readers int
	waitq   []*G
	count   int64
}

func (m *Machine) lock(p V) *lockState {
	k, _ := p.x.(*V)
	if k == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if s, ok := m.side[k]; ok {
		return s.(*lockState)
	}
	s := &lockState{}
	m.side[k] = s
	return s
}

func (m *Machine) wakeAll(s *lockState) {
	for _, g := range s.waitq {
		m.ready(g)
	}
	s.waitq = nil
}

func (g *G) waitFor(s *lockState, why string, cond func() bool) {
	for !cond() {
		s.waitq = append(s.waitq, g)
		g.block(why)
	}
}

func host1(f func(float64) float64) intrinsicFn {
	return func(g *G, a []V) V {
		if s, ok := a[0].x.(*SymF); ok {
			sf := s.f
			return V{x: &SymF{arg: s.arg, f: func(n uint64) float64 { return f(sf(n)) }}}
		}
		return f64V(f(a[0].f64()))
	}
}

func host2(f func(a, b float64) float64) intrinsicFn {
	return func(g *G, a []V) V { return f64V(f(g.m.concF(a[0]).f64(), g.m.concF(a[1]).f64())) }
}

func setPtr(m *Machine, p V, v V) {
	d, _ := p.x.(*V)
	if d == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.storeTo(d, v)
}

func deref(m *Machine, p V) V {
	d, _ := p.x.(*V)
	if d == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return *d
}

func fieldIdx(t types.Type, name string) int {
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (m *Machine) regexOf(p V) *rx {
	k, _ := p.x.(*V)
	if k == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if a, ok := k.x.(*Agg); ok && len(a.e) == 2 {
		if x, ok := a.e[1].x.(*rx); ok {
			return x
		}
	}
	m.unsupported("regexp without source")
	return nil
}

func (m *Machine) newRegex(x *rx) V {
	return V{x: &V{x: &Agg{e: []V{strV(x.src), {x: x}}}}}
}

func strSliceV(ss []V) V { return V{x: ss} }

func (m *Machine) isComparable(t types.Type) bool { return types.Comparable(t) }

func (g *G) errorsIs(err, target V) bool {
	m := g.m
	ti, _ := target.x.(*Iface)
	for {
		ei, _ := err.x.(*Iface)
		if ei == nil {
			return ti == nil
		}
		if ti == nil {
			return false
		}
		if sameType(ei.t, ti.t) && m.isComparable(ti.t) && m.branchV(m.eqV(ei.v, ti.v, ti.t)) {
			return true
		}
		if fn := m.P.findMethod(ei.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
			if m.branchV(g.callFn(m.P.cfn(fn), []V{ei.v, target}, nil)) {
				return true
			}
		}
		fn := m.P.findMethod(ei.t, "Unwrap")
		if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
			return false
		}
		r := g.callFn(m.P.cfn(fn), []V{ei.v}, nil)
		if s, ok := r.x.([]V); ok {
			for _, e := range s {
				if e.x != nil && g.errorsIs(e, target) {
					return true
				}
			}
			return false
		}
		if r.x == nil {
			return false
		}
		err = r
	}
}

func (g *G) errorsAs(err, target V) bool {
	m := g.m
	ti, _ := target.x.(*Iface)
	if ti == nil {
		m.rtPanic("errors: target cannot be nil")
	}
	pt, ok := under(ti.t).(*types.Pointer)
	if !ok || ti.v.x == nil {
		panic(goPanic{V{x: &Iface{t: types.Typ[types.String], v: strV("errors: target must be a non-nil pointer")}}})
	}
	tt := pt.Elem()
	for {
		ei, _ := err.x.(*Iface)
		if ei == nil {
			return false
		}
		if it, ok := under(tt).(*types.Interface); ok {
			if m.P.implements(ei.t, it) {
				setPtr(m, ti.v, err)
				return true
			}
		} else if sameType(ei.t, tt) {
			setPtr(m, ti.v, ei.v)
			return true
		}
		if fn := m.P.findMethod(ei.t, "As"); fn != nil && fn.Signature.Params().Len() == 1 {
			if m.branchV(g.callFn(m.P.cfn(fn), []V{ei.v, target}, nil)) {
				return true
			}
		}
		fn := m.P.findMethod(ei.t, "Unwrap")
		if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
			return false
		}
		r := g.callFn(m.P.cfn(fn), []V{ei.v}, nil)
		if s, ok := r.x.([]V); ok {
			for _, e := range s {
				if e.x != nil && g.errorsAs(e, target) {
					return true
				}
			}
			return false
		}
		err = r
	}
}

func atomicAdd(w uint8) intrinsicFn {
	return func(g *G, a []V) V {
		g.yield()
		g.ordered(a[0])
		p := a[0].x.(*V)
		n := tV(g.m.tc.Bin(OAdd, g.m.term(*p, w), g.m.term(a[1], w)))
		g.m.storeTo(p, n)
		return n
	}
}

func atomicLoad(g *G, a []V) V { g.yield(); g.acq(a[0]); return deref(g.m, a[0]) }
func atomicStore(g *G, a []V) V {
	g.yield()
	g.rel(a[0])
	setPtr(g.m, a[0], a[1])
	return V{}
}
func atomicSwap(g *G, a []V) V {
	g.yield()
	g.ordered(a[0])
	o := deref(g.m, a[0])
	setPtr(g.m, a[0], a[1])
	return o
}

func atomicCas(w uint8) intrinsicFn {
	return func(g *G, a []V) V {
		g.yield()
		g.acq(a[0])
		m := g.m
		o := deref(m, a[0])
		var eq V
		if w == 0 {
			eq = boolV(o.x == a[1].x && o.n == a[1].n)
		} else {
			eq = tV(m.tc.Eq(m.term(o, w), m.term(a[1], w)))
		}
		if m.branchV(eq) {
			g.rel(a[0])
			setPtr(m, a[0], a[2])
			return V{n: 1}
		}
		return V{}
	}
}

// sortSlice sorts with a less(i,j) closure by insertion, like the library does
// for short slices.
func (g *G) sortSlice(a []V) V {
	i, _ := a[0].x.(*Iface)
	if i == nil {
		return V{}
	}
	s := sl(i.v)
	for p := 1; p < len(s); p++ {
		for q := p; q > 0; q-- {
			if !g.m.branchV(g.callV(a[1], []V{intV(q), intV(q - 1)})) {
				break
			}
			x, y := copyVal(s[q]), copyVal(s[q-1])
			g.m.storeTo(&s[q], y)
			g.m.storeTo(&s[q-1], x)
		}
	}
	return V{}
}

func init() {
	intrinsics["syscall.Getrlimit"] = func(g *G, a []V) V { return V{} }
}

func init() {
	I := intrinsics
	noop := func(g *G, a []V) V { return V{} }
	ident := func(g *G, a []V) V { return a[0] }

	// --- bytealg
	ib := func(g *G, a []V) V { return intV(g.m.indexByte(vbytes(a[0]), a[1])) }
	I["internal/bytealg.IndexByte"] = ib
	I["internal/bytealg.IndexByteString"] = ib
	lib := func(g *G, a []V) V {
		b := vbytes(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if g.m.branchV(g.m.eqByte(b[i], a[1])) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	I["internal/bytealg.LastIndexByte"] = lib
	I["internal/bytealg.LastIndexByteString"] = lib
	idx := func(g *G, a []V) V { return intV(idxSub(g.m, vbytes(a[0]), vbytes(a[1]))) }
	I["internal/bytealg.Index"] = idx
	I["internal/bytealg.IndexString"] = idx
	I["strings.Index"] = idx
	I["bytes.Index"] = idx
	I["internal/stringslite.Index"] = idx
	cnt := func(g *G, a []V) V {
		n := 0
		for _, x := range vbytes(a[0]) {
			if g.m.branchV(g.m.eqByte(x, a[1])) {
				n++
			}
		}
		return intV(n)
	}
	I["internal/bytealg.Count"] = cnt
	I["internal/bytealg.CountString"] = cnt
	I["internal/bytealg.Equal"] = func(g *G, a []V) V { return g.m.eqBytes(vbytes(a[0]), vbytes(a[1])) }
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	cmp := func(g *G, a []V) V { return g.m.cmpBytes(vbytes(a[0]), vbytes(a[1])) }
	I["internal/bytealg.Compare"] = cmp
	I["internal/bytealg.CompareString"] = cmp
	I["bytes.Compare"] = cmp
	I["strings.Compare"] = cmp
	I["internal/bytealg.MakeNoZero"] = func(g *G, a []V) V { return V{x: make([]V, g.m.concInt(a[0]))} }
	I["internal/abi.NoEscape"] = ident
	I["internal/abi.Escape"] = ident
	I["runtime.memequal"] = nil
	delete(I, "runtime.memequal")
	I["strings.Clone"] = ident
	I["internal/stringslite.Clone"] = ident
	I["slices.overlaps"] = func(g *G, a []V) V {
		x, y := sl(a[0]), sl(a[1])
		for i := range x {
			if len(y) > 0 && (&x[i] == &y[0] || &x[i] == &y[len(y)-1]) {
				return V{n: 1}
			}
		}
		for i := range y {
			if len(x) > 0 && &y[i] == &x[0] {
				return V{n: 1}
			}
		}
		return V{}
	}
	I["maps.clone"] = func(g *G, a []V) V {
		i := a[0].x.(*Iface)
		o := i.v.x.(*MapV)
		if o == nil {
			return a[0]
		}
		n := g.m.newMap(o.kt)
		for _, e := range o.ents {
			if e.live {
				g.m.mapSet(n, e.k, copyVal(e.v))
			}
		}
		return V{x: &Iface{t: i.t, v: V{x: n}}}
	}

	// --- runtime
	I["runtime.GOMAXPROCS"] = func(g *G, a []V) V { return intV(g.m.procs) }
	I["runtime.NumCPU"] = func(g *G, a []V) V { return intV(g.m.procs) }
	I["runtime.NumGoroutine"] = func(g *G, a []V) V { return intV(1) }
	I["runtime.Gosched"] = func(g *G, a []V) V {
		if len(g.m.runq) > 0 {
			g.m.ready(g)
			g.block("gosched")
		}
		return V{}
	}
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "os.runtime_beforeExit", "time.initLocal",
		"sync.runtime_registerPoolCleanup", "runtime/debug.SetGCPercent", "os.checkPidfdOnce", "runtime.AddCleanup",
		"syscall.runtime_BeforeFork", "runtime.LockOSThread", "runtime.UnlockOSThread", "internal/runtime/maps.fatal",
		"flag.PrintDefaults", "runtime/debug.FreeOSMemory", "runtime.ReadMemStats", "sync.throw", "sync.fatal"} {
		I[n] = noop
	}
	I["runtime/debug.Stack"] = func(g *G, a []V) V { return V{} }
	I["os.runtime_args"] = func(g *G, a []V) V { return V{x: []V{strV("git-who")}} }
	I["syscall.runtime_envs"] = func(g *G, a []V) V { return V{} }
	I["runtime/debug.ReadBuildInfo"] = func(g *G, a []V) V { return ret(V{}, V{}) }
	I["runtime.Caller"] = func(g *G, a []V) V { return ret(V{}, strV(""), V{}, V{}) }
	I["runtime.Callers"] = func(g *G, a []V) V { return V{} }
	I["os.Exit"] = func(g *G, a []V) V {
		c := g.m.concInt(a[0])
		panic(pathEnd{"exit", strconv.Itoa(c)})
	}
	I["time.Sleep"] = I["runtime.Gosched"]
	I["time.Now"] = func(g *G, a []V) V {
		return g.callFn(g.m.P.fnByName("time.Unix"), []V{g.m.now, {}}, nil)
	}
	I["time.runtimeNano"] = func(g *G, a []V) V { return V{n: 1} }
	I["time.runtimeNow"] = func(g *G, a []V) V { return ret(g.m.now, V{}, V{n: 1}) }

	// --- sync
	I["(*sync.Mutex).Lock"] = func(g *G, a []V) V {
		g.yield()
		s := g.m.lock(a[0])
		g.waitFor(s, "mutex", func() bool { return !s.w && s.readers == 0 })
		g.acq(a[0])
		s.w = true
		return V{}
	}
	I["(*sync.Mutex).TryLock"] = func(g *G, a []V) V {
		g.yield()
		s := g.m.lock(a[0])
		if s.w {
			return V{}
		}
		g.acq(a[0])
		s.w = true
		return V{n: 1}
	}
	I["(*sync.Mutex).Unlock"] = func(g *G, a []V) V {
		s := g.m.lock(a[0])
		if !s.w {
			panic(pathEnd{"deadlock", "fatal error: sync: unlock of unlocked mutex"})
		}
		g.rel(a[0])
		s.w = false
		g.m.wakeAll(s)
		return V{}
	}
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).RLock"] = func(g *G, a []V) V {
		g.yield()
		s := g.m.lock(a[0])
		g.waitFor(s, "rlock", func() bool { return !s.w })
		g.acq(a[0])
		s.readers++
		return V{}
	}
	I["(*sync.RWMutex).RUnlock"] = func(g *G, a []V) V {
		s := g.m.lock(a[0])
		g.rel(a[0])
		s.readers--
		g.m.wakeAll(s)
		return V{}
	}
	I["(*sync.WaitGroup).Add"] = func(g *G, a []V) V {
		s := g.m.lock(a[0])
		if d := int64(g.m.concV(a[1]).n); d < 0 {
			g.rel(a[0])
		}
		s.count += int64(g.m.concV(a[1]).n)
		if s.count < 0 {
			g.m.goErr("sync: negative WaitGroup counter")
		}
		if s.count == 0 {
			g.m.wakeAll(s)
		}
		return V{}
	}
	I["(*sync.WaitGroup).Done"] = func(g *G, a []V) V {
		return I["(*sync.WaitGroup).Add"](g, []V{a[0], intV(-1)})
	}
	I["(*sync.WaitGroup).Wait"] = func(g *G, a []V) V {
		g.yield()
		s := g.m.lock(a[0])
		g.waitFor(s, "waitgroup", func() bool { return s.count == 0 })
		g.acq(a[0])
		return V{}
	}
	I["(*sync.WaitGroup).Go"] = func(g *G, a []V) V {
		s := g.m.lock(a[0])
		s.count++
		fv := a[1]
		g.m.spawn(V{x: &NativeFn{name: "wg.Go", f: func(g2 *G, _ []V) V {
			g2.callV(fv, nil)
			g2.rel(a[0])
			s.count--
			if s.count == 0 {
				g2.m.wakeAll(s)
			}
			return V{}
		}}}, nil, "wg.Go")
		return V{}
	}
	I["(*sync.Pool).Get"] = func(g *G, a []V) V {
		p := deref(g.m, a[0]).x.(*Agg)
		nf := p.e[fieldIdx(g.m.P.namedType("sync", "Pool"), "New")]
		if nf.x == nil {
			return V{}
		}
		return g.callV(nf, nil)
	}
	I["(*sync.Pool).Put"] = noop

	// --- atomics
	for _, n := range []string{"Int32", "Uint32"} {
		I["sync/atomic.Add"+n] = atomicAdd(32)
		I["sync/atomic.Load"+n] = atomicLoad
		I["sync/atomic.Store"+n] = atomicStore
		I["sync/atomic.Swap"+n] = atomicSwap
		I["sync/atomic.CompareAndSwap"+n] = atomicCas(32)
	}
	for _, n := range []string{"Int64", "Uint64", "Uintptr"} {
		I["sync/atomic.Add"+n] = atomicAdd(64)
		I["sync/atomic.Load"+n] = atomicLoad
		I["sync/atomic.Store"+n] = atomicStore
		I["sync/atomic.Swap"+n] = atomicSwap
		I["sync/atomic.CompareAndSwap"+n] = atomicCas(64)
	}
	I["sync/atomic.LoadPointer"] = atomicLoad
	I["sync/atomic.StorePointer"] = atomicStore
	I["sync/atomic.SwapPointer"] = atomicSwap
	I["sync/atomic.CompareAndSwapPointer"] = atomicCas(0)
	I["(*sync/atomic.Value).Load"] = func(g *G, a []V) V {
		g.yield()
		g.acq(a[0])
		if v, ok := deref(g.m, a[0]).x.(*Agg).e[0].x.(*Iface); ok {
			return V{x: v}
		}
		return V{}
	}
	I["(*sync/atomic.Value).Store"] = func(g *G, a []V) V {
		g.yield()
		g.rel(a[0])
		p := deref(g.m, a[0]).x.(*Agg)
		g.m.storeTo(&p.e[0], a[1])
		return V{}
	}
	I["(*sync/atomic.Value).Swap"] = func(g *G, a []V) V {
		g.ordered(a[0])
		p := deref(g.m, a[0]).x.(*Agg)
		o := p.e[0]
		g.m.storeTo(&p.e[0], a[1])
		return o
	}
	I["(*sync/atomic.Value).CompareAndSwap"] = func(g *G, a []V) V {
		g.ordered(a[0])
		p := deref(g.m, a[0]).x.(*Agg)
		o, _ := p.e[0].x.(*Iface)
		w, _ := a[1].x.(*Iface)
		if o == nil && w == nil || o != nil && w != nil && sameType(o.t, w.t) && g.m.branchV(g.m.eqV(o.v, w.v, o.t)) {
			g.m.storeTo(&p.e[0], a[2])
			return V{n: 1}
		}
		return V{}
	}

	// --- errors, fmt
	I["errors.Is"] = func(g *G, a []V) V { return boolV(g.errorsIs(a[0], a[1])) }
	I["errors.As"] = func(g *G, a []V) V { return boolV(g.errorsAs(a[0], a[1])) }
	I["errors.init"] = nil
	delete(I, "errors.init")
	I["fmt.Sprintf"] = func(g *G, a []V) V {
		s, _ := g.sprintf(mustStr(g.m, a[0]), sl(a[1]))
		return s
	}
	I["fmt.Sprint"] = func(g *G, a []V) V { return g.sprint(sl(a[0]), false) }
	I["fmt.Sprintln"] = func(g *G, a []V) V { return g.sprint(sl(a[0]), true) }
	I["fmt.Fprintf"] = func(g *G, a []V) V {
		s, _ := g.sprintf(mustStr(g.m, a[1]), sl(a[2]))
		return g.writeTo(a[0], s)
	}
	I["fmt.Fprint"] = func(g *G, a []V) V { return g.writeTo(a[0], g.sprint(sl(a[1]), false)) }
	I["fmt.Fprintln"] = func(g *G, a []V) V { return g.writeTo(a[0], g.sprint(sl(a[1]), true)) }
	I["fmt.Printf"] = func(g *G, a []V) V {
		s, _ := g.sprintf(mustStr(g.m, a[0]), sl(a[1]))
		return g.writeTo(g.stdout(), s)
	}
	I["fmt.Print"] = func(g *G, a []V) V { return g.writeTo(g.stdout(), g.sprint(sl(a[0]), false)) }
	I["fmt.Println"] = func(g *G, a []V) V { return g.writeTo(g.stdout(), g.sprint(sl(a[0]), true)) }
	I["fmt.Appendf"] = func(g *G, a []V) V {
		s, _ := g.sprintf(mustStr(g.m, a[1]), sl(a[2]))
		return V{x: append(append([]V(nil), sl(a[0])...), strBytes(s)...)}
	}
	I["fmt.Append"] = func(g *G, a []V) V {
		return V{x: append(append([]V(nil), sl(a[0])...), strBytes(g.sprint(sl(a[1]), false))...)}
	}
	I["fmt.Errorf"] = func(g *G, a []V) V {
		m := g.m
		s, wrapped := g.sprintf(mustStr(m, a[0]), sl(a[1]))
		switch len(wrapped) {
		case 0:
			return mkErr(m, s)
		case 1:
			v := V{x: &Agg{e: []V{s, wrapped[0]}}}
			return V{x: &Iface{t: ptrTo(m, "fmt", "wrapError"), v: V{x: &v}}}
		}
		var es []V
		for _, w := range wrapped {
			if w.x != nil {
				es = append(es, w)
			}
		}
		v := V{x: &Agg{e: []V{s, {x: es}}}}
		return V{x: &Iface{t: ptrTo(m, "fmt", "wrapErrors"), v: V{x: &v}}}
	}

	// --- strconv
	I["strconv.Itoa"] = func(g *G, a []V) V { return g.m.itoa(a[0], 64, true) }
	I["strconv.FormatInt"] = func(g *G, a []V) V {
		if b := g.m.concInt(a[1]); b != 10 {
			return strV(strconv.FormatInt(int64(g.m.concV(a[0]).n), b))
		}
		return g.m.itoa(a[0], 64, true)
	}
	I["strconv.FormatUint"] = func(g *G, a []V) V {
		if b := g.m.concInt(a[1]); b != 10 {
			return strV(strconv.FormatUint(g.m.concV(a[0]).n, b))
		}
		return g.m.itoa(a[0], 64, false)
	}
	I["strconv.AppendInt"] = func(g *G, a []V) V {
		return V{x: append(append([]V(nil), sl(a[0])...), strBytes(I["strconv.FormatInt"](g, a[1:]))...)}
	}
	I["strconv.FormatFloat"] = func(g *G, a []V) V {
		return strV(strconv.FormatFloat(g.m.concF(a[0]).f64(), byte(a[1].n), g.m.concInt(a[2]), g.m.concInt(a[3])))
	}
	I["strconv.Quote"] = func(g *G, a []V) V { return strV(strconv.Quote(mustStr(g.m, a[0]))) }
	I["strconv.ParseFloat"] = func(g *G, a []V) V {
		f, err := strconv.ParseFloat(mustStr(g.m, a[0]), g.m.concInt(a[1]))
		if err != nil {
			return ret(f64V(f), mkErr(g.m, strV(err.Error())))
		}
		return ret(f64V(f), V{})
	}

	// --- math
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt,
		"Log": math.Log, "Log10": math.Log10, "Log2": math.Log2, "Exp": math.Exp, "Round": math.Round, "RoundToEven": math.RoundToEven, "Abs": math.Abs, "Log1p": math.Log1p} {
		I["math."+n] = host1(f)
	}
	for n, f := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Max": math.Max, "Min": math.Min, "Mod": math.Mod} {
		I["math."+n] = host2(f)
	}
	I["math.Float64bits"] = func(g *G, a []V) V { return V{n: g.m.concF(a[0]).n} }
	I["math.Float64frombits"] = func(g *G, a []V) V { return V{n: g.m.concV(a[0]).n} }
	I["math.Float32bits"] = func(g *G, a []V) V { return V{n: uint64(math.Float32bits(float32(g.m.concF(a[0]).f64())))} }
	I["math.Float32frombits"] = func(g *G, a []V) V { return f64V(float64(math.Float32frombits(uint32(g.m.concV(a[0]).n)))) }
	I["math.IsNaN"] = func(g *G, a []V) V { return boolV(math.IsNaN(g.m.concF(a[0]).f64())) }
	I["math.Modf"] = func(g *G, a []V) V {
		i, f := math.Modf(g.m.concF(a[0]).f64())
		return ret(f64V(i), f64V(f))
	}
	I["math/bits.Mul64"] = func(g *G, a []V) V {
		if a[0].x == nil && a[1].x == nil {
			hi, lo := bits.Mul64(a[0].n, a[1].n)
			return ret(V{n: hi}, V{n: lo})
		}
		m := g.m
		x, y := m.term(a[0], 64), m.term(a[1], 64)
		if ubound(x) < 1<<32 && ubound(y) < 1<<32 {
			return ret(V{}, tV(m.tc.Bin(OMul, x, y)))
		}
		// schoolbook on 32-bit halves
		mk := func(v uint64) *Term { return m.tc.Const(v, 64) }
		lo32 := func(t *Term) *Term { return m.tc.Bin(OBAnd, t, mk(1<<32-1)) }
		hi32 := func(t *Term) *Term { return m.tc.Bin(OLshr, t, mk(32)) }
		mul := func(a, b *Term) *Term { return m.tc.Bin(OMul, a, b) }
		add := func(a, b *Term) *Term { return m.tc.Bin(OAdd, a, b) }
		x0, x1, y0, y1 := lo32(x), hi32(x), lo32(y), hi32(y)
		w0 := mul(x0, y0)
		t := add(mul(x1, y0), hi32(w0))
		w1 := add(lo32(t), mul(x0, y1))
		w2 := hi32(t)
		return ret(tV(add(add(mul(x1, y1), w2), hi32(w1))), tV(mul(x, y)))
	}

	// --- sort
	I["sort.Slice"] = func(g *G, a []V) V { return g.sortSlice(a) }
	I["sort.SliceStable"] = I["sort.Slice"]

	// --- regexp
	I["regexp.MustCompile"] = func(g *G, a []V) V {
		s := mustStr(g.m, a[0])
		x, err := newRx(s)
		if err != nil {
			panic(goPanic{V{x: &Iface{t: types.Typ[types.String], v: strV("regexp: Compile(" + strconv.Quote(s) + "): " + err.Error())}}})
		}
		return g.m.newRegex(x)
	}
	I["regexp.Compile"] = func(g *G, a []V) V {
		x, err := newRx(mustStr(g.m, a[0]))
		if err != nil {
			return ret(V{}, mkErr(g.m, strV(err.Error())))
		}
		return ret(g.m.newRegex(x), V{})
	}
	I["regexp.QuoteMeta"] = func(g *G, a []V) V { return strV(regexp.QuoteMeta(mustStr(g.m, a[0]))) }
	I["regexp.MatchString"] = func(g *G, a []V) V {
		x, err := newRx(mustStr(g.m, a[0]))
		if err != nil {
			return ret(V{}, mkErr(g.m, strV(err.Error())))
		}
		return ret(g.m.rxMatch(x, a[1]), V{})
	}
	R := func(n string, f func(g *G, x *rx, a []V) V) {
		I["(*regexp.Regexp)."+n] = func(g *G, a []V) V { return f(g, g.m.regexOf(a[0]), a[1:]) }
	}
	toS := func(v V) V {
		if s, ok := v.x.([]V); ok {
			return bytesToStr(append([]V(nil), s...))
		}
		if v.x == nil {
			return strV("")
		}
		return v
	}
	R("String", func(g *G, x *rx, a []V) V { return strV(x.src) })
	R("MatchString", func(g *G, x *rx, a []V) V { return g.m.rxMatch(x, a[0]) })
	R("Match", func(g *G, x *rx, a []V) V { return g.m.rxMatch(x, toS(a[0])) })
	R("NumSubexp", func(g *G, x *rx, a []V) V { return intV(x.re.NumSubexp()) })
	R("FindString", func(g *G, x *rx, a []V) V {
		if r := g.m.rxFind(x, a[0], 0); r != nil {
			return strSlice(a[0], r[0], r[1])
		}
		return strV("")
	})
	ints := func(r []int) V {
		var o []V
		for _, i := range r {
			o = append(o, intV(i))
		}
		return V{x: o}
	}
	R("FindStringIndex", func(g *G, x *rx, a []V) V {
		if r := g.m.rxFind(x, a[0], 0); r != nil {
			return ints(r[:2])
		}
		return V{}
	})
	R("FindStringSubmatchIndex", func(g *G, x *rx, a []V) V {
		if r := g.m.rxFind(x, a[0], 0); r != nil {
			return ints(r)
		}
		return V{}
	})
	subs := func(s V, r []int) V {
		var o []V
		for i := 0; i+1 < len(r); i += 2 {
			if r[i] < 0 {
				o = append(o, strV(""))
			} else {
				o = append(o, strSlice(s, r[i], r[i+1]))
			}
		}
		return V{x: o}
	}
	R("FindStringSubmatch", func(g *G, x *rx, a []V) V {
		if r := g.m.rxFind(x, a[0], 0); r != nil {
			return subs(a[0], r)
		}
		return V{}
	})
	R("FindAllString", func(g *G, x *rx, a []V) V {
		var o []V
		for _, r := range g.m.rxAll(x, a[0], g.m.concInt(a[1])) {
			o = append(o, strSlice(a[0], r[0], r[1]))
		}
		if o == nil {
			return V{}
		}
		return V{x: o}
	})
	R("FindAllStringSubmatch", func(g *G, x *rx, a []V) V {
		var o []V
		for _, r := range g.m.rxAll(x, a[0], g.m.concInt(a[1])) {
			o = append(o, subs(a[0], r))
		}
		if o == nil {
			return V{}
		}
		return V{x: o}
	})
	R("Split", func(g *G, x *rx, a []V) V {
		n := g.m.concInt(a[1])
		if n == 0 {
			return V{}
		}
		var o []V
		beg, end := 0, 0
		for _, r := range g.m.rxAll(x, a[0], n) {
			if n > 0 && len(o) == n-1 {
				break
			}
			end = r[0]
			if r[1] != 0 {
				o = append(o, strSlice(a[0], beg, end))
			}
			beg = r[1]
		}
		if end != strLen(a[0]) {
			o = append(o, strSlice(a[0], beg, strLen(a[0])))
		}
		return V{x: o}
	})
	R("ReplaceAllString", func(g *G, x *rx, a []V) V {
		tmpl := mustStr(g.m, a[1])
		if c, ok := concStr(a[0]); ok {
			return strV(x.re.ReplaceAllString(c, tmpl))
		}
		return g.m.rxReplace(x, a[0], func(r []int) V { return expandTmpl(g.m, x, tmpl, a[0], r) })
	})
	R("ReplaceAllLiteralString", func(g *G, x *rx, a []V) V {
		return g.m.rxReplace(x, a[0], func(r []int) V { return a[1] })
	})
	R("ReplaceAllStringFunc", func(g *G, x *rx, a []V) V {
		return g.m.rxReplace(x, a[0], func(r []int) V { return g.callV(a[1], []V{strSlice(a[0], r[0], r[1])}) })
	})
	R("SubexpNames", func(g *G, x *rx, a []V) V {
		var o []V
		for _, s := range x.re.SubexpNames() {
			o = append(o, strV(s))
		}
		return V{x: o}
	})
	R("SubexpIndex", func(g *G, x *rx, a []V) V { return intV(x.re.SubexpIndex(mustStr(g.m, a[0]))) })
}

func expandTmpl(m *Machine, x *rx, tmpl string, s V, r []int) V {
	// expand each capture through a placeholder
	out := strV("")
	for len(tmpl) > 0 {
		i := strings.IndexByte(tmpl, '$')
		if i < 0 || i+1 >= len(tmpl) {
			break
		}
		out = strConcat(out, strV(tmpl[:i]))
		tmpl = tmpl[i+1:]
		if tmpl[0] == '$' {
			out = strConcat(out, strV("$"))
			tmpl = tmpl[1:]
			continue
		}
		var name string
		if tmpl[0] == '{' {
			j := strings.IndexByte(tmpl, '}')
			if j < 0 {
				m.unsupported("regexp template")
			}
			name, tmpl = tmpl[1:j], tmpl[j+1:]
		} else {
			j := 0
			for j < len(tmpl) && (tmpl[j] == '_' || tmpl[j] >= '0' && tmpl[j] <= '9' || tmpl[j] >= 'a' && tmpl[j] <= 'z' || tmpl[j] >= 'A' && tmpl[j] <= 'Z') {
				j++
			}
			name, tmpl = tmpl[:j], tmpl[j:]
		}
		k, err := strconv.Atoi(name)
		if err != nil {
			k = x.re.SubexpIndex(name)
		}
		if k >= 0 && 2*k+1 < len(r) && r[2*k] >= 0 {
			out = strConcat(out, strSlice(s, r[2*k], r[2*k+1]))
		}
	}
	return strConcat(out, strV(tmpl))
}

var _ = bytes.Equal
var _ = fmt.Sprint
var _ = os.Args
