package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled functions -----------------------------------------------------

type opnd struct {
	idx int32 // register, or -1 const, -2 global
	v   V
	gi  int
	pkg *ssa.Package
	t   types.Type
}

type inst func(f *frame)

type move struct {
	dst int32
	src opnd
	t   types.Type
}

type edge struct {
	to    int
	moves []move
}

type termKind uint8

const (
	tJump termKind = iota
	tIf
	tReturn
	tPanic
	tNone
)

type cblock struct {
	ins    []inst
	src    []ssa.Instruction
	kind   termKind
	cond   opnd
	e0, e1 edge
	ret    []opnd
	retT   types.Type
	pure   bool // all instructions are pure
	npred  int
	region *region
	term   ssa.Instruction
}

// region: the blocks between a branch and its join can be evaluated on both sides and merged.
type region struct {
	join int // block index, or -1 = function return
}

type cfn struct {
	fn       *ssa.Function
	name     string
	once     sync.Once
	nregs    int
	nparams  int
	blocks   []cblock
	hasDefer bool
	intr     func(g *G, args []V) V
	fast     func(args []V) (V, bool)
	fastM    func(m *Machine, args []V) (V, bool)
	model    *cfn
	inRepo   bool
	raceLib  bool // its accesses to memory count for races
	inMaps   bool // in the standard library's package maps
	pureOnce sync.Once
	pureFn   bool
	pureBusy bool
	compiled atomic.Bool
	resT     types.Type
	noBody   bool
}

type frame struct {
	r        []V
	fn       *cfn
	g        *G
	m        *Machine
	caller   *frame
	curInstr ssa.Instruction
	blk, idx int
	defers   *dfr
	dstack   **dfr
	panicV   any // active host panic value being handled
	panicing bool
	recoverd bool
	result   V
	defOwner *frame // for frames running deferred calls: the panicking frame
}

type dfr struct {
	fn    V
	args  []V
	inv   *ssa.CallCommon
	next  *dfr
	instr ssa.Instruction
}

// maxUndo limits what a path may write: one that goes round in circles would
// otherwise run out of memory before it runs out of steps.
const maxUndo = 6_000_000

func (f *frame) get(o *opnd) V {
	if o.idx >= 0 {
		return f.r[o.idx]
	}
	if o.idx == -1 {
		return o.v
	}
	return V{x: f.m.global(o.gi, o.pkg)}
}

// callV calls a function value.
func (g *G) callV(fv V, args []V) V {
	switch c := fv.x.(type) {
	case *Closure:
		return g.callFn(c.fn, args, c.env)
	case *NativeFn:
		return c.f(g, args)
	case nil:
		g.m.rtPanic("invalid memory address or nil pointer dereference")
	}
	g.m.unsupported(fmt.Sprintf("call of %T", fv.x))
	return V{}
}

const maxDepth = 4000

func (g *G) callFn(c *cfn, args []V, env []V) V {
	m := g.m
	c.once.Do(func() { m.P.compile(c) })
	if c.intr != nil {
		return c.intr(g, args)
	}
	if c.fast != nil {
		if r, ok := c.fast(args); ok {
			return r
		}
	}
	if c.fastM != nil {
		if r, ok := c.fastM(m, args); ok {
			return r
		}
	}
	if c.model != nil {
		return g.callFn(c.model, args, env)
	}
	if c.noBody {
		m.unsupported("no body for " + c.name)
	}
	if !m.fnSeen[c] {
		m.fnSeen[c] = true
	}
	if m.depth > maxDepth {
		panic(pathEnd{"steps", "call depth limit in " + c.name})
	}
	need := c.nregs
	if g.sp+need > len(g.stack) {
		n := 8192
		if need > n {
			n = need
		}
		// start a new segment; old one stays referenced by outer frames
		old, osp := g.stack, g.sp
		if n == 8192 && len(m.segs) > 0 {
			g.stack, g.sp = m.segs[len(m.segs)-1], 0
			m.segs = m.segs[:len(m.segs)-1]
		} else {
			g.stack, g.sp = make([]V, n), 0
		}
		defer func() {
			if n == 8192 && !m.dead {
				m.segs = append(m.segs, g.stack)
			}
			g.stack, g.sp = old, osp
		}()
	}
	base := g.sp
	idx := 0
	if g.top != nil {
		idx = g.top.idx + 1
	}
	if idx >= len(g.frames) {
		n := make([]*frame, idx+16)
		copy(n, g.frames)
		blk := make([]frame, len(n)-len(g.frames))
		for i := range blk {
			n[len(g.frames)+i] = &blk[i]
		}
		g.frames = n
	}
	f := g.frames[idx]
	*f = frame{r: g.stack[base : base+need : base+need], fn: c, g: g, m: m, caller: g.top, idx: idx}
	g.sp += need
	copy(f.r, args)
	copy(f.r[len(args):], env)
	g.top = f
	m.depth++
	if c.hasDefer {
		f.dstack = &f.defers
		f.runDefer()
	} else {
		f.run()
	}
	m.depth--
	g.top = f.caller
	g.sp = base
	return f.result
}

// runDefer executes a frame that may have deferred calls.
func (f *frame) runDefer() {
	g := f.g
	sp, depth := g.sp, f.m.depth
	stack := g.stack
	normal := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, isGo := r.(goPanic); isGo {
					f.panicing = true
					f.panicV = r
					ok = false
					return
				}
				panic(r)
			}
		}()
		f.run()
		return true
	}()
	if normal {
		return
	}
	g.sp, g.top, g.stack, f.m.depth = sp, f, stack, depth
	f.runDefers()
	if f.panicing {
		p := f.panicV
		panic(p)
	}
	// recovered: run the recover block, or return zero results
	if f.fn.fn.Recover != nil {
		f.blk = f.fn.fn.Recover.Index
		f.run()
	} else {
		f.result = zeroResult(f.fn.resT)
	}
}

func zeroResult(t types.Type) V {
	tt := t.(*types.Tuple)
	switch tt.Len() {
	case 0:
		return V{}
	case 1:
		return zero(tt.At(0).Type())
	}
	return zero(tt)
}

func (f *frame) runDefers() {
	for f.defers != nil {
		d := f.defers
		f.defers = d.next
		f.runOneDefer(d)
	}
}

func (f *frame) runOneDefer(d *dfr) {
	g := f.g
	sp, depth, stack := g.sp, f.m.depth, g.stack
	save := g.defFrame
	func() {
		defer func() {
			g.defFrame = save
			if r := recover(); r != nil {
				if _, isGo := r.(goPanic); isGo {
					// a panic in a deferred call replaces the current one
					g.sp, g.top, g.stack, f.m.depth = sp, f, stack, depth
					f.panicing = true
					f.panicV = r
					return
				}
				panic(r)
			}
		}()
		g.defFrame = f
		g.callV(d.fn, d.args)
	}()
}

// run interprets blocks until return.
func (f *frame) run() {
	m := f.m
	blocks := f.fn.blocks
	if fnProf {
		fnProfMu.Lock()
		fnCalls[f.fn]++
		fnProfMu.Unlock()
	}
	for {
		b := &blocks[f.blk]
		if fnProf {
			fnProfMu.Lock()
			fnSteps[f.fn] += int64(len(b.ins) + 1)
			fnProfMu.Unlock()
		}
		m.steps++
		if m.steps > m.maxStep || m.steps&0xfff == 0 && len(m.undo) > maxUndo {
			panic(pathEnd{"steps", "step limit in " + f.fn.name})
		}
		for i, in := range b.ins {
			f.curInstr = b.src[i]
			in(f)
		}
		f.curInstr = b.term
		var e *edge
		switch b.kind {
		case tJump:
			e = &b.e0
		case tIf:
			c := f.get(&b.cond)
			if c.x == nil {
				if c.n != 0 {
					e = &b.e0
				} else {
					e = &b.e1
				}
				break
			}
			t := c.x.(*Term)
			if v, ok := m.known3(t); ok {
				if v {
					e = &b.e0
				} else {
					e = &b.e1
				}
				break
			}
			if b.region != nil {
				if done, ret := f.tryMerge(b, t); done {
					if ret {
						return
					}
					continue
				}
			}
			if m.branch(t) {
				e = &b.e0
			} else {
				e = &b.e1
			}
		case tReturn:
			switch len(b.ret) {
			case 0:
				f.result = V{}
			case 1:
				f.result = f.get(&b.ret[0])
			default:
				a := newAgg(len(b.ret))
				for i := range b.ret {
					a.e[i] = f.get(&b.ret[i])
				}
				f.result = V{x: a}
			}
			return
		case tPanic:
			v := f.get(&b.cond)
			if v.x == nil {
				m.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(goPanic{v})
		default:
			m.unsupported("block without terminator")
		}
		f.takeEdge(e)
	}
}

func (f *frame) takeEdge(e *edge) {
	switch len(e.moves) {
	case 0:
	case 1:
		f.r[e.moves[0].dst] = f.get(&e.moves[0].src)
	default:
		var buf [8]V
		tmp := buf[:0]
		for i := range e.moves {
			tmp = append(tmp, f.get(&e.moves[i].src))
		}
		for i := range e.moves {
			f.r[e.moves[i].dst] = tmp[i]
		}
	}
	f.blk = e.to
}

// tryMerge evaluates both sides of a branch and merges at the join.
func (f *frame) tryMerge(b *cblock, c *Term) (done, ret bool) {
	m := f.m
	g := f.g
	sp, depth, stack := g.sp, m.depth, g.stack
	undoLen := len(m.undo)
	steps := m.steps
	m.merging++
	defer func() {
		m.merging--
		if r := recover(); r != nil {
			switch r.(type) {
			case mergeAbort, goPanic:
				g.sp, g.top, g.stack, m.depth = sp, f, stack, depth
				m.steps = steps
				for i := len(m.undo) - 1; i >= undoLen; i-- {
					u := &m.undo[i]
					if u.f != nil {
						u.f()
					} else {
						*u.p = u.old
					}
				}
				m.undo = m.undo[:undoLen]
				f.curInstr = b.term
				done = false
				return
			}
			panic(r)
		}
	}()
	budget := 64
	join := b.region.join
	v1, ok := f.evalEdge(&b.e0, join, &budget)
	if !ok {
		return false, false
	}
	v2, ok := f.evalEdge(&b.e1, join, &budget)
	if !ok {
		return false, false
	}
	mv, ok := f.mergeVec(c, v1, v2)
	if !ok {
		return false, false
	}
	m.merges++
	if join < 0 {
		f.result = mv.vals[0]
		return true, true
	}
	for i := range mv.dst {
		f.r[mv.dst[i]] = mv.vals[i]
	}
	f.blk = join
	return true, false
}

type phiVec struct {
	dst  []int32
	vals []V
	t    []types.Type
}

func (f *frame) mergeVec(c *Term, a, b *phiVec) (*phiVec, bool) {
	out := &phiVec{dst: a.dst, t: a.t}
	for i := range a.vals {
		v, ok := f.m.iteT(c, a.vals[i], b.vals[i], a.t[i])
		if !ok {
			return nil, false
		}
		out.vals = append(out.vals, v)
	}
	return out, true
}

func (f *frame) evalEdge(e *edge, join int, budget *int) (*phiVec, bool) {
	m := f.m
	for {
		*budget--
		if *budget < 0 {
			return nil, false
		}
		if e.to == join {
			pv := &phiVec{}
			for i := range e.moves {
				pv.dst = append(pv.dst, e.moves[i].dst)
				pv.vals = append(pv.vals, f.get(&e.moves[i].src))
				pv.t = append(pv.t, e.moves[i].t)
			}
			return pv, true
		}
		f.takeEdge(e)
		b := &f.fn.blocks[e.to]
		m.steps++
		for i, in := range b.ins {
			f.curInstr = b.src[i]
			in(f)
		}
		switch b.kind {
		case tJump:
			e = &b.e0
		case tIf:
			c := f.get(&b.cond)
			if c.x == nil {
				if c.n != 0 {
					e = &b.e0
				} else {
					e = &b.e1
				}
				continue
			}
			t := c.x.(*Term)
			if v, ok := m.known3(t); ok {
				if v {
					e = &b.e0
				} else {
					e = &b.e1
				}
				continue
			}
			v1, ok := f.evalEdge(&b.e0, join, budget)
			if !ok {
				return nil, false
			}
			v2, ok := f.evalEdge(&b.e1, join, budget)
			if !ok {
				return nil, false
			}
			return f.mergeVec(t, v1, v2)
		case tReturn:
			var r V
			switch len(b.ret) {
			case 0:
			case 1:
				r = f.get(&b.ret[0])
			default:
				a := newAgg(len(b.ret))
				for i := range b.ret {
					a.e[i] = f.get(&b.ret[i])
				}
				r = V{x: a}
			}
			if len(b.ret) == 0 {
				return &phiVec{}, true
			}
			return &phiVec{dst: []int32{0}, vals: []V{r}, t: []types.Type{b.retT}}, true
		default:
			return nil, false
		}
	}
}

// ---- compilation ------------------------------------------------------------

func (p *Program) cfn(fn *ssa.Function) *cfn {
	if c, ok := p.fns.Load(fn); ok {
		return c.(*cfn)
	}
	c, _ := p.fns.LoadOrStore(fn, &cfn{fn: fn, name: fn.String()})
	return c.(*cfn)
}

type compiler struct {
	p    *Program
	c    *cfn
	regs map[ssa.Value]int32
	n    int32
	err  string
}

func (p *Program) compile(c *cfn) {
	fn := c.fn
	c.resT = fn.Signature.Results()
	top := fn
	for top.Parent() != nil {
		top = top.Parent()
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if o := top.Origin(); o != nil && o.Pkg != nil {
		path = o.Pkg.Pkg.Path()
	}
	c.inRepo, c.inMaps, c.raceLib = p.isRepoPkg(path), path == "maps", racePkgs[path]
	if in := p.intrinsic(fn); in != nil {
		c.intr = in
		return
	}
	c.fast = fastFns[fnName(fn)]
	c.fastM = fastM[fnName(fn)]
	if md := p.modelFor(fn); md != nil && md != fn {
		c.model = p.cfn(md)
		return
	}
	if len(fn.Blocks) == 0 {
		c.noBody = true
		return
	}
	k := &compiler{p: p, c: c, regs: map[ssa.Value]int32{}}
	for _, prm := range fn.Params {
		k.reg(prm)
	}
	for _, fv := range fn.FreeVars {
		k.reg(fv)
	}
	c.nparams = len(fn.Params)
	c.blocks = make([]cblock, len(fn.Blocks))
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				k.reg(v)
			}
			switch in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				c.hasDefer = true
			}
		}
	}
	for i, b := range fn.Blocks {
		k.block(b, &c.blocks[i])
	}
	c.nregs = int(k.n)
	k.regions()
	c.compiled.Store(true)
}

func (k *compiler) reg(v ssa.Value) int32 {
	if r, ok := k.regs[v]; ok {
		return r
	}
	r := k.n
	k.n++
	k.regs[v] = r
	return r
}

func (k *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{idx: -1, v: k.p.constV(x), t: x.Type()}
	case *ssa.Global:
		gi := k.p.globalIdx(x)
		return opnd{idx: -2, gi: gi, pkg: x.Pkg, t: x.Type()}
	case *ssa.Function:
		return opnd{idx: -1, v: V{x: &Closure{fn: k.p.cfn(x)}}, t: x.Type()}
	case *ssa.Builtin:
		return opnd{idx: -1, t: x.Type()}
	}
	r, ok := k.regs[v]
	if !ok {
		panic("no register for " + v.Name() + " in " + k.c.name)
	}
	return opnd{idx: r, t: v.Type()}
}

func (p *Program) constV(x *ssa.Const) V {
	if x.Value == nil {
		return zero(x.Type())
	}
	t := under(x.Type())
	b, ok := t.(*types.Basic)
	if !ok {
		return zero(x.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return boolV(constant.BoolVal(x.Value))
	case b.Info()&types.IsString != 0:
		if x.Value.Kind() == constant.String {
			return strV(constant.StringVal(x.Value))
		}
		return strV(string(rune(x.Int64())))
	case b.Info()&types.IsInteger != 0:
		w, signed := intInfo(x.Type())
		if signed {
			return V{n: uint64(x.Int64()) & mask(w)}
		}
		return V{n: x.Uint64() & mask(w)}
	case b.Info()&types.IsFloat != 0:
		f := x.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f64V(f)
	}
	return V{}
}

func (k *compiler) edge(from, to *ssa.BasicBlock, nth int) edge {
	e := edge{to: to.Index}
	// predecessor index; the nth occurrence when both successors are the same block
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			if nth == 0 {
				break
			}
			nth--
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, move{dst: k.regs[phi], src: k.op(phi.Edges[pi]), t: phi.Type()})
	}
	return e
}

func (k *compiler) block(b *ssa.BasicBlock, cb *cblock) {
	cb.pure = true
	cb.npred = len(b.Preds)
	cb.kind = tNone
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			cb.kind = tJump
			cb.e0 = k.edge(b, b.Succs[0], 0)
			cb.term = in
			continue
		case *ssa.If:
			cb.kind = tIf
			cb.cond = k.op(x.Cond)
			cb.e0 = k.edge(b, b.Succs[0], 0)
			nth := 0
			if b.Succs[0] == b.Succs[1] {
				nth = 1
			}
			cb.e1 = k.edge(b, b.Succs[1], nth)
			cb.term = in
			continue
		case *ssa.Return:
			cb.kind = tReturn
			cb.term = in
			for _, r := range x.Results {
				cb.ret = append(cb.ret, k.op(r))
			}
			rt := k.c.fn.Signature.Results()
			if rt.Len() == 1 {
				cb.retT = rt.At(0).Type()
			} else {
				cb.retT = rt
			}
			continue
		case *ssa.Panic:
			cb.kind = tPanic
			cb.term = in
			cb.cond = k.op(x.X)
			cb.pure = false
			continue
		}
		if !k.pureInstr(in) {
			cb.pure = false
		}
		cb.ins = append(cb.ins, k.raced(in, k.instr(in)))
		cb.src = append(cb.src, in)
	}
}

func rootAlloc(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := under(x.X.Type()).(*types.Pointer); !ok {
				return false
			}
			v = x.X
		default:
			return false
		}
	}
}

func (k *compiler) pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Extract, *ssa.Field, *ssa.FieldAddr,
		*ssa.Index, *ssa.IndexAddr, *ssa.Slice, *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeClosure:
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Lookup:
		return isString(x.X.Type())
	case *ssa.TypeAssert:
		return true
	case *ssa.Store:
		return rootAlloc(x.Addr)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len", "cap", "min", "max", "ssa:wrapnilchk":
				return true
			}
			return false
		}
		if fn := x.Call.StaticCallee(); fn != nil {
			return k.p.isPure(fn, 0)
		}
	}
	return false
}

var pureNames = map[string]bool{
	"math/bits.Mul64": true, "math/bits.Mul32": true, "math/bits.Add64": true, "math/bits.Sub64": true,
	"math/bits.Len64": true, "math/bits.LeadingZeros64": true,
}

// isPure: acyclic body, no effects beyond its own locals.
func (p *Program) isPure(fn *ssa.Function, depth int) bool {
	if v, ok := p.pure.Load(fn); ok {
		return v.(bool)
	}
	if depth > 6 {
		return false
	}
	if p.intrinsic(fn) != nil {
		return pureNames[fn.String()]
	}
	if p.modelFor(fn) != nil || len(fn.Blocks) == 0 || len(fn.Blocks) > 40 {
		return false
	}
	k := &compiler{p: p}
	ok := true
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				ok = false
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Panic:
			case *ssa.Call:
				if bi, isB := x.Call.Value.(*ssa.Builtin); isB {
					if n := bi.Name(); n != "len" && n != "cap" && n != "min" && n != "max" && n != "ssa:wrapnilchk" {
						ok = false
					}
				} else if cal := x.Call.StaticCallee(); cal == nil || cal == fn || !p.isPure(cal, depth+1) {
					ok = false
				}
			default:
				if !k.pureInstr(in) {
					ok = false
				}
			}
			if !ok {
				break
			}
		}
		if !ok {
			break
		}
	}
	if depth == 0 {
		p.pure.Store(fn, ok)
	}
	return ok
}

// regions finds, for each If, whether both sides can be evaluated without
// effects up to a common join block or the function's return.
func (k *compiler) regions() {
	if k.c.hasDefer {
		return
	}
	fn := k.c.fn
	for i, b := range fn.Blocks {
		cb := &k.c.blocks[i]
		if cb.kind != tIf {
			continue
		}
		if j, ok := k.findJoin(b); ok {
			cb.region = &region{join: j}
		}
	}
}

// findJoin looks for the nearest block J such that every path from b reaches J
// (or every path returns) through pure blocks dominated by b.
func (k *compiler) findJoin(b *ssa.BasicBlock) (int, bool) {
	fn := k.c.fn
	try := func(join int) bool {
		seen := map[int]bool{}
		n := 0
		var walk func(x *ssa.BasicBlock) bool
		walk = func(x *ssa.BasicBlock) bool {
			if x.Index == join {
				return true
			}
			if x == b || !b.Dominates(x) {
				return false
			}
			if seen[x.Index] {
				return true
			}
			seen[x.Index] = true
			n++
			if n > 24 {
				return false
			}
			cb := &k.c.blocks[x.Index]
			if cb.kind == tPanic {
				// evaluated only if reached; aborts the merge then
				return true
			}
			if !cb.pure {
				return false
			}
			switch cb.kind {
			case tJump, tIf:
				for _, s := range x.Succs {
					if s.Dominates(x) {
						return false // loop
					}
					if !walk(s) {
						return false
					}
				}
				return true
			case tReturn:
				return join == -1
			}
			return false
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	// candidate joins: blocks reachable soon
	cand := []int{}
	seen := map[int]bool{}
	q := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(q) > 0 && len(cand) < 12 {
		x := q[0]
		q = q[1:]
		if seen[x.Index] || x == b {
			continue
		}
		seen[x.Index] = true
		if len(x.Preds) > 1 {
			cand = append(cand, x.Index)
		}
		q = append(q, x.Succs...)
	}
	for _, c := range cand {
		if fn.Blocks[c].Dominates(b) && fn.Blocks[c] != b {
			// a loop header as the join is fine: both sides continue there
		}
		if try(c) {
			return c, true
		}
	}
	if try(-1) {
		return -1, true
	}
	return 0, false
}

// ---- instructions -----------------------------------------------------------

func (k *compiler) instr(in ssa.Instruction) inst {
	var dst int32 = -1
	if v, ok := in.(ssa.Value); ok {
		dst = k.regs[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := under(x.Type()).(*types.Pointer).Elem()
		z := zero(t)
		if _, ok := z.x.(*Agg); ok {
			return func(f *frame) { p := new(V); *p = copyVal(z); f.r[dst] = V{x: p} }
		}
		return func(f *frame) { p := new(V); *p = z; f.r[dst] = V{x: p} }
	case *ssa.BinOp:
		return k.binop(x, dst)
	case *ssa.UnOp:
		return k.unop(x, dst)
	case *ssa.Call:
		return k.call(&x.Call, dst, x)
	case *ssa.ChangeInterface:
		a := k.op(x.X)
		return func(f *frame) { f.r[dst] = f.get(&a) }
	case *ssa.ChangeType:
		a := k.op(x.X)
		return func(f *frame) { f.r[dst] = f.get(&a) }
	case *ssa.Convert:
		a := k.op(x.X)
		from, to := x.X.Type(), x.Type()
		if fw, fs := intInfo(from); fw != 0 {
			if tw, _ := intInfo(to); tw != 0 {
				mk := mask(tw)
				return func(f *frame) {
					v := f.get(&a)
					if v.x == nil {
						if fs && tw > fw {
							f.r[dst] = V{n: uint64(sext(v.n, fw)) & mk}
						} else {
							f.r[dst] = V{n: v.n & mk}
						}
						return
					}
					if t, ok := v.x.(*Term); ok {
						f.r[dst] = tV(f.m.tc.Resize(t, tw, fs))
						return
					}
					f.r[dst] = v
				}
			}
		}
		return func(f *frame) { f.r[dst] = f.m.convert(f.g, f.get(&a), from, to) }
	case *ssa.MultiConvert:
		a := k.op(x.X)
		from, to := x.X.Type(), x.Type()
		return func(f *frame) { f.r[dst] = f.m.convert(f.g, f.get(&a), from, to) }
	case *ssa.Extract:
		a := k.op(x.Tuple)
		i := x.Index
		return func(f *frame) { f.r[dst] = f.get(&a).x.(*Agg).e[i] }
	case *ssa.Field:
		a := k.op(x.X)
		i := x.Field
		return func(f *frame) { f.r[dst] = f.get(&a).x.(*Agg).e[i] }
	case *ssa.FieldAddr:
		a := k.op(x.X)
		i := x.Field
		return func(f *frame) {
			p, ok := f.get(&a).x.(*V)
			if !ok {
				f.m.nilDeref(f.get(&a))
			}
			ag, ok := p.x.(*Agg)
			if !ok {
				f.m.unsupported("field address of non-aggregate")
			}
			f.r[dst] = V{x: &ag.e[i]}
		}
	case *ssa.Index:
		a, ix := k.op(x.X), k.op(x.Index)
		if isString(x.X.Type()) {
			return func(f *frame) { f.r[dst] = f.m.strIndex(f.get(&a), f.get(&ix)) }
		}
		et := x.Type()
		return func(f *frame) { f.r[dst] = f.m.loadIndexed(f.get(&a).x.(*Agg).e, f.get(&ix), et) }
	case *ssa.IndexAddr:
		return k.indexAddr(x, dst)
	case *ssa.Lookup:
		a, ix := k.op(x.X), k.op(x.Index)
		if isString(x.X.Type()) {
			return func(f *frame) { f.r[dst] = f.m.strIndex(f.get(&a), f.get(&ix)) }
		}
		mt := under(x.X.Type()).(*types.Map)
		z := zero(mt.Elem())
		commaOk := x.CommaOk
		return func(f *frame) {
			mv, _ := f.get(&a).x.(*MapV)
			kv := f.get(&ix)
			i := -1
			if mv != nil {
				i = f.m.mapFind(mv, kv)
			}
			var v V
			if i >= 0 {
				v = copyVal(mv.ents[i].v)
			} else {
				v = copyVal(z)
			}
			if commaOk {
				v = V{x: &Agg{e: []V{v, boolV(i >= 0)}}}
			}
			f.r[dst] = v
		}
	case *ssa.MakeChan:
		sz := k.op(x.Size)
		et := under(x.Type()).(*types.Chan).Elem()
		return func(f *frame) {
			f.m.chanSeq++
			f.r[dst] = V{x: &ChanV{id: f.m.chanSeq, cap: f.m.concInt(f.get(&sz)), et: et}}
		}
	case *ssa.MakeClosure:
		fn := k.p.cfn(x.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, k.op(b))
		}
		return func(f *frame) {
			env := make([]V, len(bs))
			for i := range bs {
				env[i] = f.get(&bs[i])
			}
			f.r[dst] = V{x: &Closure{fn: fn, env: env}}
		}
	case *ssa.MakeInterface:
		a := k.op(x.X)
		t := x.X.Type()
		return func(f *frame) { f.r[dst] = V{x: &Iface{t: t, v: f.get(&a)}} }
	case *ssa.MakeMap:
		kt := under(x.Type()).(*types.Map).Key()
		return func(f *frame) { f.r[dst] = V{x: f.m.newMap(kt)} }
	case *ssa.MakeSlice:
		l, c := k.op(x.Len), k.op(x.Cap)
		et := under(x.Type()).(*types.Slice).Elem()
		return func(f *frame) {
			n := f.m.concInt(f.get(&l))
			cp := f.m.concInt(f.get(&c))
			if n < 0 || cp < n {
				f.m.rtPanic("makeslice: len out of range")
			}
			if cp > 1<<22 {
				f.m.unsupported(fmt.Sprintf("allocation of %d elements", cp))
			}
			f.r[dst] = V{x: makeZeros(et, cp)[:n]}
		}
	case *ssa.MapUpdate:
		a, kk, vv := k.op(x.Map), k.op(x.Key), k.op(x.Value)
		return func(f *frame) {
			mv, _ := f.get(&a).x.(*MapV)
			if mv == nil {
				f.m.rtPanic("assignment to entry in nil map")
			}
			f.m.mapSet(mv, f.get(&kk), f.get(&vv))
		}
	case *ssa.Range:
		a := k.op(x.X)
		if isString(x.X.Type()) {
			return func(f *frame) { f.r[dst] = V{x: &strIter{s: f.get(&a)}} }
		}
		return func(f *frame) {
			mv, _ := f.get(&a).x.(*MapV)
			it := &mapIter{mv: mv}
			if mv != nil && f.m.permMaps > 0 && (f.fn.inRepo || f.fn.inMaps) && mv.n > 1 {
				// any order for a bounded number of loops, else the base order
				it.perm = f.m.mapDev > 0 && mv.n <= f.m.permMaps && f.m.choose(2) == 1
				if it.perm {
					f.m.mapDev--
				}
				it.rev = f.m.mapRev && !it.perm
				for i := range mv.ents {
					if mv.ents[i].live {
						it.order = append(it.order, i)
					}
				}
			}
			f.r[dst] = V{x: it}
		}
	case *ssa.Next:
		a := k.op(x.Iter)
		if x.IsString {
			return func(f *frame) { f.r[dst] = f.m.strNext(f.g, f.get(&a).x.(*strIter)) }
		}
		return func(f *frame) { f.r[dst] = f.m.mapNext(f.get(&a).x.(*mapIter)) }
	case *ssa.RunDefers:
		return func(f *frame) {
			f.runDefers()
			if f.panicing {
				panic(f.panicV)
			}
		}
	case *ssa.Defer:
		return k.deferInstr(x)
	case *ssa.Go:
		prep := k.prepCall(&x.Call)
		return func(f *frame) {
			fv, args := prep(f)
			f.m.spawn(fv, args, f.fn.name)
			f.g.yield()
		}
	case *ssa.Select:
		return k.selectInstr(x, dst)
	case *ssa.Send:
		a, v := k.op(x.Chan), k.op(x.X)
		return func(f *frame) { f.g.send(f.get(&a), f.get(&v)) }
	case *ssa.Slice:
		return k.slice(x, dst)
	case *ssa.SliceToArrayPointer:
		a := k.op(x.X)
		n := int(under(under(x.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		return func(f *frame) {
			s, _ := f.get(&a).x.([]V)
			if len(s) < n {
				f.m.rtPanic("cannot convert slice to array pointer: length too short")
			}
			f.m.unsupported("slice to array pointer")
			_ = n
		}
	case *ssa.Store:
		a, v := k.op(x.Addr), k.op(x.Val)
		if rootAlloc(x.Addr) {
			return func(f *frame) {
				p, ok := f.get(&a).x.(*V)
				if !ok {
					f.m.nilDeref(f.get(&a))
				}
				storeLocal(p, f.get(&v))
			}
		}
		return func(f *frame) {
			p, ok := f.get(&a).x.(*V)
			if !ok {
				if sp, ok := f.get(&a).x.(*SlicePtr); ok && len(sp.s) > 0 {
					f.m.storeTo(&sp.s[0], f.get(&v))
					return
				}
				f.m.nilDeref(f.get(&a))
			}
			f.m.storeTo(p, f.get(&v))
		}
	case *ssa.TypeAssert:
		return k.typeAssert(x, dst)
	}
	s := fmt.Sprintf("instruction %T", in)
	return func(f *frame) { f.m.unsupported(s) }
}

func (m *Machine) nilDeref(v V) {
	if v.x == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.unsupported(fmt.Sprintf("dereference of %T", v.x))
}

func (m *Machine) strIndex(s, ix V) V {
	n := strLen(s)
	if ix.x == nil {
		i := int64(ix.n)
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return strAt(s, int(i))
	}
	t := ix.x.(*Term)
	m.boundsCheck(t, n)
	return m.iteIndex(strBytes(s), t, 8)
}

// boundsCheck forks on an out-of-range symbolic index and panics there.
func (m *Machine) boundsCheck(t *Term, n int) {
	ok := m.tc.Ult(m.tc.Resize(t, 64, true), m.tc.Const(uint64(n), 64))
	if !m.branch(ok) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (m *Machine) iteIndex(tab []V, t *Term, w uint8) V {
	// group by value to keep the term small
	lo, hi := int(lbound(t)), len(tab)-1
	if u := ubound(t); u < uint64(hi) {
		hi = int(u)
	}
	if lo > hi {
		lo = 0
	}
	r := m.term(tab[hi], w)
	// runs of equal values become range tests
	i := hi
	for i > lo {
		v := m.term(tab[i-1], w)
		j := i - 1
		for j > lo && m.term(tab[j-1], w) == v {
			j--
		}
		if v != r {
			r = m.tc.Ite(m.tc.Ult(t, m.tc.Const(uint64(i), t.w)), v, r)
		}
		i = j
	}
	return tV(r)
}

func (m *Machine) loadIndexed(e []V, ix V, et types.Type) V {
	if ix.x == nil {
		i := int64(ix.n)
		if i < 0 || i >= int64(len(e)) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(e)))
		}
		return copyVal(e[i])
	}
	t := ix.x.(*Term)
	m.boundsCheck(t, len(e))
	w, _ := intInfo(et)
	if isBool(et) {
		w = 0
	} else if w == 0 {
		i := m.concretize(t)
		return copyVal(e[i])
	}
	if len(e) > 300 {
		i := m.concretize(t)
		return copyVal(e[i])
	}
	return m.iteIndex(e, t, w)
}

func (k *compiler) indexAddr(x *ssa.IndexAddr, dst int32) inst {
	a, ix := k.op(x.X), k.op(x.Index)
	iw, isg := intInfo(x.Index.Type())
	elems := func(f *frame) []V {
		v := f.get(&a)
		switch s := v.x.(type) {
		case []V:
			return s
		case *V:
			return s.x.(*Agg).e
		case nil:
			if _, ok := under(x.X.Type()).(*types.Slice); ok {
				return nil
			}
		}
		f.m.nilDeref(v)
		return nil
	}
	// loads through this address only: a symbolic index becomes an ite
	loadOnly := true
	for _, r := range *x.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			if _, dbg := r.(*ssa.DebugRef); !dbg {
				loadOnly = false
			}
		}
	}
	et := under(x.Type()).(*types.Pointer).Elem()
	scalar := isBool(et)
	if w, _ := intInfo(et); w != 0 {
		scalar = true
	}
	return func(f *frame) {
		e := elems(f)
		iv := f.get(&ix)
		if iv.x == nil {
			i := int64(iv.n)
			if isg {
				i = sext(iv.n, iw)
			}
			if i < 0 || i >= int64(len(e)) {
				f.m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(e)))
			}
			f.r[dst] = V{x: &e[i]}
			return
		}
		t := iv.x.(*Term)
		if loadOnly && scalar && len(e) <= 300 && len(e) > 0 {
			v := f.m.loadIndexed(e, V{x: f.m.tc.Resize(t, 64, isg)}, et)
			p := new(V)
			*p = v
			f.r[dst] = V{x: p}
			return
		}
		f.m.boundsCheck(f.m.tc.Resize(t, 64, isg), len(e))
		i := f.m.concretize(t)
		f.r[dst] = V{x: &e[i]}
	}
}

func (k *compiler) slice(x *ssa.Slice, dst int32) inst {
	a := k.op(x.X)
	var lo, hi, mx opnd
	hasLo, hasHi, hasMx := x.Low != nil, x.High != nil, x.Max != nil
	if hasLo {
		lo = k.op(x.Low)
	}
	if hasHi {
		hi = k.op(x.High)
	}
	if hasMx {
		mx = k.op(x.Max)
	}
	str := isString(x.X.Type())
	return func(f *frame) {
		m := f.m
		v := f.get(&a)
		l, h, c := 0, -1, -1
		if hasLo {
			l = m.concInt(f.get(&lo))
		}
		if hasHi {
			h = m.concInt(f.get(&hi))
		}
		if hasMx {
			c = m.concInt(f.get(&mx))
		}
		if str {
			n := strLen(v)
			if !hasHi {
				h = n
			}
			if h < 0 || h > n || l < 0 || l > h {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			f.r[dst] = strSlice(v, l, h)
			return
		}
		var e []V
		isNil := false
		switch s := v.x.(type) {
		case []V:
			e = s
		case *V:
			e = s.x.(*Agg).e
		case nil:
			if _, ok := under(x.X.Type()).(*types.Slice); !ok {
				m.nilDeref(v)
			}
			isNil = true
		default:
			m.unsupported(fmt.Sprintf("slice of %T", v.x))
		}
		if !hasHi {
			h = len(e)
		}
		if !hasMx {
			c = cap(e)
		}
		if c < 0 || c > cap(e) || h < 0 || h > c || l < 0 || l > h {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, c, cap(e)))
		}
		if isNil {
			f.r[dst] = V{}
			return
		}
		f.r[dst] = V{x: e[l:h:c]}
	}
}

func (k *compiler) typeAssert(x *ssa.TypeAssert, dst int32) inst {
	a := k.op(x.X)
	at := x.AssertedType
	_, toIface := under(at).(*types.Interface)
	z := zero(at)
	commaOk := x.CommaOk
	p := k.p
	return func(f *frame) {
		i, _ := f.get(&a).x.(*Iface)
		ok := false
		var v V
		if i != nil {
			if toIface {
				if p.implements(i.t, under(at).(*types.Interface)) {
					ok = true
					v = V{x: i}
				}
			} else if sameType(i.t, at) {
				ok = true
				v = i.v
			}
		}
		if commaOk {
			if !ok {
				v = copyVal(z)
			}
			f.r[dst] = V{x: &Agg{e: []V{v, boolV(ok)}}}
			return
		}
		if !ok {
			d := "nil"
			if i != nil {
				d = i.t.String()
			}
			f.m.rtPanic("interface conversion: interface is " + d + ", not " + at.String())
		}
		f.r[dst] = v
	}
}

func (k *compiler) unop(x *ssa.UnOp, dst int32) inst {
	a := k.op(x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			_ = g
		}
		return func(f *frame) {
			v := f.get(&a)
			p, ok := v.x.(*V)
			if !ok {
				if sp, ok := v.x.(*SlicePtr); ok && len(sp.s) > 0 {
					f.r[dst] = copyVal(sp.s[0])
					return
				}
				f.m.nilDeref(v)
			}
			if _, ok := p.x.(*Agg); ok {
				f.r[dst] = copyVal(*p)
			} else {
				f.r[dst] = *p
			}
		}
	case token.ARROW:
		commaOk := x.CommaOk
		return func(f *frame) {
			v, ok := f.g.recv(f.get(&a))
			if commaOk {
				f.r[dst] = V{x: &Agg{e: []V{v, boolV(ok)}}}
			} else {
				f.r[dst] = v
			}
		}
	case token.NOT:
		return func(f *frame) { f.r[dst] = f.m.notV(f.get(&a)) }
	case token.SUB:
		if isFloat(x.Type()) {
			return func(f *frame) { f.r[dst] = f64V(-f.m.concF(f.get(&a)).f64()) }
		}
		w, _ := intInfo(x.Type())
		mk := mask(w)
		return func(f *frame) {
			v := f.get(&a)
			if v.x == nil {
				f.r[dst] = V{n: -v.n & mk}
				return
			}
			f.r[dst] = tV(f.m.tc.Neg(v.x.(*Term)))
		}
	case token.XOR:
		w, _ := intInfo(x.Type())
		mk := mask(w)
		return func(f *frame) {
			v := f.get(&a)
			if v.x == nil {
				f.r[dst] = V{n: ^v.n & mk}
				return
			}
			f.r[dst] = tV(f.m.tc.BNot(v.x.(*Term)))
		}
	}
	return func(f *frame) { f.m.unsupported("unop " + x.Op.String()) }
}

func (k *compiler) binop(x *ssa.BinOp, dst int32) inst {
	a, b := k.op(x.X), k.op(x.Y)
	t := x.X.Type()
	op := x.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		if w, _ := intInfo(t); w != 0 {
			return func(f *frame) {
				p, q := f.get(&a), f.get(&b)
				if p.x == nil && q.x == nil {
					f.r[dst] = boolV((p.n == q.n) != neg)
					return
				}
				r := tV(f.m.tc.Eq(f.m.term(p, w), f.m.term(q, w)))
				if neg {
					r = f.m.notV(r)
				}
				f.r[dst] = r
			}
		}
		ct := t
		// comparison of interface with concrete
		_, xi := under(x.X.Type()).(*types.Interface)
		_, yi := under(x.Y.Type()).(*types.Interface)
		mixX, mixY := xi && !yi, yi && !xi
		if mixY {
			ct = x.Y.Type()
		}
		xt, yt := x.X.Type(), x.Y.Type()
		return func(f *frame) {
			p, q := f.get(&a), f.get(&b)
			if mixX {
				q = V{x: &Iface{t: yt, v: q}}
			}
			if mixY {
				p = V{x: &Iface{t: xt, v: p}}
			}
			r := f.m.eqV(p, q, ct)
			if neg {
				r = f.m.notV(r)
			}
			f.r[dst] = r
		}
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return func(f *frame) { f.r[dst] = strConcat(f.get(&a), f.get(&b)) }
		case token.LSS:
			return func(f *frame) { f.r[dst] = f.m.ltStr(f.get(&a), f.get(&b)) }
		case token.GTR:
			return func(f *frame) { f.r[dst] = f.m.ltStr(f.get(&b), f.get(&a)) }
		case token.LEQ:
			return func(f *frame) { f.r[dst] = f.m.notV(f.m.ltStr(f.get(&b), f.get(&a))) }
		case token.GEQ:
			return func(f *frame) { f.r[dst] = f.m.notV(f.m.ltStr(f.get(&a), f.get(&b))) }
		}
	}
	if isFloat(t) {
		f32 := isFloat32(t)
		return func(f *frame) { f.r[dst] = f.m.floatOp(op, f.get(&a), f.get(&b), f32) }
	}
	w, signed := intInfo(t)
	if w == 0 {
		return func(f *frame) { f.m.unsupported("binop " + op.String() + " on " + t.String()) }
	}
	mk := mask(w)
	switch op {
	case token.ADD:
		return func(f *frame) {
			p, q := f.get(&a), f.get(&b)
			if p.x == nil && q.x == nil {
				f.r[dst] = V{n: (p.n + q.n) & mk}
				return
			}
			f.r[dst] = tV(f.m.tc.Bin(OAdd, f.m.term(p, w), f.m.term(q, w)))
		}
	case token.SUB:
		return func(f *frame) {
			p, q := f.get(&a), f.get(&b)
			if p.x == nil && q.x == nil {
				f.r[dst] = V{n: (p.n - q.n) & mk}
				return
			}
			f.r[dst] = tV(f.m.tc.Bin(OSub, f.m.term(p, w), f.m.term(q, w)))
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		swap := op == token.GTR || op == token.LEQ
		neg := op == token.LEQ || op == token.GEQ
		return func(f *frame) {
			p, q := f.get(&a), f.get(&b)
			if swap {
				p, q = q, p
			}
			if p.x == nil && q.x == nil {
				var r bool
				if signed {
					r = sext(p.n, w) < sext(q.n, w)
				} else {
					r = p.n < q.n
				}
				f.r[dst] = boolV(r != neg)
				return
			}
			var r *Term
			if signed {
				r = f.m.tc.Slt(f.m.term(p, w), f.m.term(q, w))
			} else {
				r = f.m.tc.Ult(f.m.term(p, w), f.m.term(q, w))
			}
			if neg {
				r = f.m.tc.Not(r)
			}
			f.r[dst] = tV(r)
		}
	case token.SHL, token.SHR:
		yw, ysigned := intInfo(x.Y.Type())
		return func(f *frame) {
			p, q := f.get(&a), f.get(&b)
			if q.x == nil && ysigned && sext(q.n, yw) < 0 {
				f.m.rtPanic("negative shift amount")
			}
			o := OShl
			if op == token.SHR {
				o = OLshr
				if signed {
					o = OAshr
				}
			}
			if p.x == nil && q.x == nil {
				r, _ := foldBin(o, w, p.n, q.n)
				f.r[dst] = V{n: r}
				return
			}
			qt := f.m.term(q, yw)
			if yw > w {
				over := f.m.tc.Ule(f.m.tc.Const(uint64(w), yw), qt)
				qt = f.m.tc.Ite(over, f.m.tc.Const(uint64(w), w), f.m.tc.Resize(qt, w, false))
			} else {
				qt = f.m.tc.Resize(qt, w, false)
			}
			f.r[dst] = tV(f.m.tc.Bin(o, f.m.term(p, w), qt))
		}
	}
	var o Op
	andNot := false
	div := false
	switch op {
	case token.MUL:
		o = OMul
	case token.QUO:
		o = OUdiv
		if signed {
			o = OSdiv
		}
		div = true
	case token.REM:
		o = OUrem
		if signed {
			o = OSrem
		}
		div = true
	case token.AND:
		o = OBAnd
	case token.OR:
		o = OBOr
	case token.XOR:
		o = OBXor
	case token.AND_NOT:
		o = OBAnd
		andNot = true
	default:
		return func(f *frame) { f.m.unsupported("binop " + op.String()) }
	}
	return func(f *frame) {
		p, q := f.get(&a), f.get(&b)
		if p.x == nil && q.x == nil {
			if div && q.n == 0 {
				f.m.rtPanic("integer divide by zero")
			}
			y := q.n
			if andNot {
				y = ^y & mk
			}
			r, _ := foldBin(o, w, p.n, y)
			f.r[dst] = V{n: r}
			return
		}
		qt := f.m.term(q, w)
		if div {
			if f.m.branch(f.m.tc.Eq(qt, f.m.tc.Const(0, w))) {
				f.m.rtPanic("integer divide by zero")
			}
		}
		if andNot {
			qt = f.m.tc.BNot(qt)
		}
		f.r[dst] = tV(f.m.tc.Bin(o, f.m.term(p, w), qt))
	}
}

func (m *Machine) floatOp(op token.Token, a, b V, f32 bool) V {
	fn := func(x, y float64) float64 {
		var r float64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		}
		if f32 {
			r = float64(float32(r))
		}
		return r
	}
	switch op {
	case token.ADD, token.SUB, token.MUL, token.QUO:
		if s, ok := a.x.(*SymF); ok {
			if b.x == nil {
				y := b.f64()
				return V{x: &SymF{arg: s.arg, f: func(u uint64) float64 { return fn(s.f(u), y) }}}
			}
		}
		if s, ok := b.x.(*SymF); ok && a.x == nil {
			x := a.f64()
			return V{x: &SymF{arg: s.arg, f: func(u uint64) float64 { return fn(x, s.f(u)) }}}
		}
		return f64V(fn(m.concF(a).f64(), m.concF(b).f64()))
	}
	x, y := m.concF(a).f64(), m.concF(b).f64()
	switch op {
	case token.LSS:
		return boolV(x < y)
	case token.LEQ:
		return boolV(x <= y)
	case token.GTR:
		return boolV(x > y)
	case token.GEQ:
		return boolV(x >= y)
	}
	m.unsupported("float op " + op.String())
	return V{}
}

func (m *Machine) convert(g *G, v V, from, to types.Type) V {
	ft, tt := under(from), under(to)
	fw, fs := intInfo(from)
	tw, _ := intInfo(to)
	switch {
	case isString(from) && isString(to):
		return v
	case fw != 0 && isFloat(to):
		f32 := isFloat32(to)
		cv := func(u uint64) float64 {
			var f float64
			if fs {
				f = float64(sext(u, fw))
			} else {
				f = float64(u)
			}
			if f32 {
				f = float64(float32(f))
			}
			return f
		}
		if t, ok := v.x.(*Term); ok {
			return V{x: &SymF{arg: t, f: cv}}
		}
		return f64V(cv(v.n))
	case isFloat(from) && tw != 0:
		f := m.concF(v).f64()
		return V{n: uint64(int64(f)) & mask(tw)}
	case isFloat(from) && isFloat(to):
		if isFloat32(to) {
			if s, ok := v.x.(*SymF); ok {
				return V{x: &SymF{arg: s.arg, f: func(u uint64) float64 { return float64(float32(s.f(u))) }}}
			}
			return f64V(float64(float32(v.f64())))
		}
		return v
	case fw != 0 && isString(to):
		r := int32(sext(m.concV(v).n, fw))
		return strV(string(rune(r)))
	}
	if b, ok := ft.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if b, ok := tt.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if sl, ok := tt.(*types.Slice); ok && isString(from) {
		w, _ := intInfo(sl.Elem())
		if w == 8 {
			return V{x: strBytes(v)}
		}
		// []rune
		out := []V{}
		it := &strIter{s: v}
		for {
			r := m.strNext(g, it).x.(*Agg)
			if r.e[0].n == 0 {
				break
			}
			out = append(out, r.e[2])
		}
		return V{x: out}
	}
	if sl, ok := ft.(*types.Slice); ok && isString(to) {
		s, _ := v.x.([]V)
		w, _ := intInfo(sl.Elem())
		if w == 8 {
			return bytesToStr(s)
		}
		var out V = strV("")
		for _, r := range s {
			if t, ok := r.x.(*Term); ok {
				if m.branch(m.tc.Ult(t, m.tc.Const(0x80, t.w))) {
					out = strConcat(out, bytesToStr([]V{tV(m.tc.Resize(t, 8, false))}))
					continue
				}
				r = m.concV(r)
			}
			out = strConcat(out, strV(string(rune(int32(r.n)))))
		}
		return out
	}
	m.unsupported("convert " + from.String() + " to " + to.String())
	return V{}
}

func (m *Machine) strNext(g *G, it *strIter) V {
	n := strLen(it.s)
	if it.pos >= n {
		return V{x: &Agg{e: []V{{}, {}, {}}}}
	}
	pos := it.pos
	b := strAt(it.s, pos)
	if b.x == nil && b.n < 0x80 {
		it.pos++
		return V{x: &Agg{e: []V{{n: 1}, {n: uint64(pos)}, {n: b.n}}}}
	}
	if t, ok := b.x.(*Term); ok {
		if m.branch(m.tc.Ult(t, m.tc.Const(0x80, 8))) {
			it.pos++
			return V{x: &Agg{e: []V{{n: 1}, {n: uint64(pos)}, tV(m.tc.Resize(t, 32, false))}}}
		}
	}
	r := g.callFn(m.P.fnByName("unicode/utf8.DecodeRuneInString"), []V{strSlice(it.s, pos, n)}, nil).x.(*Agg)
	it.pos += m.concInt(r.e[1])
	return V{x: &Agg{e: []V{{n: 1}, {n: uint64(pos)}, r.e[0]}}}
}

func (m *Machine) mapNext(it *mapIter) V {
	if it.mv == nil {
		return V{x: &Agg{e: []V{{}, {}, {}}}}
	}
	if it.perm || it.rev {
		var live []int
		for _, i := range it.order {
			if i < len(it.mv.ents) && it.mv.ents[i].live {
				live = append(live, i)
			}
		}
		if len(live) == 0 {
			return V{x: &Agg{e: []V{{}, {}, {}}}}
		}
		c := len(live) - 1
		if !it.rev {
			c = m.choose(len(live))
		}
		i := live[c]
		it.order = append(append([]int(nil), live[:c]...), live[c+1:]...)
		e := &it.mv.ents[i]
		return V{x: &Agg{e: []V{{n: 1}, copyVal(e.k), copyVal(e.v)}}}
	}
	for it.pos < len(it.mv.ents) {
		e := &it.mv.ents[it.pos]
		it.pos++
		if e.live {
			return V{x: &Agg{e: []V{{n: 1}, copyVal(e.k), copyVal(e.v)}}}
		}
	}
	return V{x: &Agg{e: []V{{}, {}, {}}}}
}

func (k *compiler) selectInstr(x *ssa.Select, dst int32) inst {
	type cs struct {
		ch, v opnd
		send  bool
		et    types.Type
	}
	var cases []cs
	for _, s := range x.States {
		c := cs{ch: k.op(s.Chan), send: s.Dir == types.SendOnly, et: under(s.Chan.Type()).(*types.Chan).Elem()}
		if c.send {
			c.v = k.op(s.Send)
		}
		cases = append(cases, c)
	}
	blocking := x.Blocking
	return func(f *frame) {
		var sc []selCase
		for i := range cases {
			c, _ := f.get(&cases[i].ch).x.(*ChanV)
			s := selCase{c: c, send: cases[i].send}
			if s.send {
				s.v = f.get(&cases[i].v)
			}
			sc = append(sc, s)
		}
		i, v, ok := f.g.selectOp(sc, blocking)
		out := []V{intV(i), boolV(ok)}
		for j := range cases {
			if !cases[j].send {
				if j == i {
					out = append(out, v)
				} else {
					out = append(out, zero(cases[j].et))
				}
			}
		}
		f.r[dst] = V{x: &Agg{e: out}}
	}
}

// prepCall resolves callee and arguments.
func (k *compiler) prepCall(c *ssa.CallCommon) func(f *frame) (V, []V) {
	var args []opnd
	for _, a := range c.Args {
		args = append(args, k.op(a))
	}
	if c.IsInvoke() {
		recv := k.op(c.Value)
		meth := c.Method
		return func(f *frame) (V, []V) {
			i, _ := f.get(&recv).x.(*Iface)
			if i == nil {
				f.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			fn := f.m.method(i.t, meth)
			as := make([]V, 0, len(args)+1)
			as = append(as, i.v)
			for j := range args {
				as = append(as, f.get(&args[j]))
			}
			return V{x: &Closure{fn: fn}}, as
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		bf := k.builtin(b, c)
		return func(f *frame) (V, []V) {
			as := make([]V, len(args))
			for j := range args {
				as[j] = f.get(&args[j])
			}
			return V{x: &NativeFn{name: b.Name(), f: bf}}, as
		}
	}
	fv := k.op(c.Value)
	return func(f *frame) (V, []V) {
		as := make([]V, len(args))
		for j := range args {
			as[j] = f.get(&args[j])
		}
		return f.get(&fv), as
	}
}

func (k *compiler) call(c *ssa.CallCommon, dst int32, x *ssa.Call) inst {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		if b.Name() == "recover" {
			return func(f *frame) { f.r[dst] = f.doRecover() }
		}
		if b.Name() == "ssa:deferstack" {
			return func(f *frame) { f.r[dst] = V{x: &dstackV{f}} }
		}
		bf := k.builtin(b, c)
		var args []opnd
		for _, a := range c.Args {
			args = append(args, k.op(a))
		}
		return func(f *frame) {
			var buf [4]V
			as := buf[:0]
			for j := range args {
				as = append(as, f.get(&args[j]))
			}
			f.r[dst] = bf(f.g, as)
		}
	}
	if fn := c.StaticCallee(); fn != nil {
		if pk := k.p.initOf[fn]; pk != nil {
			// packages are initialised on first use
			if k.p.isRepoPkg(pk.Pkg.Path()) {
				return func(f *frame) { f.m.ensureInit(pk) }
			}
			return func(f *frame) {}
		}
		if mc, ok := c.Value.(*ssa.MakeClosure); !ok {
			cf := k.p.cfn(fn)
			var args []opnd
			for _, a := range c.Args {
				args = append(args, k.op(a))
			}
			n := len(args)
			return func(f *frame) {
				var buf [6]V
				var as []V
				if n <= 6 {
					as = buf[:n]
				} else {
					as = make([]V, n)
				}
				for j := range args {
					as[j] = f.get(&args[j])
				}
				f.r[dst] = f.g.callFn(cf, as, nil)
			}
		} else {
			_ = mc
		}
	}
	prep := k.prepCall(c)
	return func(f *frame) {
		fv, args := prep(f)
		f.r[dst] = f.g.callV(fv, args)
	}
}

type dstackV struct{ f *frame }

func (k *compiler) deferInstr(x *ssa.Defer) inst {
	prep := k.prepCall(&x.Call)
	if x.DeferStack != nil {
		ds := k.op(x.DeferStack)
		return func(f *frame) {
			fv, args := prep(f)
			o := f.get(&ds).x.(*dstackV).f
			o.defers = &dfr{fn: fv, args: args, next: o.defers, instr: x}
		}
	}
	return func(f *frame) {
		fv, args := prep(f)
		f.defers = &dfr{fn: fv, args: args, next: f.defers, instr: x}
	}
}

// doRecover implements recover() called in a deferred function.
func (f *frame) doRecover() V {
	d := f.g.defFrame
	// the deferred function must have been called directly by the defer machinery
	if d == nil || f.caller != d || !d.panicing {
		return V{}
	}
	d.panicing = false
	gp := d.panicV.(goPanic)
	return gp.v
}

func (m *Machine) method(t types.Type, meth *types.Func) *cfn {
	key := mkey{t, meth}
	if c, ok := m.mcache[key]; ok {
		return c
	}
	fn := m.P.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if fn == nil {
		m.unsupported("method " + meth.Name() + " of " + t.String())
	}
	c := m.P.cfn(fn)
	m.mcache[key] = c
	return c
}

var _ = math.Pi

// fnProf counts interpreted instructions per function (debugging aid).
var (
	fnProf   = os.Getenv("GOSYM_FNPROF") != ""
	fnProfMu sync.Mutex
	fnSteps  = map[*cfn]int64{}
	fnCalls  = map[*cfn]int64{}
)

func printFnProf() {
	if !fnProf {
		return
	}
	var cs []*cfn
	tot := int64(0)
	for c, n := range fnSteps {
		cs = append(cs, c)
		tot += n
	}
	sort.Slice(cs, func(i, j int) bool { return fnSteps[cs[i]] > fnSteps[cs[j]] })
	tc := int64(0)
	for _, n := range fnCalls {
		tc += n
	}
	fmt.Fprintf(os.Stderr, "%d instructions, %d calls\n", tot, tc)
	for i, c := range cs {
		if i < 40 {
			fmt.Fprintf(os.Stderr, "%6.2f%% %10d calls  %s\n", 100*float64(fnSteps[c])/float64(tot), fnCalls[c], c.name)
		}
	}
}
