package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A happens-before race detector over the explored schedules. While a harness
// has it on (ndRaces), every access of the program to memory that another
// goroutine has accessed must be ordered with that access by a go statement, a
// channel operation, a lock, a wait group or an atomic operation, whatever the
// order in which they ran on this path. The edges are over-approximated (a
// channel or lock orders all that went through it before), so that what is
// reported is a race.

type vclock []uint32

func (a *vclock) join(b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func (a vclock) at(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

type epoch struct {
	g   int
	clk uint32
	pos token.Pos
}

type shadow struct {
	w     epoch
	wrote bool
	r     []epoch
}

func (g *G) clock() vclock {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	if g.vc[g.id] == 0 {
		g.vc[g.id] = 1
	}
	return g.vc
}

// release publishes what g has done to c; acquire orders g after what was published there.
func (g *G) release(c *vclock) {
	if g.m.races {
		c.join(g.clock())
		g.vc[g.id]++
	}
}

func (g *G) acquire(c *vclock) {
	if g.m.races {
		g.clock()
		g.vc.join(*c)
	}
}

func (m *Machine) syncVC(p any) *vclock {
	c := m.raceSync[p]
	if c == nil {
		c = &vclock{}
		m.raceSync[p] = c
	}
	return c
}

// acq and rel order what happens at the object at p: a lock, or an atomic.
func (g *G) acq(p V) {
	if g.m.races {
		if a, ok := p.x.(*V); ok {
			g.acquire(g.m.syncVC(a))
		}
	}
}

func (g *G) rel(p V) {
	if g.m.races {
		if a, ok := p.x.(*V); ok {
			g.release(g.m.syncVC(a))
		}
	}
}

func (g *G) ordered(p V) {
	g.acq(p)
	g.rel(p)
}

func (m *Machine) raceStart(on bool) {
	m.races, m.raceOn = on, false
	m.shadow, m.raceSync = nil, nil
	if on {
		m.shadow, m.raceSync = map[any]*shadow{}, map[any]*vclock{}
		for _, g := range m.gs {
			g.vc = nil
		}
	}
}

func (f *frame) access(p any, write bool, pos token.Pos) {
	m, g := f.m, f.g
	if m.merging > 0 || m.initing > 0 {
		return
	}
	vc := g.clock()
	s := m.shadow[p]
	if s == nil {
		s = &shadow{}
		m.shadow[p] = s
	}
	me := epoch{g.id, vc[g.id], pos}
	if s.wrote && s.w.g != g.id && vc.at(s.w.g) < s.w.clk {
		m.reportRace("written", s.w, write, me)
	}
	if !write {
		for i := range s.r {
			if s.r[i].g == g.id {
				s.r[i] = me
				return
			}
		}
		s.r = append(s.r, me)
		return
	}
	for _, e := range s.r {
		if e.g != g.id && vc.at(e.g) < e.clk {
			m.reportRace("read", e, write, me)
		}
	}
	s.w, s.wrote, s.r = me, true, nil
}

func (m *Machine) reportRace(did string, a epoch, write bool, b epoch) {
	now := "reads"
	if write {
		now = "writes"
	}
	at := func(e epoch) string {
		p := m.P.prog.Fset.Position(e.pos)
		n := p.Filename
		if i := strings.LastIndexByte(n, '/'); i >= 0 {
			n = n[i+1:]
		}
		return fmt.Sprintf("%s:%d (goroutine %s)", n, p.Line, m.gs[e.g].name)
	}
	m.schedUsed = true
	m.raceStart(false)
	panic(pathEnd{"race", fmt.Sprintf("data race: %s at %s; %s at %s with nothing between them", did, at(a), now, at(b))})
}

// accessV records an access to a variable and, for a struct or a short array, what is in it.
func (f *frame) accessV(p *V, write bool, pos token.Pos) {
	f.access(p, write, pos)
	if a, ok := p.x.(*Agg); ok && len(a.e) <= 64 {
		for i := range a.e {
			f.accessV(&a.e[i], write, pos)
		}
	}
}

var racePkgs = map[string]bool{"maps": true, "slices": true, "bufio": true, "bytes": true, "strings": true}

// raced wraps the instructions that access memory.
func (k *compiler) raced(in ssa.Instruction, do inst) inst {
	if !k.c.inRepo && !k.c.raceLib {
		return do
	}
	pos := in.Pos()
	var hook func(f *frame)
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL || localAddr(x.X) || quietType(x.Type()) {
			return do
		}
		a := k.op(x.X)
		hook = func(f *frame) {
			if p, ok := f.get(&a).x.(*V); ok {
				f.accessV(p, false, pos)
			}
		}
	case *ssa.Store:
		if localAddr(x.Addr) || quietType(x.Val.Type()) {
			return do
		}
		a := k.op(x.Addr)
		hook = func(f *frame) {
			if p, ok := f.get(&a).x.(*V); ok {
				f.accessV(p, true, pos)
			}
		}
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			return do
		}
		a := k.op(x.X)
		hook = func(f *frame) { f.accessMap(f.get(&a), false, pos) }
	case *ssa.Range:
		if isString(x.X.Type()) {
			return do
		}
		a := k.op(x.X)
		hook = func(f *frame) { f.accessMap(f.get(&a), false, pos) }
	case *ssa.Next:
		if x.IsString {
			return do
		}
		a := k.op(x.Iter)
		hook = func(f *frame) {
			if it, ok := f.get(&a).x.(*mapIter); ok && it.mv != nil {
				f.access(it.mv, false, pos)
			}
		}
	case *ssa.MapUpdate:
		a := k.op(x.Map)
		hook = func(f *frame) { f.accessMap(f.get(&a), true, pos) }
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok {
			return do
		}
		var args []opnd
		for _, a := range x.Call.Args {
			args = append(args, k.op(a))
		}
		switch b.Name() {
		case "len", "delete", "clear":
			write := b.Name() != "len"
			hook = func(f *frame) { f.accessMap(f.get(&args[0]), write, pos) }
		case "append":
			if len(args) < 2 {
				return do
			}
			hook = func(f *frame) {
				s, _ := f.get(&args[0]).x.([]V)
				add, _ := f.get(&args[1]).x.([]V)
				f.accessAll(add, false, pos)
				if n := len(s) + len(add); n <= cap(s) {
					f.accessAll(s[len(s):n], true, pos)
				} else {
					f.accessAll(s, false, pos)
				}
			}
		case "copy":
			hook = func(f *frame) {
				d, _ := f.get(&args[0]).x.([]V)
				s, _ := f.get(&args[1]).x.([]V)
				n := min(len(d), len(s))
				f.accessAll(s[:n], false, pos)
				f.accessAll(d[:n], true, pos)
			}
		default:
			return do
		}
	default:
		return do
	}
	return func(f *frame) {
		if f.m.raceOn {
			hook(f)
		}
		do(f)
	}
}

func (f *frame) accessMap(v V, write bool, pos token.Pos) {
	if mv, ok := v.x.(*MapV); ok && mv != nil {
		f.access(mv, write, pos)
	}
}

func (f *frame) accessAll(s []V, write bool, pos token.Pos) {
	for i := range s {
		f.accessV(&s[i], write, pos)
	}
}

// localAddr: the address is in a variable no other goroutine can see.
func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return !x.Heap
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := under(x.X.Type()).(*types.Pointer); !ok {
				return false
			}
			v = x.X
		default:
			return false
		}
	}
}

// quietType: the package loggers are made on first use, by any goroutine, and
// whichever is kept is as good as the other.
func quietType(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && p.Elem().String() == "log/slog.Logger"
}
