package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

func (k *compiler) builtin(b *ssa.Builtin, c *ssa.CallCommon) func(g *G, args []V) V {
	switch b.Name() {
	case "len":
		t := c.Args[0].Type()
		return func(g *G, a []V) V { return intV(lenOf(g.m, a[0], t)) }
	case "cap":
		return func(g *G, a []V) V {
			switch s := a[0].x.(type) {
			case []V:
				return intV(cap(s))
			case *ChanV:
				return intV(s.cap)
			case *V:
				return intV(len(s.x.(*Agg).e))
			case *Agg:
				return intV(len(s.e))
			}
			return V{}
		}
	case "append":
		st := c.Args[0].Type()
		et := under(st).(*types.Slice).Elem()
		strSrc := len(c.Args) > 1 && isString(c.Args[1].Type())
		agg := false
		if _, ok := zero(et).x.(*Agg); ok {
			agg = true
		}
		return func(g *G, a []V) V {
			s, _ := a[0].x.([]V)
			var add []V
			if len(a) > 1 {
				if strSrc {
					add = strBytes(a[1])
				} else {
					add, _ = a[1].x.([]V)
				}
			}
			if len(add) == 0 {
				return a[0]
			}
			n := len(s) + len(add)
			if n <= cap(s) {
				// in place: the overwritten tail may be visible elsewhere
				out := s[:n]
				if agg {
					for i, v := range add {
						g.m.storeTo(&out[len(s)+i], v)
					}
				} else {
					for i, v := range add {
						p := &out[len(s)+i]
						if g.m.initing == 0 {
							g.m.undo = append(g.m.undo, undoEnt{p: p, old: *p})
						}
						*p = v
					}
				}
				return V{x: out}
			}
			nc := 2 * cap(s)
			if cap(s) > 256 {
				nc = cap(s) + (cap(s)+768)/4
			}
			if nc < n {
				nc = n
			}
			if nc < 4 {
				nc = 4
			}
			out := make([]V, n, nc)
			copy(out, s)
			if agg {
				for i, v := range add {
					out[len(s)+i] = copyVal(v)
				}
				for i := range s {
					out[i] = copyVal(s[i])
				}
				z := zero(et)
				ext := out[n:nc]
				for i := range ext {
					ext[i] = copyVal(z)
				}
			} else {
				copy(out[len(s):], add)
				if isString(et) {
					ext := out[n:nc]
					for i := range ext {
						ext[i].x = ""
					}
				}
			}
			return V{x: out}
		}
	case "copy":
		strSrc := isString(c.Args[1].Type())
		return func(g *G, a []V) V {
			d, _ := a[0].x.([]V)
			var s []V
			if strSrc {
				s = strBytes(a[1])
			} else {
				s, _ = a[1].x.([]V)
			}
			n := min(len(d), len(s))
			if n == 0 {
				return intV(0)
			}
			tmp := make([]V, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(s[i])
			}
			for i := 0; i < n; i++ {
				g.m.storeTo(&d[i], tmp[i])
			}
			return intV(n)
		}
	case "delete":
		return func(g *G, a []V) V {
			if mv, ok := a[0].x.(*MapV); ok {
				g.m.mapDelete(mv, a[1])
			}
			return V{}
		}
	case "clear":
		t := c.Args[0].Type()
		return func(g *G, a []V) V {
			switch s := a[0].x.(type) {
			case *MapV:
				for i := range s.ents {
					if s.ents[i].live {
						g.m.mapDelete(s, s.ents[i].k)
					}
				}
			case []V:
				z := zero(under(t).(*types.Slice).Elem())
				for i := range s {
					g.m.storeTo(&s[i], z)
				}
			}
			return V{}
		}
	case "close":
		return func(g *G, a []V) V { g.closeChan(a[0]); return V{} }
	case "panic":
		return func(g *G, a []V) V { panic(goPanic{a[0]}) }
	case "print", "println":
		return func(g *G, a []V) V { return V{} }
	case "min", "max":
		t := c.Args[0].Type()
		isMin := b.Name() == "min"
		w, signed := intInfo(t)
		return func(g *G, a []V) V {
			m := g.m
			r := a[0]
			for _, x := range a[1:] {
				switch {
				case w != 0:
					p, q := m.term(x, w), m.term(r, w)
					if !isMin {
						p, q = q, p
					}
					var c *Term
					if signed {
						c = m.tc.Slt(p, q)
					} else {
						c = m.tc.Ult(p, q)
					}
					r = tV(m.tc.Ite(c, m.term(x, w), m.term(r, w)))
				case isString(t):
					p, q := x, r
					if !isMin {
						p, q = q, p
					}
					if m.branchV(m.ltStr(p, q)) {
						r = x
					}
				default:
					p, q := m.concF(x).f64(), m.concF(r).f64()
					if isMin {
						r = f64V(min(p, q))
					} else {
						r = f64V(max(p, q))
					}
				}
			}
			return r
		}
	case "recover":
		return func(g *G, a []V) V {
			// deferred directly: recover() has no effect there
			return V{}
		}
	case "ssa:wrapnilchk":
		return func(g *G, a []V) V {
			if a[0].x == nil {
				g.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			return a[0]
		}
	case "String": // unsafe.String(ptr, len)
		return func(g *G, a []V) V {
			n := g.m.concInt(a[1])
			if n == 0 {
				return strV("")
			}
			return bytesToStr(g.m.ptrSlice(a[0])[:n])
		}
	case "Slice":
		return func(g *G, a []V) V {
			n := g.m.concInt(a[1])
			if a[0].x == nil {
				return V{}
			}
			return V{x: g.m.ptrSlice(a[0])[:n]}
		}
	case "SliceData":
		return func(g *G, a []V) V {
			s, ok := a[0].x.([]V)
			if !ok {
				return V{}
			}
			return V{x: &SlicePtr{s: s[:cap(s)]}}
		}
	case "StringData":
		return func(g *G, a []V) V { return V{x: &SlicePtr{s: strBytes(a[0])}} }
	}
	n := b.Name()
	return func(g *G, a []V) V { g.m.unsupported("builtin " + n); return V{} }
}

func (m *Machine) ptrSlice(v V) []V {
	switch p := v.x.(type) {
	case *SlicePtr:
		return p.s
	case *V:
		// pointer to a single element
		m.unsupported("unsafe access through element pointer")
	case nil:
		return nil
	}
	m.unsupported("unsafe access")
	return nil
}

func lenOf(m *Machine, v V, t types.Type) int {
	switch s := v.x.(type) {
	case nil:
		if isString(t) {
			return 0
		}
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case []V:
		return len(s)
	case *MapV:
		return s.n
	case *ChanV:
		return len(s.buf)
	case *Agg:
		return len(s.e)
	case *V:
		return len(s.x.(*Agg).e)
	}
	m.unsupported(fmt.Sprintf("len of %T", v.x))
	return 0
}

var _ = os.Args
