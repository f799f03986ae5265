package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is an interpreted Go value. Integers and booleans are concrete in n (masked
// to their width) when x == nil and symbolic when x is *Term. Strings keep a Go
// string or *SymStr in x; aggregates *Agg; pointers *V; slices []V; and so on.
type V struct {
	n uint64
	x any
}

type Agg struct{ e []V }

// SymStr is an immutable string of fixed length some bytes of which are symbolic.
type SymStr struct{ b []V }

// SlicePtr is the result of unsafe.SliceData/StringData: a pointer that
// remembers the memory that follows it.
type SlicePtr struct{ s []V }

type Iface struct {
	t types.Type
	v V
}

type Closure struct {
	fn  *cfn
	env []V
}

type NativeFn struct {
	name string
	f    func(g *G, args []V) V
}

type mapEnt struct {
	k, v V
	live bool
}

type MapV struct {
	kt     types.Type
	ents   []mapEnt
	idx    map[any]int
	nsym   int // live entries whose key is symbolic
	n      int
	serial int
}

// SymF is a float that is a known host function of one symbolic integer.
type SymF struct {
	arg *Term
	f   func(uint64) float64
}

func boolV(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}
func strV(s string) V { return V{x: s} }
func intV(i int) V    { return V{n: uint64(int64(i))} }
func ptrV(p *V) V {
	if p == nil {
		return V{}
	}
	return V{x: p}
}
func tV(t *Term) V {
	if t.op == OConst {
		return V{n: t.k}
	}
	return V{x: t}
}

func (v V) isSym() bool { _, ok := v.x.(*Term); return ok }

func (v V) f64() float64 { return math.Float64frombits(v.n) }
func f64V(f float64) V   { return V{n: math.Float64bits(f)} }

// ---- types ------------------------------------------------------------------

func under(t types.Type) types.Type { return t.Underlying() }

// intInfo gives bit width and signedness of an integer/bool-ish type; w==0 means not an int.
func intInfo(t types.Type) (w uint8, signed bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 0, false
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isFloat32(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Float32
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zero(t types.Type) V {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return V{x: ""}
		}
		return V{}
	case *types.Struct:
		n := u.NumFields()
		a := newAgg(n)
		for i := 0; i < n; i++ {
			a.e[i] = zero(u.Field(i).Type())
		}
		return V{x: a}
	case *types.Array:
		n := int(u.Len())
		a := newAgg(n)
		if n > 0 {
			z := zero(u.Elem())
			for i := range a.e {
				a.e[i] = copyVal(z)
			}
		}
		return V{x: a}
	case *types.Tuple:
		a := newAgg(int(u.Len()))
		for i := range a.e {
			a.e[i] = zero(u.At(i).Type())
		}
		return V{x: a}
	}
	return V{}
}

func makeZeros(t types.Type, n int) []V {
	s := make([]V, n)
	z := zero(t)
	if z.x == nil {
		return s
	}
	if _, ok := z.x.(*Agg); ok {
		for i := range s {
			s[i] = copyVal(z)
		}
	} else {
		for i := range s {
			s[i] = z
		}
	}
	return s
}

func copyVal(v V) V {
	a, ok := v.x.(*Agg)
	if !ok {
		return v
	}
	b := newAgg(len(a.e))
	for i, e := range a.e {
		if _, ok := e.x.(*Agg); ok {
			b.e[i] = copyVal(e)
		} else {
			b.e[i] = e
		}
	}
	return V{n: v.n, x: b}
}

// ---- strings ----------------------------------------------------------------

func strLen(v V) int {
	switch s := v.x.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.x))
}

func strAt(v V, i int) V {
	switch s := v.x.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic(fmt.Sprintf("strAt of %T", v.x))
}

func strSlice(v V, lo, hi int) V {
	switch s := v.x.(type) {
	case nil:
		return V{x: ""}
	case string:
		return V{x: s[lo:hi]}
	case *SymStr:
		return bytesToStr(s.b[lo:hi])
	}
	panic("strSlice")
}

// bytesToStr copies.
func bytesToStr(b []V) V {
	for i := range b {
		if b[i].x != nil {
			c := make([]V, len(b))
			copy(c, b)
			return V{x: &SymStr{b: c}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].n)
	}
	return V{x: string(bs)}
}

func strBytes(v V) []V {
	switch s := v.x.(type) {
	case nil:
		return []V{}
	case string:
		b := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			b[i].n = uint64(s[i])
		}
		return b
	case *SymStr:
		b := make([]V, len(s.b))
		copy(b, s.b)
		return b
	}
	panic(fmt.Sprintf("strBytes of %T", v.x))
}

func concStr(v V) (string, bool) {
	switch s := v.x.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strConcat(a, b V) V {
	as, ok1 := concStr(a)
	bs, ok2 := concStr(b)
	if ok1 && ok2 {
		return V{x: as + bs}
	}
	return bytesToStr(append(strBytes(a), strBytes(b)...))
}

// showStr renders a possibly symbolic string for messages.
func (m *Machine) showStr(v V) string {
	if s, ok := concStr(v); ok {
		return s
	}
	var sb strings.Builder
	for _, b := range v.x.(*SymStr).b {
		if t, ok := b.x.(*Term); ok {
			sb.WriteByte(byte(m.tc.Eval(t, m.model)))
		} else {
			sb.WriteByte(byte(b.n))
		}
	}
	return sb.String()
}

func (m *Machine) term(v V, w uint8) *Term {
	if v.x == nil {
		return m.tc.Const(v.n, w)
	}
	t, ok := v.x.(*Term)
	if !ok {
		m.unsupported(fmt.Sprintf("expected scalar, got %T", v.x))
	}
	return t
}

func (m *Machine) notV(a V) V {
	if t, ok := a.x.(*Term); ok {
		return tV(m.tc.Not(t))
	}
	return V{n: 1 - a.n}
}

func (m *Machine) andV(a, b V) V {
	if a.x == nil {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.x == nil {
		if b.n == 0 {
			return b
		}
		return a
	}
	return tV(m.tc.And(a.x.(*Term), b.x.(*Term)))
}

func (m *Machine) orV(a, b V) V { return m.notV(m.andV(m.notV(a), m.notV(b))) }

func (m *Machine) eqByte(a, b V) V {
	if a.x == nil && b.x == nil {
		return boolV(a.n == b.n)
	}
	return tV(m.tc.Eq(m.term(a, 8), m.term(b, 8)))
}

func (m *Machine) eqStr(a, b V) V {
	as, ok1 := concStr(a)
	bs, ok2 := concStr(b)
	if ok1 && ok2 {
		return boolV(as == bs)
	}
	n := strLen(a)
	if n != strLen(b) {
		return V{}
	}
	r := V{n: 1}
	for i := 0; i < n; i++ {
		r = m.andV(r, m.eqByte(strAt(a, i), strAt(b, i)))
		if r.x == nil && r.n == 0 {
			return r
		}
	}
	return r
}

// cmpStr returns (a<b) as a bool value.
func (m *Machine) ltStr(a, b V) V {
	as, ok1 := concStr(a)
	bs, ok2 := concStr(b)
	if ok1 && ok2 {
		return boolV(as < bs)
	}
	na, nb := strLen(a), strLen(b)
	n := min(na, nb)
	r := boolV(na < nb)
	for i := n - 1; i >= 0; i-- {
		x, y := m.term(strAt(a, i), 8), m.term(strAt(b, i), 8)
		lt := tV(m.tc.Ult(x, y))
		eq := tV(m.tc.Eq(x, y))
		r = m.orV(lt, m.andV(eq, r))
	}
	return r
}

// eqV compares two values of static type t.
func (m *Machine) eqV(a, b V, t types.Type) V {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.eqStr(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			a, b = m.concF(a), m.concF(b)
			return boolV(a.f64() == b.f64())
		}
		if u.Info()&types.IsBoolean != 0 {
			if a.x == nil && b.x == nil {
				return boolV(a.n == b.n)
			}
			return tV(m.tc.Eq(m.term(a, 0), m.term(b, 0)))
		}
		if u.Kind() == types.UnsafePointer {
			return boolV(a.x == b.x)
		}
		w, _ := intInfo(t)
		if a.x == nil && b.x == nil {
			return boolV(a.n == b.n)
		}
		return tV(m.tc.Eq(m.term(a, w), m.term(b, w)))
	case *types.Struct:
		r := V{n: 1}
		ea, eb := a.x.(*Agg).e, b.x.(*Agg).e
		for i := range ea {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = m.andV(r, m.eqV(ea[i], eb[i], u.Field(i).Type()))
			if r.x == nil && r.n == 0 {
				return r
			}
		}
		return r
	case *types.Array:
		r := V{n: 1}
		ea, eb := a.x.(*Agg).e, b.x.(*Agg).e
		for i := range ea {
			r = m.andV(r, m.eqV(ea[i], eb[i], u.Elem()))
			if r.x == nil && r.n == 0 {
				return r
			}
		}
		return r
	case *types.Interface:
		ia, _ := a.x.(*Iface)
		ib, _ := b.x.(*Iface)
		if ia == nil || ib == nil {
			return boolV(ia == nil && ib == nil)
		}
		if !sameType(ia.t, ib.t) {
			return V{}
		}
		if !types.Comparable(ia.t) {
			m.rtPanic("comparing uncomparable type " + ia.t.String())
		}
		return m.eqV(ia.v, ib.v, ia.t)
	case *types.Slice, *types.Signature, *types.Map:
		if _, ok := a.x.([]V); ok || b.x != nil {
			if _, ok2 := b.x.([]V); ok2 && ok {
				m.unsupported("slice comparison")
			}
			return boolV(a.x == nil && b.x == nil)
		}
		if _, ok := u.(*types.Map); ok {
			return boolV(a.x == b.x)
		}
		return boolV(a.x == nil && b.x == nil)
	default: // pointers, chans
		if pa, ok := a.x.(*SlicePtr); ok {
			if len(pa.s) > 0 {
				a = ptrV(&pa.s[0])
			}
		}
		if pb, ok := b.x.(*SlicePtr); ok {
			if len(pb.s) > 0 {
				b = ptrV(&pb.s[0])
			}
		}
		return boolV(a.x == b.x)
	}
}

func sameType(a, b types.Type) bool { return a == b || types.Identical(a, b) }

// iteV merges two values under a symbolic condition; ok=false if they cannot be merged.
func (m *Machine) iteV(c *Term, a, b V) (V, bool) {
	switch xa := a.x.(type) {
	case nil:
		if b.x == nil {
			if a.n == b.n {
				return a, true
			}
			return V{}, false // needs width: handled by iteT
		}
		return V{}, false
	case *Term:
		if xb, ok := b.x.(*Term); ok && xa.w == xb.w {
			return tV(m.tc.Ite(c, xa, xb)), true
		}
		return V{}, false
	}
	return V{}, false
}

func (m *Machine) iteT(c *Term, a, b V, t types.Type) (V, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			n := strLen(a)
			if n != strLen(b) {
				return V{}, false
			}
			if sa, ok := concStr(a); ok {
				if sb, ok := concStr(b); ok && sa == sb {
					return a, true
				}
			}
			out := make([]V, n)
			for i := range out {
				out[i] = tV(m.tc.Ite(c, m.term(strAt(a, i), 8), m.term(strAt(b, i), 8)))
			}
			return bytesToStr(out), true
		case u.Info()&types.IsFloat != 0 || u.Info()&types.IsComplex != 0:
			if a.x == nil && b.x == nil && a.n == b.n {
				return a, true
			}
			return V{}, false
		case u.Info()&types.IsBoolean != 0:
			return tV(m.tc.Ite(c, m.term(a, 0), m.term(b, 0))), true
		case u.Kind() == types.UnsafePointer:
			return a, a.x == b.x
		}
		w, _ := intInfo(t)
		if w == 0 {
			return V{}, false
		}
		return tV(m.tc.Ite(c, m.term(a, w), m.term(b, w))), true
	case *types.Struct:
		ea, eb := a.x.(*Agg).e, b.x.(*Agg).e
		out := make([]V, len(ea))
		for i := range ea {
			v, ok := m.iteT(c, ea[i], eb[i], u.Field(i).Type())
			if !ok {
				return V{}, false
			}
			out[i] = v
		}
		return V{x: &Agg{e: out}}, true
	case *types.Tuple:
		ea, eb := a.x.(*Agg).e, b.x.(*Agg).e
		out := make([]V, len(ea))
		for i := range ea {
			v, ok := m.iteT(c, ea[i], eb[i], u.At(i).Type())
			if !ok {
				return V{}, false
			}
			out[i] = v
		}
		return V{x: &Agg{e: out}}, true
	case *types.Array:
		ea, eb := a.x.(*Agg).e, b.x.(*Agg).e
		out := make([]V, len(ea))
		for i := range ea {
			v, ok := m.iteT(c, ea[i], eb[i], u.Elem())
			if !ok {
				return V{}, false
			}
			out[i] = v
		}
		return V{x: &Agg{e: out}}, true
	case *types.Slice:
		sa, _ := a.x.([]V)
		sb, _ := b.x.([]V)
		if (a.x == nil) != (b.x == nil) || len(sa) != len(sb) || cap(sa) != cap(sb) {
			return V{}, false
		}
		if a.x == nil || (cap(sa) > 0 && &sa[:1][0] == &sb[:1][0]) {
			return a, true
		}
		return V{}, false
	case *types.Interface:
		ia, _ := a.x.(*Iface)
		ib, _ := b.x.(*Iface)
		if ia == nil && ib == nil {
			return a, true
		}
		if ia == nil || ib == nil || !sameType(ia.t, ib.t) {
			return V{}, false
		}
		v, ok := m.iteT(c, ia.v, ib.v, ia.t)
		if !ok {
			return V{}, false
		}
		return V{x: &Iface{t: ia.t, v: v}}, true
	case *types.Map, *types.Pointer, *types.Chan:
		if _, ok := a.x.(*SlicePtr); ok {
			return V{}, false
		}
		return a, a.x == b.x
	case *types.Signature:
		return a, a.x == nil && b.x == nil
	}
	return V{}, false
}

// ---- maps -------------------------------------------------------------------

// keyOf returns a host-comparable key for a fully concrete value.
func keyOf(v V, t types.Type) (any, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concStr(v)
			return s, ok
		}
		if v.x != nil {
			return nil, false
		}
		return v.n, true
	case *types.Pointer, *types.Chan:
		if v.x == nil {
			return uint64(0), true
		}
		return v.x, true
	case *types.Interface:
		i, _ := v.x.(*Iface)
		if i == nil {
			return nil, true
		}
		k, ok := keyOf(i.v, i.t)
		if !ok {
			return nil, false
		}
		return fmt.Sprintf("%s|%T|%v", i.t.String(), k, k), true
	case *types.Struct:
		var sb strings.Builder
		for i, e := range v.x.(*Agg).e {
			k, ok := keyOf(e, u.Field(i).Type())
			if !ok {
				return nil, false
			}
			if p, ok := k.(*V); ok {
				fmt.Fprintf(&sb, "%p", p)
			} else {
				fmt.Fprintf(&sb, "%T%v;%d|", k, k, i)
			}
		}
		return sb.String(), true
	case *types.Array:
		var sb strings.Builder
		for i, e := range v.x.(*Agg).e {
			k, ok := keyOf(e, u.Elem())
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T%v;%d|", k, k, i)
		}
		return sb.String(), true
	}
	return nil, false
}

func (m *Machine) newMap(kt types.Type) *MapV {
	return &MapV{kt: kt, idx: map[any]int{}, serial: m.serial}
}

// mapFind returns the index of the live entry equal to k, forking if undecided; -1 if none.
func (m *Machine) mapFind(mv *MapV, k V) int {
	key, conc := keyOf(k, mv.kt)
	if conc {
		if i, ok := mv.idx[key]; ok {
			return i
		}
		if mv.nsym == 0 {
			return -1
		}
	}
	for i := range mv.ents {
		e := &mv.ents[i]
		if !e.live {
			continue
		}
		if conc {
			if _, ec := keyOf(e.k, mv.kt); ec {
				continue
			}
		}
		if m.branchV(m.eqV(e.k, k, mv.kt)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mv *MapV, k, v V) {
	i := m.mapFind(mv, k)
	if i >= 0 {
		if mv.serial != m.serial {
			old := mv.ents[i].v
			m.logUndo(func() { mv.ents[i].v = old })
		}
		mv.ents[i].v = copyVal(v)
		return
	}
	key, conc := keyOf(k, mv.kt)
	i = len(mv.ents)
	mv.ents = append(mv.ents, mapEnt{k: copyVal(k), v: copyVal(v), live: true})
	mv.n++
	if conc {
		mv.idx[key] = i
	} else {
		mv.nsym++
	}
	if mv.serial != m.serial {
		m.logUndo(func() {
			mv.ents = mv.ents[:i]
			mv.n--
			if conc {
				delete(mv.idx, key)
			} else {
				mv.nsym--
			}
		})
	}
}

func (m *Machine) mapDelete(mv *MapV, k V) {
	i := m.mapFind(mv, k)
	if i < 0 {
		return
	}
	key, conc := keyOf(mv.ents[i].k, mv.kt)
	mv.ents[i].live = false
	mv.n--
	if conc {
		delete(mv.idx, key)
	} else {
		mv.nsym--
	}
	if mv.serial != m.serial {
		m.logUndo(func() {
			mv.ents[i].live = true
			mv.n++
			if conc {
				mv.idx[key] = i
			} else {
				mv.nsym++
			}
		})
	}
}

type mapIter struct {
	mv    *MapV
	order []int // remaining, nondeterministic mode
	pos   int
	perm  bool
	rev   bool // from the last to the first
	seen  int
}

type strIter struct {
	s   V
	pos int
}

var _ = ssa.NaiveForm

// newAgg allocates an aggregate with its elements in one piece.
func newAgg(n int) *Agg {
	switch n {
	case 1:
		x := new(struct {
			Agg
			a [1]V
		})
		x.e = x.a[:]
		return &x.Agg
	case 2:
		x := new(struct {
			Agg
			a [2]V
		})
		x.e = x.a[:]
		return &x.Agg
	case 3:
		x := new(struct {
			Agg
			a [3]V
		})
		x.e = x.a[:]
		return &x.Agg
	case 4:
		x := new(struct {
			Agg
			a [4]V
		})
		x.e = x.a[:]
		return &x.Agg
	case 5, 6:
		x := new(struct {
			Agg
			a [6]V
		})
		x.e = x.a[:n:n]
		return &x.Agg
	}
	return &Agg{e: make([]V, n)}
}
