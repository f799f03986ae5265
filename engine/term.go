package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms are hash-consed bit-vector / boolean expressions (width 0 = Bool).

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OXor // bool
	OEq
	OUlt
	OUle
	OUle0 // unsimplified <=, for range declarations
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // k = hi<<8|lo
	OZext
	OSext
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OXor: "xor", OEq: "=", OUlt: "bvult", OUle: "bvule", OUle0: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUdiv: "bvudiv", OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor",
	OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
}

type Term struct {
	id      int
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	name    string
	emit    int // solver generation in which this was emitted
	evalGen int
	evalVal uint64
	lb, ub  uint64 // unsigned interval
	vs      []uint64
}

type termKey struct {
	op         Op
	w          uint8
	a, b, c, k uint64
}

type TermCtx struct {
	tab    map[termKey]*Term
	n      int
	T, F   *Term
	vars   []*Term
	byName map[string]*Term

	certs    []cert
	certSeen map[termKey]bool
	evalGen  int
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, byName: map[string]*Term{}, certSeen: map[termKey]bool{}}
	c.T = c.mk(OConst, 0, nil, nil, nil, 1)
	c.F = c.mk(OConst, 0, nil, nil, nil, 0)
	return c
}

func tid(t *Term) uint64 {
	if t == nil {
		return 0
	}
	return uint64(t.id) + 1
}

func (c *TermCtx) mk(op Op, w uint8, a, b, d *Term, k uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(d), k}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{id: c.n, op: op, w: w, a: a, b: b, c: d, k: k}
	t.setBounds()
	c.n++
	c.tab[key] = t
	return t
}

// Var returns the variable with this name (width fixed at first use).
func (c *TermCtx) Var(name string, w uint8) *Term {
	if t, ok := c.byName[name]; ok {
		if t.w != w {
			panic("variable width changed: " + name)
		}
		return t
	}
	t := &Term{id: c.n, op: OVar, w: w, name: name, k: uint64(len(c.vars)), ub: mask(w)}
	c.n++
	c.vars = append(c.vars, t)
	c.byName[name] = t
	return t
}

// VarHi is Var with a declared unsigned upper bound, which the caller asserts.
func (c *TermCtx) VarHi(name string, w uint8, hi uint64) *Term {
	t := c.Var(name, w)
	if t.ub == mask(w) {
		t.ub = hi
	} else if t.ub != hi {
		panic("variable range changed: " + name)
	}
	return t
}

// mkRaw builds an unsimplified comparison.
func (c *TermCtx) mkRaw(op Op, a, b *Term) *Term { return c.mk(op, 0, a, b, nil, 0) }

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *TermCtx) Const(v uint64, w uint8) *Term {
	return c.mk(OConst, w, nil, nil, nil, v&mask(w))
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (t *Term) isConst() bool { return t.op == OConst }

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.k == 0)
	case ONot:
		return a.a
	}
	return c.mk(ONot, 0, a, nil, nil, 0)
}

func (c *TermCtx) and0(a, b *Term) *Term {
	if a == c.F || b == c.F {
		return c.F
	}
	if a == c.T {
		return b
	}
	if b == c.T || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, a, b, nil, 0)
}

func (c *TermCtx) or0(a, b *Term) *Term {
	if a == c.T || b == c.T {
		return c.T
	}
	if a == c.F {
		return b
	}
	if b == c.F || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, a, b, nil, 0)
}

func (c *TermCtx) Xor(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return b
		}
		return c.Not(b)
	}
	if b.isConst() {
		return c.Xor(b, a)
	}
	if a == b {
		return c.F
	}
	return c.mk(OXor, 0, a, b, nil, 0)
}

func (c *TermCtx) eq0(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.w == 0 {
		return c.Not(c.Xor(a, b))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if ubound(a) < b.k || lbound(a) > b.k {
			return c.F
		}
		switch a.op {
		case OIte:
			// push through ite of constants
			if a.b.isConst() || a.c.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OZext:
			if b.k > mask(a.a.w) {
				return c.F
			}
			return c.Eq(a.a, c.Const(b.k, a.a.w))
		case OSext:
			s := uint64(sext(b.k&mask(a.a.w), a.a.w)) & mask(a.w)
			if s != b.k {
				return c.F
			}
			return c.Eq(a.a, c.Const(b.k, a.a.w))
		case OAdd, OMul:
			if a.op == OAdd && a.b.isConst() {
				return c.Eq(a.a, c.Const(b.k-a.b.k, a.w))
			}
			if x, k, y := a.split(); x != nil {
				if y == nil {
					if b.k%k != 0 {
						return c.F
					}
					return c.Eq(x, c.Const(b.k/k, a.w))
				}
				return c.And(c.Eq(x, c.Const(b.k/k, a.w)), c.Eq(y, c.Const(b.k%k, a.w)))
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if x, k, y := a.split(); x != nil && y != nil {
			if x2, k2, y2 := b.split(); x2 != nil && y2 != nil && k == k2 {
				return c.And(c.Eq(x, x2), c.Eq(y, y2))
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(OEq, 0, a, b, nil, 0)
}

func (c *TermCtx) ite0(p, a, b *Term) *Term {
	if p == c.T {
		return a
	}
	if p == c.F {
		return b
	}
	if a == b {
		return a
	}
	if p.op == ONot {
		return c.Ite(p.a, b, a)
	}
	if a.w == 0 {
		if a == c.T {
			return c.Or(p, b)
		}
		if a == c.F {
			return c.And(c.Not(p), b)
		}
		if b == c.T {
			return c.Or(c.Not(p), a)
		}
		if b == c.F {
			return c.And(p, a)
		}
	}
	if a.op == OIte && a.a == p {
		a = a.b
	}
	if b.op == OIte && b.a == p {
		b = b.c
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, p, a, b, 0)
}

// Cheap unsigned interval of a term, computed once when it is built.
func ubound(t *Term) uint64 { return t.ub }
func lbound(t *Term) uint64 { return t.lb }

func pow2m1(x uint64) uint64 { return uint64(1)<<bits.Len64(x) - 1 }

func (t *Term) setBounds() {
	m := mask(t.w)
	t.lb, t.ub = 0, m
	switch t.op {
	case OConst:
		t.lb, t.ub = t.k, t.k
	case OZext:
		t.lb, t.ub = t.a.lb, t.a.ub
	case OSext:
		if t.a.ub < uint64(1)<<(t.a.w-1) {
			t.lb, t.ub = t.a.lb, t.a.ub
		}
	case OExtract:
		if t.k&0xff == 0 && t.a.ub <= m {
			t.lb, t.ub = t.a.lb, t.a.ub
		}
	case OIte:
		t.lb, t.ub = min(t.b.lb, t.c.lb), max(t.b.ub, t.c.ub)
	case OBAnd:
		t.ub = min(t.a.ub, t.b.ub)
	case OBOr:
		t.ub = pow2m1(t.a.ub | t.b.ub)
		t.lb = max(t.a.lb, t.b.lb)
	case OBXor:
		t.ub = pow2m1(t.a.ub | t.b.ub)
	case OUrem:
		if t.b.isConst() && t.b.k > 0 {
			t.ub = min(t.b.k-1, t.a.ub)
		}
	case OUdiv:
		if t.b.isConst() && t.b.k > 0 {
			t.lb, t.ub = t.a.lb/t.b.k, t.a.ub/t.b.k
		}
	case OLshr:
		if t.b.isConst() && t.b.k < 64 {
			t.lb, t.ub = t.a.lb>>t.b.k, t.a.ub>>t.b.k
		}
	case OShl:
		if t.b.isConst() && t.b.k < 64 {
			if hi := t.a.ub << t.b.k; hi>>t.b.k == t.a.ub && hi <= m {
				t.lb, t.ub = t.a.lb<<t.b.k, hi
			}
		}
	case OAdd:
		s, carry := bits.Add64(t.a.ub, t.b.ub, 0)
		if carry == 0 && s <= m {
			t.lb, t.ub = t.a.lb+t.b.lb, s
		} else if t.b.isConst() && t.b.k > m>>1 {
			// adding a negative constant
			neg := (^t.b.k + 1) & m
			if t.a.lb >= neg {
				t.lb, t.ub = t.a.lb-neg, t.a.ub-neg
			}
		}
	case OSub:
		if t.a.lb >= t.b.ub {
			t.lb, t.ub = t.a.lb-t.b.ub, t.a.ub-t.b.lb
		}
	case OMul:
		hi, lo := bits.Mul64(t.a.ub, t.b.ub)
		if hi == 0 && lo <= m {
			t.lb, t.ub = t.a.lb*t.b.lb, lo
		}
	}
}

// plus views t as x + k, when that cannot overflow.
func (t *Term) plus() (x *Term, k uint64, ok bool) {
	if t.op != OAdd || !t.b.isConst() {
		return nil, 0, false
	}
	s, carry := bits.Add64(t.a.ub, t.b.k, 0)
	return t.a, t.b.k, carry == 0 && s <= mask(t.w)
}

// addend is y when t is x + y and that cannot overflow.
func (t *Term) addend(x *Term) *Term {
	if t.op != OAdd || t.a.ub > mask(t.w)-t.b.ub {
		return nil
	}
	if t.a == x {
		return t.b
	}
	if t.b == x {
		return t.a
	}
	return nil
}

// split views t as x*k + y with y < k, when that cannot overflow.
func (t *Term) split() (x *Term, k uint64, y *Term) {
	mul := func(m *Term) bool { return m.op == OMul && m.b.isConst() && m.b.k > 1 }
	if mul(t) {
		if hi, lo := bits.Mul64(t.a.ub, t.b.k); hi == 0 && lo <= mask(t.w) {
			return t.a, t.b.k, nil
		}
		return nil, 0, nil
	}
	if t.op != OAdd {
		return nil, 0, nil
	}
	a, b := t.a, t.b
	if !mul(a) {
		a, b = b, a
	}
	if !mul(a) || b.ub >= a.b.k {
		return nil, 0, nil
	}
	hi, lo := bits.Mul64(a.a.ub, a.b.k)
	s, carry := bits.Add64(lo, b.ub, 0)
	if hi != 0 || carry != 0 || s > mask(t.w) {
		return nil, 0, nil
	}
	return a.a, a.b.k, b
}

// decimal simplifies quotients and remainders of numbers read digit by digit.
func (c *TermCtx) decimal(op Op, a, b *Term) *Term {
	if !b.isConst() || b.k < 2 || op != OUdiv && op != OUrem {
		return nil
	}
	x, k, y := a.split()
	if x == nil || b.k%k != 0 && k%b.k != 0 {
		return nil
	}
	w := a.w
	if k%b.k == 0 && k != b.k {
		if y == nil {
			y = c.Const(0, w)
		}
		// x*k is a multiple of b
		if op == OUrem {
			return c.Bin(OUrem, y, b)
		}
		return c.Bin(OAdd, c.Bin(OMul, x, c.Const(k/b.k, w)), c.Bin(OUdiv, y, b))
	}
	q := c.Const(b.k/k, w)
	if op == OUdiv {
		return c.Bin(OUdiv, x, q)
	}
	r := c.Bin(OMul, c.Bin(OUrem, x, q), c.Const(k, w))
	if y != nil {
		r = c.Bin(OAdd, r, y)
	}
	return r
}

func (c *TermCtx) ult0(a, b *Term) *Term {
	if ubound(a) < lbound(b) {
		return c.T
	}
	if lbound(a) >= ubound(b) {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k < b.k)
	}
	if a == b {
		return c.F
	}
	if b.isConst() {
		if b.k == 0 {
			return c.F
		}
		if ubound(a) < b.k {
			return c.T
		}
	}
	if a.isConst() {
		if a.k == mask(a.w) || ubound(b) <= a.k {
			return c.F
		}
	}
	if b.isConst() && a.op != OConst {
		if x, k, y := a.split(); x != nil {
			// x*k+y < q*k+r
			q, r := b.k/k, b.k%k
			lt := c.Ult(x, c.Const(q, a.w))
			if r == 0 {
				return lt
			}
			if y == nil {
				return c.Ult(x, c.Const(q+1, a.w))
			}
			return c.Or(lt, c.And(c.Eq(x, c.Const(q, a.w)), c.Ult(y, c.Const(r, a.w))))
		}
	}
	if a.isConst() {
		if x, k, y := b.split(); x != nil {
			// q*k+r < x*k+y
			q, r := a.k/k, a.k%k
			gt := c.Ult(c.Const(q, a.w), x)
			if y == nil {
				return gt
			}
			return c.Or(gt, c.And(c.Eq(x, c.Const(q, a.w)), c.Ult(c.Const(r, a.w), y)))
		}
	}
	// x + y, which cannot overflow, against x
	if a.addend(b) != nil {
		return c.F
	}
	if y := b.addend(a); y != nil {
		return c.Ult(c.Const(0, y.w), y)
	}
	// constants added on one side
	if b.isConst() {
		if x, k, ok := a.plus(); ok {
			if b.k <= k {
				return c.F
			}
			return c.Ult(x, c.Const(b.k-k, a.w))
		}
	}
	if a.isConst() {
		if x, k, ok := b.plus(); ok {
			if a.k < k {
				return c.T
			}
			return c.Ult(c.Const(a.k-k, a.w), x)
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if a.op == OZext && b.isConst() {
		return c.Ult(a.a, c.Const(b.k, a.a.w)) // b.k <= mask since ubound(a) >= b.k
	}
	if b.op == OZext && a.isConst() {
		return c.Ult(c.Const(a.k, b.a.w), b.a)
	}
	return c.mk(OUlt, 0, a, b, nil, 0)
}

func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TermCtx) slt0(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Bool(sext(a.k, w) < sext(b.k, w))
	}
	if a == b {
		return c.F
	}
	half := uint64(1) << (w - 1)
	if ubound(a) < half && ubound(b) < half {
		return c.Ult(a, b)
	}
	if b.isConst() && b.k == half {
		return c.F
	}
	// const negative vs non-negative
	if a.isConst() && a.k >= half && ubound(b) < half {
		return c.T
	}
	if b.isConst() && b.k >= half && ubound(a) < half {
		return c.F
	}
	return c.mk(OSlt, 0, a, b, nil, 0)
}

func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSdiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSrem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

func (c *TermCtx) bin0(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		v, _ := foldBin(op, w, a.k, b.k)
		return c.Const(v, w)
	}
	if r := c.decimal(op, a, b); r != nil {
		return r
	}
	if (op == OUdiv || op == OUrem) && b.isConst() && b.k > 0 && w > 8 {
		need := uint8(bits.Len64(ubound(a) | b.k))
		for _, nw := range []uint8{8, 16, 32} {
			if need <= nw && nw < w {
				return c.Resize(c.Bin(op, c.Resize(a, nw, false), c.Const(b.k, nw)), w, false)
			}
		}
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return c.Bin(OAdd, a.a, c.Const(a.b.k+b.k, w))
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				return c.Ite(a.a, c.Const(a.b.k+b.k, w), c.Const(a.c.k+b.k, w))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if b.isConst() {
			return c.Bin(OAdd, a, c.Const(-b.k, w))
		}
		if a == b {
			return c.Const(0, w)
		}
		if a.op == OAdd && a.a == b {
			return a.b
		}
		if a.op == OAdd && a.b == b {
			return a.a
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch b.k {
			case 0:
				return b
			case 1:
				return a
			}
		}
	case OUdiv, OSdiv:
		if b.isConst() && b.k == 1 {
			return a
		}
		if b.isConst() && op == OSdiv && ubound(a) < uint64(1)<<(w-1) && b.k < uint64(1)<<(w-1) {
			return c.Bin(OUdiv, a, b)
		}
		if op == OUdiv && b.isConst() && ubound(a) < b.k {
			return c.Const(0, w)
		}
	case OUrem, OSrem:
		if b.isConst() && op == OSrem && ubound(a) < uint64(1)<<(w-1) && b.k < uint64(1)<<(w-1) {
			return c.Bin(OUrem, a, b)
		}
		if op == OUrem && b.isConst() && ubound(a) < b.k {
			return a
		}
		if b.isConst() && b.k == 1 {
			return c.Const(0, w)
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if ubound(a) < b.k&-b.k {
				return c.Const(0, w)
			}
			if ub := ubound(a); ub <= b.k && (b.k+1)&b.k == 0 {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if a == b {
			return a
		}
	case OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if a == b {
			return c.Const(0, w)
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.k == 0 {
			return a
		}
		if b.isConst() && b.k >= uint64(w) && op != OAshr {
			return c.Const(0, w)
		}
		if op == OAshr && ubound(a) < uint64(1)<<(w-1) {
			return c.Bin(OLshr, a, b)
		}
		if op == OLshr && b.isConst() && ubound(a)>>b.k == 0 {
			return c.Const(0, w)
		}
	}
	return c.mk(op, w, a, b, nil, 0)
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.Const(^a.k, a.w)
	}
	return c.mk(OBNot, a.w, a, nil, nil, 0)
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.Const(-a.k, a.w)
	}
	return c.mk(ONeg, a.w, a, nil, nil, 0)
}

// Resize converts to width w, sign- or zero-extending.
func (c *TermCtx) resize0(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return c.Const(uint64(sext(a.k, a.w)), w)
		}
		return c.Const(a.k, w)
	}
	if w < a.w {
		if (a.op == OZext || a.op == OSext) && a.a.w == w {
			return a.a
		}
		if (a.op == OZext || a.op == OSext) && a.a.w < w {
			return c.Resize(a.a, w, a.op == OSext)
		}
		if (a.op == OZext || a.op == OSext) && a.a.w > w {
			return c.Resize(a.a, w, false)
		}
		switch a.op {
		case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
			return c.Bin(a.op, c.Resize(a.a, w, false), c.Resize(a.b, w, false))
		case OIte:
			return c.Ite(a.a, c.Resize(a.b, w, false), c.Resize(a.c, w, false))
		}
		return c.mk(OExtract, w, a, nil, nil, uint64(w-1)<<8)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return c.Ite(a.a, c.Resize(a.b, w, signed), c.Resize(a.c, w, signed))
	}
	if signed && a.op != OZext && ubound(a) >= uint64(1)<<(a.w-1) {
		return c.mk(OSext, w, a, nil, nil, 0)
	}
	if a.op == OZext {
		return c.Resize(a.a, w, false)
	}
	if a.op == OExtract && a.k&0xff == 0 && ubound(a.a) <= mask(a.w) {
		return c.Resize(a.a, w, false)
	}
	return c.mk(OZext, w, a, nil, nil, 0)
}

// Eval evaluates t under assignment (index by var index; missing = 0).
func (c *TermCtx) Eval(t *Term, m []uint64) uint64 {
	c.evalGen++
	return c.eval(t, m)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) eval(t *Term, m []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		if int(t.k) < len(m) {
			return m[t.k] & mask(t.w)
		}
		return 0
	}
	if t.evalGen == c.evalGen {
		return t.evalVal
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - c.eval(t.a, m)
	case OAnd:
		r = c.eval(t.a, m)
		if r != 0 {
			r = c.eval(t.b, m)
		}
	case OOr:
		r = c.eval(t.a, m)
		if r == 0 {
			r = c.eval(t.b, m)
		}
	case OXor:
		r = c.eval(t.a, m) ^ c.eval(t.b, m)
	case OEq:
		r = b2u(c.eval(t.a, m) == c.eval(t.b, m))
	case OUlt:
		r = b2u(c.eval(t.a, m) < c.eval(t.b, m))
	case OUle, OUle0:
		r = b2u(c.eval(t.a, m) <= c.eval(t.b, m))
	case OSlt:
		r = b2u(sext(c.eval(t.a, m), t.a.w) < sext(c.eval(t.b, m), t.a.w))
	case OSle:
		r = b2u(sext(c.eval(t.a, m), t.a.w) <= sext(c.eval(t.b, m), t.a.w))
	case OIte:
		if c.eval(t.a, m) != 0 {
			r = c.eval(t.b, m)
		} else {
			r = c.eval(t.c, m)
		}
	case OBNot:
		r = ^c.eval(t.a, m) & mask(t.w)
	case ONeg:
		r = -c.eval(t.a, m) & mask(t.w)
	case OExtract:
		r = (c.eval(t.a, m) >> (t.k & 0xff)) & mask(t.w)
	case OZext:
		r = c.eval(t.a, m)
	case OSext:
		r = uint64(sext(c.eval(t.a, m), t.a.w)) & mask(t.w)
	case OConcat:
		r = c.eval(t.a, m)<<t.b.w | c.eval(t.b, m)
	default:
		r, _ = foldBin(t.op, t.w, c.eval(t.a, m), c.eval(t.b, m))
	}
	t.evalGen = c.evalGen
	t.evalVal = r
	return r
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// ref is how the term is referred to inside another term's definition.
func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 0 {
				return "false"
			}
			return "true"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.k)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&0xff, t.a.ref())
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			b.WriteByte(' ')
			b.WriteString(x.ref())
		}
	}
	b.WriteByte(')')
	return b.String()
}

// dump prints t to the given depth, for debugging.
func (t *Term) dump(d int) string {
	if t == nil {
		return ""
	}
	switch {
	case t.op == OConst:
		return fmt.Sprintf("%d", t.k)
	case t.op == OVar:
		return t.name
	case d == 0:
		return "..."
	}
	s := fmt.Sprintf("(op%d", t.op)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.dump(d-1)
		}
	}
	return s + ")"
}
