package main

import (
	"fmt"
	"time"
)

// Terms over symbolic values are simplified as they are built, so many
// conditions are decided before a query is made. Every such rewrite is kept
// as an obligation, "the operation equals its simplified form for all values",
// which the solver discharges when exploration ends (within two seconds per
// worker; the evidence says how many).

const maxCerts = 6000

type cert struct {
	raw *Term // not interned
	r   *Term
}

func (c *TermCtx) note(op Op, w uint8, a, b, d *Term, k uint64, r *Term) {
	if a.isConst() && (b == nil || b.isConst()) && (d == nil || d.isConst()) {
		return
	}
	if r.op == op && r.a == a && r.b == b && r.c == d || r.op == op && r.a == b && r.b == a && r.c == d {
		return
	}
	key := termKey{op, w, tid(a), tid(b), tid(d), k}
	if c.certSeen[key] || len(c.certs) >= maxCerts {
		return
	}
	c.certSeen[key] = true
	c.certs = append(c.certs, cert{&Term{op: op, w: w, a: a, b: b, c: d, k: k}, r})
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	r := c.eq0(a, b)
	if a != b {
		c.note(OEq, 0, a, b, nil, 0, r)
	}
	return r
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	r := c.ult0(a, b)
	c.note(OUlt, 0, a, b, nil, 0, r)
	return r
}

func (c *TermCtx) Slt(a, b *Term) *Term {
	r := c.slt0(a, b)
	c.note(OSlt, 0, a, b, nil, 0, r)
	return r
}

func (c *TermCtx) And(a, b *Term) *Term {
	r := c.and0(a, b)
	if !a.isConst() && !b.isConst() {
		c.note(OAnd, 0, a, b, nil, 0, r)
	}
	return r
}

func (c *TermCtx) Or(a, b *Term) *Term {
	r := c.or0(a, b)
	if !a.isConst() && !b.isConst() {
		c.note(OOr, 0, a, b, nil, 0, r)
	}
	return r
}

func (c *TermCtx) Ite(p, a, b *Term) *Term {
	r := c.ite0(p, a, b)
	if !p.isConst() && a != b {
		c.note(OIte, a.w, p, a, b, 0, r)
	}
	return r
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	r := c.bin0(op, a, b)
	c.note(op, a.w, a, b, nil, 0, r)
	return r
}

func (c *TermCtx) Resize(a *Term, w uint8, signed bool) *Term {
	r := c.resize0(a, w, signed)
	switch {
	case w < a.w:
		c.note(OExtract, w, a, nil, nil, uint64(w-1)<<8, r)
	case w > a.w && signed:
		c.note(OSext, w, a, nil, nil, 0, r)
	case w > a.w:
		c.note(OZext, w, a, nil, nil, 0, r)
	}
	return r
}

// certify discharges the recorded rewrites; it returns how many hold and a
// description of one that does not.
func (s *Solver) certify() (n int, bad string) {
	cs := s.tc.certs
	s.tc.certs = nil
	if len(cs) == 0 {
		return 0, ""
	}
	s.sync(nil)
	s.send("(push 1)\n")
	for _, v := range s.tc.vars {
		s.define(v)
		if v.ub != mask(v.w) {
			s.send(fmt.Sprintf("(assert (bvule %s (_ bv%d %d)))\n", v.ref(), v.ub, v.w))
		}
	}
	s.send("(set-option :timeout 400)\n")
	t0 := time.Now()
	for len(cs) > 0 && time.Since(t0) < 2*time.Second {
		m := min(len(cs), 50)
		q := ""
		for _, x := range cs[:m] {
			for _, t := range []*Term{x.raw.a, x.raw.b, x.raw.c, x.r} {
				if t != nil {
					s.define(t)
				}
			}
			q += " (distinct " + x.raw.body() + " " + x.r.ref() + ")"
		}
		s.send("(push 1)\n(assert (or false" + q + "))\n")
		r, _ := s.check(s.stack, nil, false)
		s.send("(pop 1)\n")
		if r == Unsat {
			n += m
		} else if r == Sat {
			bad = q
		} else {
			s.st.unknown-- // not a verdict a path depends on
		}
		cs = cs[m:]
	}
	s.send(fmt.Sprintf("(pop 1)\n(set-option :timeout %d)\n", solverTimeoutMs))
	return n, bad
}
