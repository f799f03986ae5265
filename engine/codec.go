package main

import (
	"fmt"
	"go/types"
	"reflect"
)

// Structural codec standing in for encoding/gob: every value is written as
// length-free, type-directed bytes; the decoder fails on short input.

func (m *Machine) encode(v V, t types.Type, out []V) []V {
	put := func(n uint64, k int) {
		for i := 0; i < k; i++ {
			out = append(out, V{n: n >> (8 * i) & 0xff})
		}
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time" {
		// like gob: the instant and the zone offset, at one-second resolution
		sec := m.callMethod(t, "Unix", v)
		out = m.encode(sec, types.Typ[types.Int64], out)
		z := m.callMethod(t, "Zone", v).x.(*Agg)
		return m.encode(z.e[1], types.Typ[types.Int64], out)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			b := strBytes(v)
			put(uint64(len(b)), 2)
			return append(out, b...)
		}
		if u.Info()&types.IsBoolean != 0 {
			if tt, ok := v.x.(*Term); ok {
				v = tV(m.tc.Ite(tt, m.tc.Const(1, 8), m.tc.Const(0, 8)))
			}
			return append(out, v)
		}
		if u.Info()&types.IsFloat != 0 {
			put(m.concF(v).n, 8)
			return out
		}
		w, _ := intInfo(t)
		if tt, ok := v.x.(*Term); ok {
			start := len(out)
			defer func() {
				if len(out) > start {
					if k, ok := out[start].x.(*Term); ok {
						m.side[packKey{k, w}] = &packed{tt, append([]V(nil), out[start:]...)}
					}
				}
			}()
			for i := uint8(0); i < w/8; i++ {
				out = append(out, tV(m.tc.Resize(m.tc.Bin(OLshr, tt, m.tc.Const(uint64(i)*8, w)), 8, false)))
			}
			return out
		}
		put(v.n, int(w/8))
		return out
	case *types.Struct:
		a := v.x.(*Agg)
		for i := range a.e {
			if u.Field(i).Exported() && !m.jsonSkip(u, i) {
				out = m.encode(a.e[i], u.Field(i).Type(), out)
			}
		}
		return out
	case *types.Array:
		for _, e := range v.x.(*Agg).e {
			out = m.encode(e, u.Elem(), out)
		}
		return out
	case *types.Slice:
		s, _ := v.x.([]V)
		put(uint64(len(s)), 2)
		for _, e := range s {
			out = m.encode(e, u.Elem(), out)
		}
		return out
	case *types.Pointer:
		if v.x == nil {
			return append(out, V{n: 0})
		}
		out = append(out, V{n: 1})
		return m.encode(*v.x.(*V), u.Elem(), out)
	case *types.Map:
		mv, _ := v.x.(*MapV)
		if mv == nil {
			put(0, 2)
			return out
		}
		put(uint64(mv.n), 2)
		for _, e := range mv.ents {
			if e.live {
				out = m.encode(e.k, u.Key(), out)
				out = m.encode(e.v, u.Elem(), out)
			}
		}
		return out
	}
	m.unsupported("encode " + t.String())
	return nil
}

// jsonSkip tells whether encoding/json leaves field i out.
func (m *Machine) jsonSkip(u *types.Struct, i int) bool {
	return m.json && reflect.StructTag(u.Tag(i)).Get("json") == "-"
}

type decoder struct {
	m   *Machine
	b   []V
	err string
}

func (d *decoder) take(n int) []V {
	if d.err != "" || len(d.b) < n {
		if d.err == "" {
			d.err = "unexpected EOF"
		}
		z := make([]V, n)
		return z
	}
	r := d.b[:n]
	d.b = d.b[n:]
	return r
}

func (d *decoder) uint(k int) uint64 {
	var n uint64
	for i, b := range d.take(k) {
		n |= d.m.concV(b).n << (8 * i)
	}
	return n
}

// isZeroV tells whether a value is certainly its type's zero value.
func isZeroV(v V, t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strLen(v) == 0
		}
		return v.x == nil && v.n == 0
	case *types.Slice:
		s, _ := v.x.([]V)
		return len(s) == 0
	case *types.Struct:
		a, _ := v.x.(*Agg)
		if a == nil {
			return true
		}
		for i := range a.e {
			if !isZeroV(a.e[i], u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		a, _ := v.x.(*Agg)
		if a == nil {
			return true
		}
		for i := range a.e {
			if !isZeroV(a.e[i], u.Elem()) {
				return false
			}
		}
		return true
	}
	return v.x == nil
}

// over decodes a t over what is there, as gob does: zero fields are not sent,
// so they keep their value, and slices are filled in place when they fit.
func (d *decoder) over(t types.Type, old V, field bool) V {
	m := d.m
	field = field && !m.json // JSON sends zero values, too
	isTime := false
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
		isTime = true
	}
	switch u := under(t).(type) {
	case *types.Struct:
		if isTime {
			break
		}
		a := newAgg(u.NumFields())
		oa, _ := old.x.(*Agg)
		for i := range a.e {
			f := u.Field(i)
			var o V
			if oa != nil {
				o = oa.e[i]
			} else {
				o = zero(f.Type())
			}
			if !f.Exported() || m.jsonSkip(u, i) {
				a.e[i] = o
				continue
			}
			a.e[i] = d.over(f.Type(), o, true)
		}
		return V{x: a}
	case *types.Slice:
		os, _ := old.x.([]V)
		n := int(d.uint(2))
		if n > len(d.b) {
			if d.err == "" {
				d.err = "unexpected EOF"
			}
			n = 0
		}
		if n == 0 {
			if field {
				return old
			}
			if os == nil {
				return V{}
			}
			return V{x: os[:0]}
		}
		var s []V
		if cap(os) >= n && os != nil {
			s = os[:n]
			for i := range s {
				m.storeTo(&s[i], d.over(u.Elem(), s[i], false))
			}
		} else {
			s = make([]V, n)
			for i := range s {
				s[i] = d.over(u.Elem(), zero(u.Elem()), false)
			}
		}
		return V{x: s}
	}
	v := d.value(t)
	if !field || isTime || isZeroV(old, t) {
		return v
	}
	if b, ok := under(t).(*types.Basic); ok {
		if tt, ok := v.x.(*Term); ok && b.Info()&types.IsString == 0 {
			if tt.w == 0 {
				return tV(m.tc.Or(tt, m.term(old, 0)))
			}
			return tV(m.tc.Ite(m.tc.Eq(tt, m.tc.Const(0, tt.w)), m.term(old, tt.w), tt))
		}
		if isZeroV(v, t) {
			return old
		}
	}
	return v
}

func (d *decoder) value(t types.Type) V {
	m := d.m
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time" {
		sec := d.value(types.Typ[types.Int64])
		d.value(types.Typ[types.Int64])
		if d.err != "" {
			return zero(t)
		}
		return m.cur.callFn(m.P.fnByName("time.Unix"), []V{sec, {}}, nil)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			n := int(d.uint(2))
			if n > len(d.b) {
				d.err = "unexpected EOF"
				return strV("")
			}
			return bytesToStr(append([]V(nil), d.take(n)...))
		}
		if u.Info()&types.IsBoolean != 0 {
			b := d.take(1)[0]
			if tt, ok := b.x.(*Term); ok {
				return tV(m.tc.Not(m.tc.Eq(tt, m.tc.Const(0, 8))))
			}
			return boolV(b.n != 0)
		}
		if u.Info()&types.IsFloat != 0 {
			return V{n: d.uint(8)}
		}
		w, _ := intInfo(t)
		bs := d.take(int(w / 8))
		var acc *Term
		sym := false
		for _, b := range bs {
			if b.x != nil {
				sym = true
			}
		}
		if !sym {
			var n uint64
			for i, b := range bs {
				n |= b.n << (8 * i)
			}
			return V{n: n}
		}
		// recognise the bytes of one encoded term
		if o := m.originTerm(bs, w); o != nil {
			return tV(o)
		}
		acc = m.tc.Const(0, w)
		for i, b := range bs {
			x := m.tc.Resize(m.term(b, 8), w, false)
			acc = m.tc.Bin(OBOr, acc, m.tc.Bin(OShl, x, m.tc.Const(uint64(i)*8, w)))
		}
		return tV(acc)
	case *types.Struct:
		a := newAgg(u.NumFields())
		for i := range a.e {
			if !u.Field(i).Exported() || m.jsonSkip(u, i) {
				a.e[i] = zero(u.Field(i).Type())
				continue
			}
			a.e[i] = d.value(u.Field(i).Type())
		}
		return V{x: a}
	case *types.Array:
		a := newAgg(int(u.Len()))
		for i := range a.e {
			a.e[i] = d.value(u.Elem())
		}
		return V{x: a}
	case *types.Slice:
		n := int(d.uint(2))
		if n > len(d.b) {
			if d.err == "" {
				d.err = "unexpected EOF"
			}
			n = 0
		}
		if n == 0 {
			return V{} // gob decodes empty slices as nil
		}
		s := make([]V, n)
		for i := range s {
			s[i] = d.value(u.Elem())
		}
		return V{x: s}
	case *types.Pointer:
		if d.uint(1) == 0 {
			return V{}
		}
		v := d.value(u.Elem())
		return ptrV(&v)
	case *types.Map:
		n := int(d.uint(2))
		mv := m.newMap(u.Key())
		for i := 0; i < n && d.err == ""; i++ {
			k := d.value(u.Key())
			v := d.value(u.Elem())
			m.mapSet(mv, k, v)
		}
		return V{x: mv}
	}
	m.unsupported("decode " + t.String())
	return V{}
}

// originTerm recognises a little-endian byte split of a single term.
func (m *Machine) originTerm(bs []V, w uint8) *Term {
	k, ok := bs[0].x.(*Term)
	if !ok {
		return nil
	}
	p, ok := m.side[packKey{k, w}].(*packed)
	if !ok {
		return nil
	}
	for i, b := range bs {
		if b != p.b[i] {
			return nil
		}
	}
	return p.t
}

type packKey struct {
	t *Term
	w uint8
}

type packed struct {
	t *Term
	b []V
}

func (m *Machine) callMethod(t types.Type, name string, recv V, args ...V) V {
	fn := m.P.findMethod(t, name)
	if fn == nil {
		m.unsupported(fmt.Sprintf("method %s of %s", name, t))
	}
	return m.cur.callFn(m.P.cfn(fn), append([]V{recv}, args...), nil)
}
