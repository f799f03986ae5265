package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// itoa renders an integer value in base 10, forking on sign and digit count.
func (m *Machine) itoa(v V, w uint8, signed bool) V {
	if v.x == nil {
		if signed {
			return strV(strconv.FormatInt(sext(v.n, w), 10))
		}
		return strV(strconv.FormatUint(v.n, 10))
	}
	t := v.x.(*Term)
	neg := false
	if signed && ubound(t) >= uint64(1)<<(w-1) {
		neg = m.branch(m.tc.Slt(t, m.tc.Const(0, w)))
		if neg {
			t = m.tc.Neg(t)
		}
	}
	if t.isConst() {
		s := strconv.FormatUint(t.k, 10)
		if neg {
			s = "-" + s
		}
		return strV(s)
	}
	nd := 1
	p := uint64(10)
	for nd < 20 && p <= mask(w) {
		if m.branch(m.tc.Ult(t, m.tc.Const(p, w))) {
			break
		}
		nd++
		if p > math.MaxUint64/10 {
			break
		}
		p *= 10
	}
	out := make([]V, 0, nd+1)
	if neg {
		out = append(out, V{n: '-'})
	}
	pw := uint64(1)
	for i := 1; i < nd; i++ {
		pw *= 10
	}
	for i := 0; i < nd; i++ {
		d := t
		if pw > 1 {
			d = m.tc.Bin(OUdiv, t, m.tc.Const(pw, w))
		}
		if i > 0 || ubound(d) >= 10 {
			d = m.tc.Bin(OUrem, d, m.tc.Const(10, w))
		}
		out = append(out, tV(m.tc.Bin(OAdd, m.tc.Resize(d, 8, false), m.tc.Const('0', 8))))
		pw /= 10
	}
	return bytesToStr(out)
}

// symFloat renders f(arg) with the given verb by splitting the range of arg
// into the intervals on which the printed text is constant (f monotone).
func (m *Machine) symFloat(s *SymF, spec string) V {
	lo, hi := lbound(s.arg), ubound(s.arg)
	if hi-lo > 1<<40 {
		return strV(fmt.Sprintf(spec, s.f(m.concretize(s.arg))))
	}
	// narrow by the path condition, doubling from the model value
	mono := func(x uint64) string { return fmt.Sprintf(spec, s.f(x)) }
	w := s.arg.w
	// find feasible bounds with the solver
	bound := func(isLo bool) uint64 {
		a, b := lo, hi
		for a < b {
			if isLo {
				mid := a + (b-a)/2
				r, _ := m.sol.Check(m.pc, m.tc.Ule(s.arg, m.tc.Const(mid, w)), m.model)
				if r == Unsat {
					a = mid + 1
				} else {
					b = mid
				}
			} else {
				mid := a + (b-a+1)/2
				r, _ := m.sol.Check(m.pc, m.tc.Ule(m.tc.Const(mid, w), s.arg), m.model)
				if r == Unsat {
					b = mid - 1
				} else {
					a = mid
				}
			}
		}
		return a
	}
	lo = bound(true)
	hi = bound(false)
	// fork on output length class, then bytes as ite chains over thresholds
	type seg struct {
		lo, hi uint64
		s      string
	}
	var segs []seg
	x := lo
	for {
		t := mono(x)
		// largest y in [x,hi] printing t (monotone)
		a, b := x, hi
		for a < b {
			mid := a + (b-a+1)/2
			if mono(mid) == t {
				a = mid
			} else {
				b = mid - 1
			}
		}
		segs = append(segs, seg{x, a, t})
		if a == hi {
			break
		}
		x = a + 1
		if len(segs) > 5000 {
			m.unsupported("symbolic float with too many renderings")
		}
	}
	// group consecutive segments of equal length
	for i := 0; i < len(segs); {
		j := i
		for j < len(segs) && len(segs[j].s) == len(segs[i].s) {
			j++
		}
		in := m.tc.Ule(s.arg, m.tc.Const(segs[j-1].hi, w))
		if j == len(segs) || m.branch(in) {
			n := len(segs[i].s)
			out := make([]V, n)
			for k := 0; k < n; k++ {
				r := m.tc.Const(uint64(segs[j-1].s[k]), 8)
				for q := j - 2; q >= i; q-- {
					c := m.tc.Const(uint64(segs[q].s[k]), 8)
					if q+1 < j && segs[q].s[k] == segs[q+1].s[k] {
						continue
					}
					r = m.tc.Ite(m.tc.Ule(s.arg, m.tc.Const(segs[q].hi, w)), c, r)
				}
				out[k] = tV(r)
			}
			return bytesToStr(out)
		}
		i = j
	}
	return strV("")
}

// runeCount counts runes; symbolic bytes are forked into ASCII or concretized.
func (m *Machine) runeCount(v V) int {
	if s, ok := concStr(v); ok {
		return utf8.RuneCountInString(s)
	}
	ss := v.x.(*SymStr)
	n := 0
	for i := 0; i < len(ss.b); {
		b := ss.b[i]
		if t, ok := b.x.(*Term); ok {
			if ubound(t) < 0x80 || m.branch(m.tc.Ult(t, m.tc.Const(0x80, 8))) {
				n++
				i++
				continue
			}
		} else if b.n < 0x80 {
			n++
			i++
			continue
		}
		// non-ASCII lead byte: concretize the remainder
		rest := make([]byte, 0, 4)
		for j := i; j < len(ss.b) && j < i+4; j++ {
			rest = append(rest, byte(m.concV(ss.b[j]).n))
		}
		_, sz := utf8.DecodeRune(rest)
		n++
		i += sz
	}
	return n
}

type fmtSpec struct {
	minus, plus, zero, sharp, space bool
	width, prec                     int
	hasW, hasP                      bool
}

func (m *Machine) pad(s V, sp fmtSpec) V {
	if !sp.hasW {
		return s
	}
	n := m.runeCount(s)
	if n >= sp.width {
		return s
	}
	fill := " "
	if sp.zero && !sp.minus {
		fill = "0"
		if c, ok := concStr(s); ok && len(c) > 0 && (c[0] == '-' || c[0] == '+') {
			return strV(c[:1] + strings.Repeat("0", sp.width-n) + c[1:])
		}
		if strLen(s) > 0 {
			if b := strAt(s, 0); b.x == nil && b.n == '-' {
				return strConcat(strConcat(strV("-"), strV(strings.Repeat("0", sp.width-n))), strSlice(s, 1, strLen(s)))
			}
		}
	}
	p := strV(strings.Repeat(fill, sp.width-n))
	if sp.minus {
		return strConcat(s, p)
	}
	return strConcat(p, s)
}

// callStr invokes a niladic method returning string.
func (g *G) methodStr(i *Iface, name string) (V, bool) {
	fn := g.m.P.findMethod(i.t, name)
	if fn == nil {
		return V{}, false
	}
	sg := fn.Signature
	if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !isString(sg.Results().At(0).Type()) {
		return V{}, false
	}
	return g.callFn(g.m.P.cfn(fn), []V{i.v}, nil), true
}

// fmtVal renders a value with %v-like rules.
func (g *G) fmtVal(v V, t types.Type, verb byte, sp fmtSpec, depth int) V {
	m := g.m
	if it, ok := under(t).(*types.Interface); ok {
		_ = it
		i, _ := v.x.(*Iface)
		if i == nil {
			return strV("<nil>")
		}
		return g.fmtVal(i.v, i.t, verb, sp, depth)
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if s, ok := g.methodStr(&Iface{t, v}, "Error"); ok {
			return s
		}
		if s, ok := g.methodStr(&Iface{t, v}, "String"); ok {
			return s
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return v
		case u.Info()&types.IsBoolean != 0:
			if m.branchV(v) {
				return strV("true")
			}
			return strV("false")
		case u.Info()&types.IsFloat != 0:
			bits := 64
			if u.Kind() == types.Float32 {
				bits = 32
			}
			return strV(strconv.FormatFloat(m.concF(v).f64(), 'g', -1, bits))
		case u.Kind() == types.UnsafePointer:
			return strV("0xc000000000")
		}
		w, s := intInfo(t)
		if w != 0 {
			return m.itoa(v, w, s)
		}
	case *types.Slice, *types.Array:
		var es []V
		var et types.Type
		if sl, ok := u.(*types.Slice); ok {
			es, _ = v.x.([]V)
			et = sl.Elem()
		} else {
			es = v.x.(*Agg).e
			et = u.(*types.Array).Elem()
		}
		if w, _ := intInfo(et); w == 8 && verb == 's' {
			return bytesToStr(es)
		}
		out := strV("[")
		for i, e := range es {
			if i > 0 {
				out = strConcat(out, strV(" "))
			}
			out = strConcat(out, g.fmtVal(e, et, verb, sp, depth+1))
		}
		return strConcat(out, strV("]"))
	case *types.Struct:
		out := strV("{")
		for i, e := range v.x.(*Agg).e {
			if i > 0 {
				out = strConcat(out, strV(" "))
			}
			if sp.plus {
				out = strConcat(out, strV(u.Field(i).Name()+":"))
			}
			out = strConcat(out, g.fmtVal(e, u.Field(i).Type(), verb, sp, depth+1))
		}
		return strConcat(out, strV("}"))
	case *types.Pointer:
		if v.x == nil {
			return strV("<nil>")
		}
		if depth == 0 {
			if p, ok := v.x.(*V); ok {
				switch under(u.Elem()).(type) {
				case *types.Struct, *types.Slice, *types.Array:
					return strConcat(strV("&"), g.fmtVal(*p, u.Elem(), verb, sp, depth+1))
				}
			}
		}
		return strV("0xc000000000")
	case *types.Map:
		mv, _ := v.x.(*MapV)
		out := "map["
		if mv != nil {
			m.unsupported("formatting a map")
		}
		return strV(out + "]")
	case *types.Signature, *types.Chan:
		if v.x == nil {
			return strV("<nil>")
		}
		return strV("0xc000000000")
	}
	m.unsupported("formatting " + t.String())
	return V{}
}

func (g *G) sprintf(format string, args []V) (V, []V) {
	m := g.m
	out := strV("")
	var wrapped []V
	arg := 0
	next := func() *Iface {
		if arg >= len(args) {
			arg++
			return nil
		}
		i, _ := args[arg].x.(*Iface)
		arg++
		return i
	}
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = strConcat(out, strV(format[i:]))
			break
		}
		if j > 0 {
			out = strConcat(out, strV(format[i:i+j]))
		}
		i += j + 1
		var sp fmtSpec
	flags:
		for i < len(format) {
			switch format[i] {
			case '-':
				sp.minus = true
			case '+':
				sp.plus = true
			case '#':
				sp.sharp = true
			case '0':
				sp.zero = true
			case ' ':
				sp.space = true
			default:
				break flags
			}
			i++
		}
		num := func() (int, bool) {
			if i < len(format) && format[i] == '*' {
				i++
				if a := next(); a != nil {
					return int(int64(m.concV(a.v).n)), true
				}
				return 0, false
			}
			s := i
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				i++
			}
			if s == i {
				return 0, false
			}
			n, _ := strconv.Atoi(format[s:i])
			return n, true
		}
		sp.width, sp.hasW = num()
		if sp.hasW && sp.width < 0 {
			sp.width, sp.minus = -sp.width, true
		}
		if i < len(format) && format[i] == '.' {
			i++
			sp.prec, sp.hasP = num()
			sp.hasP = true
		}
		if i >= len(format) {
			out = strConcat(out, strV("%!(NOVERB)"))
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			out = strConcat(out, strV("%"))
			continue
		}
		if arg >= len(args) {
			out = strConcat(out, strV("%!"+string(verb)+"(MISSING)"))
			arg++
			continue
		}
		ai := next()
		if ai == nil {
			if verb == 'v' || verb == 'w' {
				out = strConcat(out, m.pad(strV("<nil>"), sp))
			} else {
				out = strConcat(out, strV("%!"+string(verb)+"(<nil>)"))
			}
			if verb == 'w' {
				wrapped = append(wrapped, V{})
			}
			continue
		}
		var s V
		switch verb {
		case 'd', 'v', 's', 'w', 'q', 't':
			if verb == 'w' {
				wrapped = append(wrapped, V{x: ai})
			}
			if verb == 'd' {
				if w, sg := intInfo(ai.t); w != 0 {
					s = m.itoa(ai.v, w, sg)
					if sp.plus {
						if b := strAt(s, 0); b.n != '-' {
							s = strConcat(strV("+"), s)
						}
					}
					break
				}
				switch under(ai.t).(type) {
				case *types.Slice, *types.Array, *types.Struct, *types.Pointer:
					s = g.fmtVal(ai.v, ai.t, 'd', sp, 0)
				default:
					s = strConcat(strConcat(strV("%!d("+ai.t.String()+"="), g.fmtVal(ai.v, ai.t, 'v', sp, 0)), strV(")"))
				}
				break
			}
			if verb == 's' {
				if w, sg := intInfo(ai.t); w != 0 {
					if _, has := g.methodStr(ai, "String"); !has {
						if _, has := g.methodStr(ai, "Error"); !has {
							s = strConcat(strConcat(strV("%!s("+ai.t.String()+"="), m.itoa(ai.v, w, sg)), strV(")"))
							break
						}
					}
				}
			}
			s = g.fmtVal(ai.v, ai.t, verb, sp, 0)
			if sp.hasP && (verb == 's' || verb == 'v' || verb == 'q') && isString(ai.t) {
				if m.runeCount(s) > sp.prec {
					if c, ok := concStr(s); ok {
						s = strV(string([]rune(c)[:sp.prec]))
					} else {
						s = strSlice(s, 0, sp.prec)
					}
				}
			}
			if verb == 'q' {
				if c, ok := concStr(s); ok {
					s = strV(strconv.Quote(c))
				} else {
					s = strConcat(strConcat(strV("\""), s), strV("\""))
				}
			}
		case 'x', 'X':
			if w, sg := intInfo(ai.t); w != 0 {
				v := m.concV(ai.v)
				if sg {
					s = strV(strconv.FormatInt(sext(v.n, w), 16))
				} else {
					s = strV(strconv.FormatUint(v.n, 16))
				}
			} else {
				var b []V
				if isString(ai.t) {
					b = strBytes(ai.v)
				} else {
					b, _ = ai.v.x.([]V)
				}
				var sb strings.Builder
				for _, x := range b {
					fmt.Fprintf(&sb, "%02x", byte(m.concV(x).n))
				}
				s = strV(sb.String())
			}
			if verb == 'X' {
				c, _ := concStr(s)
				s = strV(strings.ToUpper(c))
			}
		case 'c':
			s = strV(string(rune(int32(m.concV(ai.v).n))))
		case 'T':
			s = strV(ai.t.String())
		case 'p':
			s = strV("0xc000000000")
		case 'f', 'g', 'e', 'F', 'G':
			spec := "%"
			if sp.hasP {
				spec += "." + strconv.Itoa(sp.prec)
			}
			spec += string(verb)
			if sf, ok := ai.v.x.(*SymF); ok {
				s = m.symFloat(sf, spec)
			} else if isFloat(ai.t) {
				if isFloat32(ai.t) {
					s = strV(fmt.Sprintf(spec, float32(ai.v.f64())))
				} else {
					s = strV(fmt.Sprintf(spec, ai.v.f64()))
				}
			} else {
				s = strV("%!" + string(verb) + "(?)")
			}
		default:
			m.unsupported("format verb %" + string(verb))
		}
		out = strConcat(out, m.pad(s, sp))
	}
	if arg < len(args) {
		out = strConcat(out, strV("%!(EXTRA)"))
	}
	return out, wrapped
}

func (g *G) sprint(args []V, ln bool) V {
	out := strV("")
	prevStr := true
	for i, a := range args {
		ai, _ := a.x.(*Iface)
		isStr := ai != nil && isString(ai.t)
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = strConcat(out, strV(" "))
		}
		if ai == nil {
			out = strConcat(out, strV("<nil>"))
		} else {
			out = strConcat(out, g.fmtVal(ai.v, ai.t, 'v', fmtSpec{}, 0))
		}
		prevStr = isStr
	}
	if ln {
		out = strConcat(out, strV("\n"))
	}
	return out
}
