package main

import (
	"regexp"
	"regexp/syntax"
	"sync"
	"unicode"
	"unicode/utf8"
)

// ---- regexp: host objects; concrete subjects use the host engine, symbolic
// subjects are decided by an NFA encoded as terms or by a forking backtracker.

type rx struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	src  string
}

var rxCache sync.Map

func newRx(s string) (*rx, error) {
	if x, ok := rxCache.Load(s); ok {
		return x.(*rx), nil
	}
	x, err := newRx1(s)
	if err == nil && len(s) < 4096 {
		rxCache.Store(s, x)
	}
	return x, err
}

func newRx1(s string) (*rx, error) {
	re, err := regexp.Compile(s)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, err
	}
	pr, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	return &rx{re, pr, s}, nil
}

// runeCond is the condition that instruction in matches byte b (ASCII).
func (m *Machine) runeCond(in *syntax.Inst, b V) V {
	if b.x == nil {
		return boolV(matchRune(in, rune(b.n)))
	}
	t := m.term(b, 8)
	c := m.tc.F
	// ASCII ranges matched by the instruction
	for lo := 0; lo < 128; {
		if !matchRune(in, rune(lo)) {
			lo++
			continue
		}
		hi := lo
		for hi+1 < 128 && matchRune(in, rune(hi+1)) {
			hi++
		}
		var r *Term
		if lo == hi {
			r = m.tc.Eq(t, m.tc.Const(uint64(lo), 8))
		} else {
			r = m.tc.And(m.tc.Ule(m.tc.Const(uint64(lo), 8), t), m.tc.Ule(t, m.tc.Const(uint64(hi), 8)))
		}
		c = m.tc.Or(c, r)
		lo = hi + 1
	}
	return tV(c)
}

func matchRune(in *syntax.Inst, r rune) bool {
	switch in.Op {
	case syntax.InstRuneAny:
		return true
	case syntax.InstRuneAnyNotNL:
		return r != '\n'
	}
	return in.MatchRune(r)
}

func (x *rx) simpleEmpty() bool {
	for _, in := range x.prog.Inst {
		if in.Op == syntax.InstEmptyWidth {
			e := syntax.EmptyOp(in.Arg)
			if e&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				return false
			}
		}
	}
	return true
}

// matchTerm encodes "x matches somewhere in s" without forking.
func (m *Machine) rxMatch(x *rx, s V) V {
	if c, ok := concStr(s); ok {
		return boolV(x.re.MatchString(c))
	}
	bs := s.x.(*SymStr).b
	ok := x.simpleEmpty()
	for _, b := range bs {
		if t, sym := b.x.(*Term); sym {
			if ubound(t) >= 0x80 {
				ok = false
			}
		} else if b.n >= 0x80 {
			ok = false
		}
	}
	if !ok {
		return boolV(m.rxFind(x, s, 0) != nil)
	}
	n := len(bs)
	cur := make([]*Term, len(x.prog.Inst))
	matched := m.tc.F
	var add func(pc uint32, cond *Term, pos int, set []*Term, seen map[uint32]bool)
	add = func(pc uint32, cond *Term, pos int, set []*Term, seen map[uint32]bool) {
		if cond == m.tc.F || seen[pc] {
			return
		}
		in := &x.prog.Inst[pc]
		seen[pc] = true
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(in.Out, cond, pos, set, seen)
			add(in.Arg, cond, pos, set, seen)
		case syntax.InstCapture, syntax.InstNop:
			add(in.Out, cond, pos, set, seen)
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(in.Arg)
			if e&syntax.EmptyBeginText != 0 && pos != 0 || e&syntax.EmptyEndText != 0 && pos != n {
				break
			}
			add(in.Out, cond, pos, set, seen)
		case syntax.InstMatch:
			matched = m.tc.Or(matched, cond)
		case syntax.InstFail:
		default:
			if set[pc] == nil {
				set[pc] = cond
			} else {
				set[pc] = m.tc.Or(set[pc], cond)
			}
		}
		delete(seen, pc)
	}
	add(uint32(x.prog.Start), m.tc.T, 0, cur, map[uint32]bool{})
	for i := 0; i < n; i++ {
		nxt := make([]*Term, len(cur))
		for pc, c := range cur {
			if c == nil {
				continue
			}
			in := &x.prog.Inst[pc]
			rc := m.term(m.runeCond(in, bs[i]), 0)
			add(in.Out, m.tc.And(c, rc), i+1, nxt, map[uint32]bool{})
		}
		add(uint32(x.prog.Start), m.tc.T, i+1, nxt, map[uint32]bool{})
		cur = nxt
	}
	return tV(matched)
}

// rxFind runs a leftmost-first backtracking search from pos, forking on symbolic
// bytes. It returns submatch indices or nil.
func (m *Machine) rxFind(x *rx, s V, from int) []int {
	if c, ok := concStr(s); ok && from == 0 {
		return x.re.FindStringSubmatchIndex(c)
	}
	bs := strBytes(s)
	n := len(bs)
	caps := make([]int, x.prog.NumCap)
	runeAt := func(pos int) (r rune, cond func(in *syntax.Inst) bool, w int) {
		b := bs[pos]
		if t, ok := b.x.(*Term); ok {
			if m.branch(m.tc.Ult(t, m.tc.Const(0x80, 8))) {
				return 0, func(in *syntax.Inst) bool { return m.branchV(m.runeCond(in, b)) }, 1
			}
		}
		if b.x == nil && b.n < 0x80 {
			return rune(b.n), func(in *syntax.Inst) bool { return matchRune(in, rune(b.n)) }, 1
		}
		var buf [4]byte
		k := 0
		for ; k < 4 && pos+k < n; k++ {
			buf[k] = byte(m.concV(bs[pos+k]).n)
			if utf8.FullRune(buf[:k+1]) {
				k++
				break
			}
		}
		rr, sz := utf8.DecodeRune(buf[:k])
		return rr, func(in *syntax.Inst) bool { return matchRune(in, rr) }, sz
	}
	isNL := func(p int) bool {
		b := bs[p]
		return m.branchV(m.eqByte(b, V{n: '\n'}))
	}
	isWord := func(p int) bool {
		if p < 0 || p >= n {
			return false
		}
		c := byte(m.concV(bs[p]).n)
		return c == '_' || c < 0x80 && (unicode.IsLetter(rune(c)) || unicode.IsDigit(rune(c)))
	}
	for start := from; start <= n; start++ {
		visited := map[[2]int]bool{}
		for i := range caps {
			caps[i] = -1
		}
		var try func(pc uint32, pos int) bool
		try = func(pc uint32, pos int) bool {
			in := &x.prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch, syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				k := [2]int{int(pc), pos}
				if visited[k] {
					return false
				}
				visited[k] = true
			}
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				return try(in.Out, pos) || try(in.Arg, pos)
			case syntax.InstCapture:
				old := caps[in.Arg]
				caps[in.Arg] = pos
				if try(in.Out, pos) {
					return true
				}
				caps[in.Arg] = old
				return false
			case syntax.InstNop:
				return try(in.Out, pos)
			case syntax.InstEmptyWidth:
				e := syntax.EmptyOp(in.Arg)
				if e&syntax.EmptyBeginText != 0 && pos != 0 || e&syntax.EmptyEndText != 0 && pos != n {
					return false
				}
				if e&syntax.EmptyBeginLine != 0 && pos != 0 && !isNL(pos-1) {
					return false
				}
				if e&syntax.EmptyEndLine != 0 && pos != n && !isNL(pos) {
					return false
				}
				if e&syntax.EmptyWordBoundary != 0 && isWord(pos-1) == isWord(pos) {
					return false
				}
				if e&syntax.EmptyNoWordBoundary != 0 && isWord(pos-1) != isWord(pos) {
					return false
				}
				return try(in.Out, pos)
			case syntax.InstMatch:
				caps[1] = pos
				return true
			case syntax.InstFail:
				return false
			}
			if pos >= n {
				return false
			}
			_, cond, w := runeAt(pos)
			return cond(in) && try(in.Out, pos+w)
		}
		if try(uint32(x.prog.Start), start) {
			caps[0] = start
			return append([]int(nil), caps...)
		}
	}
	return nil
}

// rxAll finds all non-overlapping matches.
func (m *Machine) rxAll(x *rx, s V, max int) [][]int {
	if c, ok := concStr(s); ok {
		return x.re.FindAllStringSubmatchIndex(c, max)
	}
	var out [][]int
	n := strLen(s)
	pos, prevEnd := 0, -1
	for pos <= n && (max < 0 || len(out) < max) {
		r := m.rxFind(x, s, pos)
		if r == nil {
			break
		}
		accept := true
		if r[1] == pos {
			if r[0] == prevEnd {
				accept = false
			}
			pos++
		} else {
			pos = r[1]
		}
		prevEnd = r[1]
		if accept {
			out = append(out, r)
		}
	}
	return out
}

func (m *Machine) rxReplace(x *rx, s V, repl func(match []int) V) V {
	out := strV("")
	last := 0
	for _, r := range m.rxAll(x, s, -1) {
		out = strConcat(out, strSlice(s, last, r[0]))
		out = strConcat(out, repl(r))
		last = r[1]
	}
	return strConcat(out, strSlice(s, last, strLen(s)))
}
