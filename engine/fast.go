package main

import (
	"golang.org/x/tools/go/ssa"
	"strconv"
	"strings"
	"time"
)

// fastFns evaluates pure library functions directly when all arguments are
// concrete; otherwise their bodies are interpreted as usual.
var fastFns = map[string]func(args []V) (V, bool){}

func fastStr(v V) (string, bool) {
	switch s := v.x.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func init() {
	ss := func(f func(a, b string) V) func([]V) (V, bool) {
		return func(args []V) (V, bool) {
			a, ok := fastStr(args[0])
			if !ok {
				return V{}, false
			}
			b, ok := fastStr(args[1])
			if !ok {
				return V{}, false
			}
			return f(a, b), true
		}
	}
	hp := ss(func(a, b string) V { return boolV(strings.HasPrefix(a, b)) })
	hs := ss(func(a, b string) V { return boolV(strings.HasSuffix(a, b)) })
	fastFns["strings.HasPrefix"] = hp
	fastFns["internal/stringslite.HasPrefix"] = hp
	fastFns["strings.HasSuffix"] = hs
	fastFns["internal/stringslite.HasSuffix"] = hs
	fastFns["strings.Contains"] = ss(func(a, b string) V { return boolV(strings.Contains(a, b)) })
	ix := ss(func(a, b string) V { return V{n: uint64(int64(strings.Index(a, b)))} })
	fastFns["strings.Index"] = ix
	fastFns["internal/stringslite.Index"] = ix
	fastFns["strings.TrimSpace"] = func(args []V) (V, bool) {
		a, ok := fastStr(args[0])
		if !ok {
			return V{}, false
		}
		return strV(strings.TrimSpace(a)), true
	}
	atoi := func(args []V) (V, bool) {
		a, ok := fastStr(args[0])
		if !ok {
			return V{}, false
		}
		n, err := strconv.Atoi(a)
		if err != nil {
			return V{}, false
		}
		return ret(V{n: uint64(int64(n))}, V{}), true
	}
	fastFns["strconv.Atoi"] = atoi
	fastFns["internal/strconv.Atoi"] = atoi
	ints := func(f func(a []int64) V) func([]V) (V, bool) {
		return func(args []V) (V, bool) {
			var a [4]int64
			for i, x := range args {
				if x.x != nil {
					return V{}, false
				}
				a[i] = int64(x.n)
			}
			return f(a[:]), true
		}
	}
	iv := func(n int64) V { return V{n: uint64(n)} }
	fastFns["time.norm"] = ints(func(a []int64) V {
		hi, lo, base := a[0], a[1], a[2]
		if lo < 0 {
			n := (-lo-1)/base + 1
			hi -= n
			lo += n * base
		}
		if lo >= base {
			n := lo / base
			hi += n
			lo -= n * base
		}
		return ret(iv(hi), iv(lo))
	})
	// calendar arithmetic as in package time (days from March 1 of an absolute year)
	const absoluteYears = 292277022400
	fastFns["time.dateToAbsDays"] = ints(func(a []int64) V {
		amonth := uint32(a[1])
		janFeb := uint32(0)
		if amonth < 3 {
			janFeb = 1
		}
		amonth += 12 * janFeb
		y := uint64(a[0]) - uint64(janFeb) + absoluteYears
		ayday := (979*amonth - 2919) >> 5
		century := y / 100
		cyear := uint32(y % 100)
		cday := 1461 * cyear / 4
		return iv(int64(146097*century/4 + uint64(int64(cday+ayday)+a[2]-1)))
	})
	tsec := func(p V) (int64, bool) {
		q, ok := p.x.(*V)
		if !ok {
			return 0, false
		}
		a, ok := q.x.(*Agg)
		if !ok || len(a.e) != 3 || a.e[0].x != nil || a.e[1].x != nil || a.e[0].n>>63 != 0 {
			return 0, false
		}
		return int64(a.e[1].n), true
	}
	fastFns["(*time.Time).sec"] = func(args []V) (V, bool) {
		s, ok := tsec(args[0])
		return iv(s), ok
	}
	fastFns["(*time.Time).unixSec"] = func(args []V) (V, bool) {
		s, ok := tsec(args[0])
		return iv(s - 62135596800), ok
	}
}

// fastM are fast paths that need the machine.
var fastM = map[string]func(m *Machine, args []V) (V, bool){}

const toInternal = 62135596800

// zoneOf evaluates (*Location).lookup on a concrete location.
func (m *Machine) zoneOf(loc V, sec int64) (name V, off, start, end int64, dst V, ok bool) {
	const alpha, omega = -1 << 63, 1<<63 - 1
	if loc.x == nil {
		return strV("UTC"), 0, alpha, omega, V{}, true
	}
	q, isPtr := loc.x.(*V)
	if !isPtr {
		return
	}
	a, isAgg := q.x.(*Agg)
	if !isAgg || len(a.e) != 7 {
		return
	}
	zs, _ := a.e[1].x.([]V)
	if len(zs) == 0 {
		return strV("UTC"), 0, alpha, omega, V{}, true
	}
	if a.e[6].x != nil {
		if cz, ok := a.e[6].x.(*V); ok && int64(a.e[4].n) <= sec && sec < int64(a.e[5].n) {
			if z, ok := cz.x.(*Agg); ok {
				return z.e[0], int64(z.e[1].n), int64(a.e[4].n), int64(a.e[5].n), z.e[2], true
			}
		}
	}
	tx, _ := a.e[2].x.([]V)
	at := func(i int) (*Agg, bool) { t, ok := tx[i].x.(*Agg); return t, ok }
	if len(tx) == 0 {
		return
	}
	if t, has := at(0); !has || sec < int64(t.e[0].n) {
		return
	}
	end = omega
	lo, hi := 0, len(tx)
	for hi-lo > 1 {
		mid := (lo + hi) >> 1
		t, ok2 := at(mid)
		if !ok2 {
			return
		}
		if lim := int64(t.e[0].n); sec < lim {
			end, hi = lim, mid
		} else {
			lo = mid
		}
	}
	if lo == len(tx)-1 {
		return // rules for later times: interpreted
	}
	t, _ := at(lo)
	z, isZ := zs[t.e[1].n].x.(*Agg)
	if !isZ {
		return
	}
	return z.e[0], int64(int(z.e[1].n)), int64(t.e[0].n), end, z.e[2], true
}

// timeParts splits a concrete wall-clock Time.
func timeParts(v V) (sec, nsec int64, loc V, ok bool) {
	a, isAgg := v.x.(*Agg)
	if !isAgg || len(a.e) != 3 || a.e[0].x != nil || a.e[1].x != nil || a.e[0].n>>30 != 0 {
		return
	}
	return int64(a.e[1].n) - toInternal, int64(a.e[0].n), a.e[2], true
}

func (m *Machine) setLoc(loc V) V {
	if m.utcLoc == nil {
		if g, ok := m.P.pkg("time").Members["utcLoc"]; ok {
			m.utcLoc = &m.globals[m.P.globalIdx(g.(*ssa.Global))]
		}
	}
	if q, ok := loc.x.(*V); ok && q == m.utcLoc {
		return V{}
	}
	return loc
}

func (m *Machine) mkTime(sec, nsec int64, loc V) V {
	a := newAgg(3)
	a.e[0], a.e[1], a.e[2] = V{n: uint64(nsec)}, V{n: uint64(sec + toInternal)}, m.setLoc(loc)
	return V{x: a}
}

func init() {
	iv := func(n int64) V { return V{n: uint64(n)} }
	fastM["(*time.Location).lookup"] = func(m *Machine, args []V) (V, bool) {
		if args[1].x != nil {
			return V{}, false
		}
		n, o, s, e, d, ok := m.zoneOf(args[0], int64(args[1].n))
		if !ok {
			return V{}, false
		}
		return ret(n, iv(o), iv(s), iv(e), d), true
	}
	fastM["time.Date"] = func(m *Machine, args []V) (V, bool) {
		var a [7]int
		for i := range a {
			if args[i].x != nil {
				return V{}, false
			}
			a[i] = int(int64(args[i].n))
		}
		if args[7].x == nil {
			return V{}, false
		}
		t := time.Date(a[0], time.Month(a[1]), a[2], a[3], a[4], a[5], a[6], time.UTC)
		unix, nsec := t.Unix(), int64(t.Nanosecond())
		_, off, start, end, _, ok := m.zoneOf(args[7], unix)
		if !ok {
			return V{}, false
		}
		if off != 0 {
			utc := unix - off
			if utc < start || utc >= end {
				if _, off, _, _, _, ok = m.zoneOf(args[7], utc); !ok {
					return V{}, false
				}
			}
			unix -= off
		}
		return m.mkTime(unix, nsec, args[7]), true
	}
	local := func(m *Machine, v V) (time.Time, bool) {
		sec, nsec, loc, ok := timeParts(v)
		if !ok {
			return time.Time{}, false
		}
		_, off, _, _, _, ok := m.zoneOf(loc, sec)
		return time.Unix(sec+off, nsec).UTC(), ok
	}
	fastM["(time.Time).Date"] = func(m *Machine, args []V) (V, bool) {
		t, ok := local(m, args[0])
		if !ok {
			return V{}, false
		}
		y, mo, d := t.Date()
		return ret(intV(y), intV(int(mo)), intV(d)), true
	}
	fastM["(time.Time).Format"] = func(m *Machine, args []V) (V, bool) {
		l, ok := args[1].x.(string)
		if !ok || strings.Contains(l, "M") {
			return V{}, false
		}
		t, ok := local(m, args[0])
		if !ok {
			return V{}, false
		}
		if sec, _, _, _ := timeParts(args[0]); t.Unix() != sec && (strings.Contains(l, "Z") || strings.Contains(l, "-07")) {
			return V{}, false
		}
		return strV(t.Format(l)), true
	}
	fastM["(time.Time).ZoneBounds"] = func(m *Machine, args []V) (V, bool) {
		sec, _, loc, ok := timeParts(args[0])
		if !ok {
			return V{}, false
		}
		_, _, s, e, _, ok := m.zoneOf(loc, sec)
		if !ok {
			return V{}, false
		}
		mk := func(b int64, none bool) V {
			if none {
				a := newAgg(3)
				a.e[0], a.e[1], a.e[2] = V{}, V{}, V{}
				return V{x: a}
			}
			return m.mkTime(b, 0, loc)
		}
		return ret(mk(s, s == -1<<63), mk(e, e == 1<<63-1)), true
	}
	fastM["(time.Time).Zone"] = func(m *Machine, args []V) (V, bool) {
		sec, _, loc, ok := timeParts(args[0])
		if !ok {
			return V{}, false
		}
		n, o, _, _, _, ok := m.zoneOf(loc, sec)
		if !ok {
			return V{}, false
		}
		return ret(n, iv(o)), true
	}
}
