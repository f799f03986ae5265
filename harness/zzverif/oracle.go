package zzverif

import (
	"sort"
	"strings"
	"time"
)

// ---- tree -------------------------------------------------------------------

const noDiff = "\x00nodiff"

type tnode struct {
	name     string
	kids     map[string]*tnode
	rows     []*Row
	in       bool
	best     *Row
	touched  []touch
	pseudoND bool
}

type touch struct {
	c *Cm
	d *Df // nil for commits without a diff
}

// treeRef builds the specified tree. rel maps a repository path to the path
// below the working directory.
func treeRef(cs []Cm, o Opt, index []string, mode byte, rel func(string) (string, bool)) *tnode {
	root := &tnode{name: ".", kids: map[string]*tnode{}, in: true}
	inWT := map[string]bool{}
	for _, p := range index {
		inWT[p] = true
	}
	for i := range cs {
		c := &cs[i]
		if isMerge(c) && !o.Merges || o.Skip[c.Hash] || o.Sel != nil && !o.Sel(c) {
			continue
		}
		n, e := ident(c, o.Mail)
		if n == "" && e == "" {
			continue
		}
		any := false
		for j := range c.Diffs {
			d := &c.Diffs[j]
			if o.Path != nil && !o.Path(d.Path) {
				continue
			}
			any = true
			p, inside := rel(d.Path)
			if !inside {
				continue
			}
			t := touch{c, d}
			root.touched = append(root.touched, t)
			nd := root
			for _, part := range strings.Split(p, "/") {
				k := nd.kids[part]
				if k == nil {
					k = &tnode{name: part, kids: map[string]*tnode{}}
					nd.kids[part] = k
				}
				k.in = k.in || inWT[p]
				k.touched = append(k.touched, t)
				nd = k
			}
		}
		if !any {
			if _, inside := rel("x"); inside {
				root.touched = append(root.touched, touch{c, nil})
				root.pseudoND = true
			}
		}
	}
	root.settle(o, mode)
	return root
}

func (n *tnode) settle(o Opt, mode byte) {
	for _, t := range n.touched {
		nm, em := ident(t.c, o.Mail)
		key := nm
		if o.Email {
			key = em
		}
		var r *Row
		for _, x := range n.rows {
			if x.Key == key {
				r = x
			}
		}
		date := atoi(t.c.Date)
		if r == nil {
			r = &Row{Key: key, Name: nm, Email: em, First: date, Last: date}
			n.rows = append(n.rows, r)
		}
		r.known(nm, em)
		if !contains(r.cset, t.c.Hash) {
			r.cset = append(r.cset, t.c.Hash)
			r.Commits++
		}
		if date < r.First {
			r.First = date
		}
		if date > r.Last {
			r.Last = date
		}
		if t.d != nil && !isMerge(t.c) {
			r.Add += atoi(t.d.Add)
			r.Del += atoi(t.d.Del)
			if !contains(r.files, t.d.Path) {
				r.files = append(r.files, t.d.Path)
				r.Files++
			}
		}
	}
	sortRows(n.rows, mode)
	if len(n.rows) > 0 {
		n.best = n.rows[0]
	}
	for _, k := range n.kids {
		k.settle(o, mode)
	}
}

// tline is one expected line of tree output.
type tline struct {
	indent string
	path   string
	row    *Row
	tally  bool
	dir    bool
	in     bool
}

type treeOpt struct {
	email, all bool
	depth      int
}

func (n *tnode) count() int {
	k := len(n.kids)
	if n.pseudoND {
		k++
	}
	return k
}

// treeLines is the specified layout.
func treeLines(n *tnode, path string, depth int, parent string, finals []bool, o treeOpt, out []tline) []tline {
	max := o.depth
	if max == 0 {
		max = 100
	}
	if depth > max {
		return out
	}
	if depth < max && n.count() == 1 && len(n.kids) == 1 {
		for k, v := range n.kids {
			p := path + "/" + k
			if path == "." {
				p = k
			}
			out = treeLines(v, p, depth+1, parent, finals, o, out)
		}
		return out
	}
	if n.count() == 1 && len(n.kids) == 0 && n.pseudoND && depth < max {
		return out
	}
	l := tline{path: path, row: n.best, dir: n.count() > 0, in: n.in}
	for i, f := range finals {
		last := i == len(finals)-1
		switch {
		case !last && f:
			l.indent += "    "
		case !last:
			l.indent += "│   "
		case f:
			l.indent += "└── "
		default:
			l.indent += "├── "
		}
	}
	if l.dir {
		l.path += "/"
	}
	key := n.best.Name
	if o.email {
		key = n.best.Email
	}
	l.tally = o.all || l.dir || key != parent || len(finals) == 0
	if n.in || o.all {
		out = append(out, l)
	}
	var names []string
	for k := range n.kids {
		names = append(names, k)
	}
	sort.Slice(names, func(i, j int) bool {
		a, b := n.kids[names[i]], n.kids[names[j]]
		if da, db := len(a.kids) > 0, len(b.kids) > 0; da != db {
			return da
		}
		return names[i] < names[j]
	})
	lastShown := -1
	for i, k := range names {
		if n.kids[k].in || o.all {
			lastShown = i
		}
	}
	for i, k := range names {
		f := append(append([]bool{}, finals...), i == lastShown)
		out = treeLines(n.kids[k], k, depth+1, key, f, o, out)
	}
	return out
}

// metric is the specified parenthesised metric of r in the given mode.
func metric(r *Row, mode byte, now int) string {
	switch mode {
	case 'l':
		return "(" + num(r.Add) + " / " + num(r.Del) + ")"
	case 'f':
		return "(" + num(r.Files) + ")"
	case 'm':
		return "(" + ago(now-r.Last) + ")"
	case 'c':
		return "(" + ago(now-r.First) + ")"
	}
	return "(" + num(r.Commits) + ")"
}

// num is the specified rendering of a count.
func num(n int) string {
	switch {
	case n >= 100000000:
		return ">99m"
	case n >= 1000000:
		t := (n + 50000) / 100000
		return i2s(t/10) + "." + i2s(t%10) + "m"
	case n >= 1000:
		t := i2s(n % 1000)
		for len(t) < 3 {
			t = "0" + t
		}
		return i2s(n/1000) + "," + t
	}
	return i2s(n)
}

// ago is the specified rendering of an age in seconds.
func ago(s int) string {
	unit := func(n int, one, many string) string {
		if n > 1 {
			return i2s(n) + " " + many + " ago"
		}
		return i2s(n) + " " + one + " ago"
	}
	switch {
	case s < 3600:
		return i2s(s/60) + " min. ago"
	case s < DAY:
		return unit(s/3600, "hour", "hr.")
	case s < 7*DAY:
		return unit(s/DAY, "day", "days")
	case s < 30*DAY:
		return unit(s/(7*DAY), "week", "weeks")
	case s < 365*DAY:
		return unit(s/(30*DAY), "month", "mon.")
	}
	y := s / (365 * DAY)
	if y > 99 {
		return ">99 yr. ago"
	}
	return unit(y, "year", "yr.")
}

// strip removes ANSI escape sequences.
func strip(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b {
			for i < len(s) && s[i] != 'm' && s[i] != 'K' {
				i++
			}
			continue
		}
		b = append(b, s[i])
	}
	return string(b)
}

// cluster returns the length in bytes of the first user-perceived character of
// s and its display width: wide CJK and emoji take two columns, combining marks
// and emoji joined by a zero-width joiner belong to the character before, and
// control characters take none.
func cluster(s string) (int, int) {
	if s[0] < 0x20 {
		return 1, 0
	}
	if s[0] < 0x80 && (len(s) == 1 || s[1] < 0x80) {
		return 1, 1
	}
	n, w := 0, 1
	for i, r := range s {
		switch {
		case i == 0:
			if r >= 0x1100 && r <= 0x115f || r >= 0x2e80 && r <= 0xa4cf && r != 0x303f || r >= 0xac00 && r <= 0xd7a3 || r >= 0xff01 && r <= 0xff60 || r >= 0x1f300 && r <= 0x1faff {
				w = 2
			}
		case r >= 0x300 && r <= 0x36f || r == 0x200d || r == 0xfe0f || r >= 0x1f3fb && r <= 0x1f3ff:
		case strings.HasSuffix(s[:i], "\u200d"):
		default:
			return i, w
		}
	}
	n = len(s)
	return n, w
}

// runes is the number of columns s takes.
func runes(s string) int {
	t := 0
	for s != "" {
		n, w := cluster(s)
		t += w
		s = s[n:]
	}
	return t
}

// checkTree compares tree output against the specification.
func checkTree(out string, want []tline, mode byte, email bool, what string) {
	ls := lines(out)
	ndAssert(len(ls) == len(want), what+": number of lines")
	col := -1
	for i, l := range ls {
		s := strip(l)
		t := want[i]
		head := t.indent + t.path
		if !t.tally {
			ndAssert(s == head, what+": line without tally")
			continue
		}
		ndAssert(strings.HasPrefix(s, head+"...."), what+": path and position in the tree")
		rest := s[len(head):]
		d := 0
		for d < len(rest) && rest[d] == '.' {
			d++
		}
		if col < 0 {
			col = runes(head) + d
		}
		ndAssert(runes(head)+d == col, what+": tallies are aligned")
		who := t.row.Name
		if email {
			who = "<" + t.row.Email + ">"
		}
		who = cutTo(who, 25)
		ndAssert(rest[d:] == who+" "+metric(t.row, mode, NOW), what+": owner and metric of "+t.path)
	}
}

// ---- hist -------------------------------------------------------------------

type hbucket struct {
	label string
	start int // epoch of the period's start
	rows  []*Row
	total *Row
}

func dayOf(sec int) int { return sec - sec%DAY }

func period(sec int, res byte) (int, string) {
	t := time.Unix(int64(sec), 0).UTC()
	y, m, d := t.Date()
	switch res {
	case 'y':
		return int(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix()), t.Format("2006")
	case 'm':
		return int(time.Date(y, m, 1, 0, 0, 0, 0, time.UTC).Unix()), t.Format("Jan 2006")
	}
	return int(time.Date(y, m, d, 0, 0, 0, 0, time.UTC).Unix()), t.Format("2006-01-02")
}

func nextPeriod(start int, res byte) int {
	t := time.Unix(int64(start), 0).UTC()
	y, m, d := t.Date()
	switch res {
	case 'y':
		y++
	case 'm':
		m++
	default:
		d++
	}
	return int(time.Date(y, m, d, 0, 0, 0, 0, time.UTC).Unix())
}

// histRef is the specified timeline in UTC. end 0 means the last commit's day.
func histRef(cs []Cm, o Opt, end int) []*hbucket {
	lo, hi := -1, 0
	var use []*Cm
	for i := range cs {
		c := &cs[i]
		n, e := ident(c, o.Mail)
		if o.Skip[c.Hash] || n == "" && e == "" || o.Sel != nil && !o.Sel(c) {
			continue
		}
		d := dayOf(atoi(c.Date))
		if lo < 0 || d < lo {
			lo = d
		}
		if d > hi {
			hi = d
		}
		use = append(use, c)
	}
	if len(use) == 0 {
		return nil
	}
	if end == 0 {
		end = hi
	}
	res := byte('d')
	if end-lo > 5*365*DAY {
		res = 'y'
	} else if end-lo > 60*DAY {
		res = 'm'
	}
	var bs []*hbucket
	t, _ := period(lo, res)
	for t <= end {
		_, l := period(t, res)
		bs = append(bs, &hbucket{label: l, start: t})
		t = nextPeriod(t, res)
	}
	for _, c := range use {
		if isMerge(c) && !o.Merges {
			continue
		}
		p, _ := period(atoi(c.Date), res)
		for _, b := range bs {
			if b.start == p {
				b.add(c, o)
			}
		}
	}
	return bs
}

func (b *hbucket) add(c *Cm, o Opt) {
	n, e := ident(c, o.Mail)
	key := n
	if o.Email {
		key = e
	}
	var r *Row
	for _, x := range b.rows {
		if x.Key == key {
			r = x
		}
	}
	if r == nil {
		r = &Row{Key: key, Name: n, Email: e}
		b.rows = append(b.rows, r)
	}
	if b.total == nil {
		b.total = &Row{}
	}
	r.known(n, e)
	r.Commits++
	b.total.Commits++
	if !o.Diff || isMerge(c) {
		return
	}
	for _, d := range c.Diffs {
		if o.Path != nil && !o.Path(d.Path) {
			continue
		}
		for _, x := range []*Row{r, b.total} {
			x.Add += atoi(d.Add)
			x.Del += atoi(d.Del)
			if !contains(x.files, d.Path) {
				x.files = append(x.files, d.Path)
				x.Files++
			}
		}
	}
}

func modeVal(r *Row, mode byte) int {
	if r == nil {
		return 0
	}
	switch mode {
	case 'l':
		return r.Add + r.Del
	case 'f':
		return r.Files
	}
	return r.Commits
}

func ceilDiv(a, b int) int { return (a + b - 1) / b }

// checkHist compares hist output against the specification.
func checkHist(out string, bs []*hbucket, mode byte, email bool, what string) {
	ls := lines(out)
	ndAssert(len(ls) == len(bs), what+": one line per period, none missing")
	max := 36
	for _, b := range bs {
		if v := modeVal(b.total, mode); v > max {
			max = v
		}
	}
	last := ""
	for i, l := range ls {
		b := bs[i]
		s := strip(l)
		head := b.label + " ┤ "
		ndAssert(strings.HasPrefix(s, head), what+": periods in order")
		rest := s[len(head):]
		best := 0
		for _, r := range b.rows {
			if v := modeVal(r, mode); v > best {
				best = v
			}
		}
		if best == 0 {
			ndAssert(rest == "", what+": a period without contributions is empty")
			continue
		}
		h, d := 0, 0
		for h < len(rest) && rest[h] == '#' {
			h++
		}
		for h+d < len(rest) && rest[h+d] == '-' {
			d++
		}
		tot := modeVal(b.total, mode)
		ndAssert(h == ceilDiv(best*36, max), what+": bar of the winner")
		ndAssert(h+d == ceilDiv(tot*36, max), what+": bar of the total")
		ndAssert(len(rest) >= 38, what+": line layout")
		for k := h + d; k < 38; k++ {
			ndAssert(rest[k] == ' ', what+": line layout")
		}
		tail := rest[38:]
		good, won := false, ""
		for _, r := range b.rows {
			if modeVal(r, mode) == best {
				who := r.Name
				if email {
					who = "<" + r.Email + ">"
				}
				if tail == cutTo(who, 25)+" "+metric(r, mode, NOW) {
					good, won = true, r.Name
				}
			}
		}
		ndAssert(good, what+": winner and its metric")
		if !email {
			at := strings.LastIndex(l, "  ")
			for at > 0 && l[at-1] == ' ' {
				at--
			}
			dim := strings.Contains(l[at:], "\x1b[2m")
			ndAssert(dim == (won == last), what+": dimmed when it is the winner of the period before")
		}
		last = won
	}
}
