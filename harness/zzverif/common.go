package zzverif

import (
	"sort"
	"strconv"
	"strings"
)

// ---- world building ---------------------------------------------------------

const T0 = 1600000000 // Sun Sep 13 2020 12:26:40 UTC
const NOW = 1700000000
const DAY = 86400

// sha256 makes the repositories of a harness such with SHA-256 hashes.
var sha256 bool

// Hash is the i-th commit's hash.
func Hash(i int) string {
	d := "0123456789abcdef"
	n := 37
	if sha256 {
		n = 61
	}
	return string(d[i%16]) + string(d[i/16%16]) + string(d[i/256%16]) + strings.Repeat("5", n)
}

// ndHashes chooses the kind of hash.
func ndHashes() {
	if sha256 = ndChoice("sha256", 2) == 1; sha256 {
		ndReach("sha256")
	}
}

func ShortOf(h string) string { return h[:7] }

type Person struct{ Name, Email string }

var people = []Person{{"Al", "al@x"}, {"Bo", "bo@x"}, {"Cy", "cy@x"}}

// addCommit appends a commit whose parent is the previous one.
func (w *World) addCommit(p Person, date string, ds ...Df) *Cm {
	i := len(w.Commits)
	h := Hash(i)
	c := Cm{Hash: h, Short: ShortOf(h), Name: p.Name, Email: p.Email, Date: date, Diffs: ds}
	if i > 0 {
		c.Parents = w.Commits[i-1].Short
	}
	w.Commits = append(w.Commits, c)
	return &w.Commits[i]
}

// merge makes c a merge by giving it a second parent.
func (w *World) merge(i int) {
	c := &w.Commits[i]
	if i >= 2 {
		c.Parents += " " + w.Commits[i-2].Short
	} else {
		c.Parents += " " + w.Commits[0].Short
	}
}

func isMerge(c *Cm) bool { return strings.Contains(c.Parents, " ") }

// digit strings of symbolic value
func ndDigits(name string, n int) string {
	s := ndStr(name, n, '0', '9')
	return s
}

// ---- the reference tally ----------------------------------------------------

type Row struct {
	Key         string
	Name, Email string
	Commits     int
	Add, Del    int
	Files       int
	First, Last int
	files       []string
	cset        []string
}

type Opt struct {
	Email  bool
	Merges bool
	Diff   bool
	Skip   map[string]bool
	Path   func(string) bool
	Mail   bool
	Sel    func(*Cm) bool // which commits are selected, nil for all
}

func atoi(s string) int {
	if s == "-" {
		return 0
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		panic("ZZ atoi " + s)
	}
	return n
}

// ident is the identity git reports for c.
func ident(c *Cm, mail bool) (string, string) {
	if mail {
		return mapped(c.MName, c.Name), mapped(c.MEmail, c.Email)
	}
	return c.Name, c.Email
}

// known notes that the author used these: the first in the alphabet is shown.
func (r *Row) known(n, e string) {
	if r.Name == "" || n != "" && n < r.Name {
		r.Name = n
	}
	if r.Email == "" || e != "" && e < r.Email {
		r.Email = e
	}
}

// tallyRef is the specification: what each author did in these commits.
func tallyRef(cs []Cm, o Opt) []*Row {
	var rows []*Row
	for i := range cs {
		c := &cs[i]
		if isMerge(c) && !o.Merges {
			continue
		}
		if o.Skip[c.Hash] || o.Sel != nil && !o.Sel(c) {
			continue
		}
		n, e := ident(c, o.Mail)
		if n == "" && e == "" {
			continue
		}
		var ds []Df
		for _, d := range c.Diffs {
			if o.Path == nil || o.Path(d.Path) {
				ds = append(ds, d)
			}
		}
		key := n
		if o.Email {
			key = e
		}
		var r *Row
		for _, x := range rows {
			if x.Key == key {
				r = x
			}
		}
		date := atoi(c.Date)
		if r == nil {
			r = &Row{Key: key, Name: n, Email: e, First: date, Last: date}
			rows = append(rows, r)
		}
		r.known(n, e)
		r.Commits++
		if date < r.First {
			r.First = date
		}
		if date > r.Last {
			r.Last = date
		}
		if !o.Diff || isMerge(c) {
			continue
		}
		for _, d := range ds {
			r.Add += atoi(d.Add)
			r.Del += atoi(d.Del)
			if !contains(r.files, d.Path) {
				r.files = append(r.files, d.Path)
			}
		}
		r.Files = len(r.files)
	}
	return rows
}

// sortRows orders rows by mode ('C' commits, 'l', 'f', 'm', 'c'), then by last edit.
func sortRows(rows []*Row, mode byte) {
	val := func(r *Row) int {
		switch mode {
		case 'l':
			return r.Add + r.Del
		case 'f':
			return r.Files
		case 'm':
			return r.Last
		case 'c':
			return -r.First
		}
		return r.Commits
	}
	sort.SliceStable(rows, func(i, j int) bool {
		a, b := rows[i], rows[j]
		if va, vb := val(a), val(b); va != vb {
			return va > vb
		}
		if a.Last != b.Last {
			return a.Last > b.Last
		}
		if a.Name != b.Name {
			return a.Name < b.Name
		}
		return a.Email < b.Email
	})
}

func i2s(n int) string { return strconv.Itoa(n) }

// ok asserts a clean run.
func ok(r Result, what string) {
	ndAssert(r.Panic == "", what+": the program must not panic")
	ndAssert(r.Code == 0, what+": the program must succeed")
}

func lines(s string) []string {
	var r []string
	for len(s) > 0 {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			r = append(r, s)
			break
		}
		r = append(r, s[:i])
		s = s[i+1:]
	}
	return r
}

func hasStr(ss []string, s string) bool { return contains(ss, s) }
