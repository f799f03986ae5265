package zzverif

import (
	"strings"
	"time"
)

func rfc(sec int) string { return time.Unix(int64(sec), 0).UTC().Format(time.RFC3339) }

// csvField quotes a field that holds a comma.
func csvField(s string) string {
	if strings.Contains(s, ",") {
		return "\"" + s + "\""
	}
	return s
}

// csvRow renders the specified CSV record of r.
func csvRow(r *Row, email, diff bool) string {
	s := csvField(r.Name)
	if email {
		s += "," + csvField(r.Email)
	}
	s += "," + i2s(r.Commits)
	if diff {
		s += "," + i2s(r.Add) + "," + i2s(r.Del) + "," + i2s(r.Files)
	}
	return s + "," + rfc(r.Last) + "," + rfc(r.First)
}

func csvHeader(email, diff bool) string {
	s := "name"
	if email {
		s += ",email"
	}
	s += ",commits"
	if diff {
		s += ",lines added,lines removed,files"
	}
	return s + ",last commit time,first commit time"
}

// checkCsv compares CSV output against the specification, in any row order.
func checkCsv(out string, rows []*Row, email, diff bool, what string) {
	ls := lines(out)
	ndAssert(len(ls) == len(rows)+1, what+": one row per author")
	ndAssert(ls[0] == csvHeader(email, diff), what+": header")
	for _, r := range rows {
		n := 0
		want := csvRow(r, email, diff)
		for _, l := range ls[1:] {
			if strings.HasPrefix(l, csvField(r.Name)+",") && (!email || strings.HasPrefix(l, csvField(r.Name)+","+csvField(r.Email)+",")) {
				n++
				ndAssert(l == want, what+": totals of "+r.Name)
			}
		}
		ndAssert(n == 1, what+": author exactly once: "+r.Name)
	}
}

// h: property=C04 quick=150 thorough=240 reach=diff,nodiff,empty bound="3 commits (thorough 4), 2 authors, 4 paths, two-digit line counts (all values), commit dates out of order, commits without diff, binary files, renames without changes, name and email keys, 1 or 2 CPUs"
func H_totals() {
	w := &World{}
	n := 3
	if ndDeep() {
		n = 4
	}
	diff := ndBool("diff")
	for i := 0; i < n; i++ {
		is := i2s(i)
		p := people[ndChoice("author"+is, 1+min(i, 1))]
		date := i2s(T0 + DAY*(i+1) - 2*DAY*ndChoice("day"+is, 1+min(i, 1)))
		var ds []Df
		k := 1
		if diff {
			k = 4
		}
		switch ndChoice("diffs"+is, k) {
		case 1:
			ds = []Df{{Add: ndDigits("add"+is, 2), Del: "1", Path: "f"}}
		case 2:
			ds = []Df{{Add: "2", Del: ndDigits("del"+is, 2), Path: "f"}, {Add: "-", Del: "-", Path: "g"}}
		case 3:
			ds = []Df{{Add: "1", Del: "0", Path: "e"}, {Add: "0", Del: "0", Old: "f", Path: "h"}}
		default:
			ndReach("empty")
		}
		w.addCommit(p, date, ds...)
	}
	email := ndBool("email")
	ndProcs(1 + ndChoice("procs", 2))
	args := []string{"table", "--csv"}
	if email {
		args = append(args, "-e")
	}
	if diff {
		args = append(args, ndPick("flag", "-l", "-f"))
		ndReach("diff")
	} else {
		ndReach("nodiff")
	}
	r := RunEnv(w, NoCache(), args...)
	ok(r, "table")
	checkCsv(r.Out, tallyRef(w.Commits, Opt{Email: email, Diff: diff}), email, diff, "table")
	ndObserve(r.Out)
}

// nearHashes renames the commits of w so that their hashes share their first k
// digits, and are abbreviated to k+1.
func nearHashes(w *World, k int) {
	was := map[string]string{}
	for i := range w.Commits {
		c := &w.Commits[i]
		h := strings.Repeat("5", k) + "0123456789abcdef"[i:i+1] + strings.Repeat("a", 39-k)
		was[c.Short] = h[:k+1]
		c.Hash, c.Short = h, h[:k+1]
		ps := strings.Split(c.Parents, " ")
		for j, p := range ps {
			ps[j] = was[p]
		}
		c.Parents = strings.Join(ps, " ")
	}
	w.idx = nil
}

// h: property=C04 quick=150 thorough=240 reach=short,long,cached bound="5 commits by 2 authors touching 2 files each, whose hashes differ only in the 1st, 4th, 7th, 8th, 12th or last digit and are abbreviated to the shortest unique form; table by commits, lines and files, tree and hist; 1 or 2 CPUs, with and without a cache"
func H_near_hashes() {
	w := &World{Index: []string{"d/f", "g"}}
	by := ndChoice("by", 8)
	for i := 0; i < 5; i++ {
		w.addCommit(people[by>>(i%3)&1], i2s(T0+DAY*i), Df{Add: i2s(1 + i), Del: "1", Path: "g"}, Df{Add: "1", Del: i2s(i), Path: "d/f"})
	}
	k := ndPickInt("k", 0, 3, 6, 7, 11, 39)
	nearHashes(w, k)
	if k < 7 {
		ndReach("short")
	} else {
		ndReach("long")
	}
	cmd := ndChoice("cmd", 5)
	env := NoCache()
	if ndChoice("procs", 2) == 1 {
		ndProcs(2)
		if ndChoice("cached", 2) == 1 {
			env = nil
			byMode(w, env, cmd, Opt{}, "first run")
			ndReach("cached")
		}
	}
	r := byMode(w, env, cmd, Opt{}, "hashes with a common prefix")
	ndObserve(r.Out)
}

// h: property=C04 quick=150 thorough=240 reach=same,minute,order bound="3 commits by 1 or 2 authors, in any order, each at one of 7 seconds from a minute before to a minute after a minute, hour, day or year boundary, or 24 hours later; the CSV table by every metric, 1 or 2 CPUs"
func H_date_totals() {
	w := &World{}
	by := ndChoice("by", 4)
	base := ndPickInt("base", 1600000020, 1577836800)
	for i := 0; i < 3; i++ {
		p := people[0]
		if i > 0 {
			p = people[by>>(i-1)&1]
		}
		w.addCommit(p, i2s(base+ndPickInt("t"+i2s(i), -60, -1, 0, 1, 59, 60, DAY)), Df{Add: "1", Del: "1", Path: "f"})
	}
	mode := treeModes[ndChoice("mode", 5)]
	diff := mode == 'l' || mode == 'f'
	if diff {
		ndProcs(1 + ndChoice("procs", 2))
	} else {
		ndProcs(1)
	}
	r := RunEnv(w, NoCache(), append([]string{"table", "--csv"}, modeFlag(mode)...)...)
	ok(r, "table")
	a, b := atoi(w.Commits[0].Date), atoi(w.Commits[2].Date)
	switch {
	case a == b:
		ndReach("same")
	case a/60 == b/60:
		ndReach("minute")
	case a > b:
		ndReach("order")
	}
	checkCsv(r.Out, tallyRef(w.Commits, Opt{Diff: true}), false, diff, "table")
	ndObserve(r.Out)
}

// h: property=C04 quick=150 thorough=240 reach=one,two,three,noname,noemail bound="3 commits, each by any of 9 identities: names and emails that differ in case only, in their length, that are shared by two people, missing, or equal to each other; commit times in two orders; text and CSV table by every metric, by name and by email; 1 or 2 CPUs, with and without a cache"
func H_identities() {
	ps := []Person{{"Al", "al@x"}, {"Al", "AL@x"}, {"al", "al@x"}, {"Al B", "al@x.y"}, {"Al", ""}, {"Bo", ""}, {"", "al@x"}, {"", "AL@x"}, {"al@x", "al@x"}}
	w := &World{Index: []string{"d/f", "g"}}
	back := ndChoice("back", 2)
	for i := 0; i < 3; i++ {
		p := ps[ndChoice("author"+i2s(i), len(ps))]
		if p.Name == "" {
			ndReach("noname")
		} else if p.Email == "" {
			ndReach("noemail")
		}
		at := i
		if back == 1 {
			at = 2 - i
		}
		w.addCommit(p, i2s(NOW-DAY*(4-at)), Df{Add: i2s(1 + 3*i), Del: "1", Path: "g"}, Df{Add: "1", Del: i2s(i), Path: "d/f" + i2s(i%2)})
	}
	mode := treeModes[ndChoice("mode", 5)]
	diff := mode == 'l' || mode == 'f'
	email := ndChoice("email", 2) == 1
	csv := ndChoice("csv", 2) == 1
	env := NoCache()
	ndProcs(1)
	if diff {
		if ndChoice("procs", 2) == 1 {
			ndProcs(2)
			env = nil
		}
	}
	args := append([]string{"table"}, modeFlag(mode)...)
	if email {
		args = append(args, "-e")
	}
	if csv {
		args = append(args, "--csv")
	}
	rows := tallyRef(w.Commits, Opt{Email: email, Diff: true})
	sortRows(rows, mode)
	ndReach([]string{"one", "two", "three"}[len(rows)-1])
	for k := 0; k < 1+b2i(env == nil); k++ {
		r := RunEnv(w, env, args...)
		ok(r, "table")
		if !csv {
			checkTable(r.Out, rows, mode, email, 0, NOW, "table")
		} else {
			want := csvHeader(email, diff) + "\n"
			for _, x := range rows {
				want += csvRow(x, email, diff) + "\n"
			}
			ndAssert(r.Out == want, "one row for each author")
		}
		ndObserve(r.Out)
	}
}
