package zzverif

import "strings"

func rankWorld(n int) *World {
	w := &World{}
	ps := []Person{{"Al", "z@x"}, {"Bo", "b@x"}, {"Cy", "a@x"}, {"Al", "b@y"}}
	for i := 0; i < n; i++ {
		is := i2s(i)
		a := ndChoice("author"+is, min(i+1, len(ps)))
		day := ndChoice("day"+is, 1+min(i, 1))
		var ds []Df
		switch ndChoice("diffs"+is, 3) {
		case 1:
			ds = []Df{{Add: ndDigits("add"+is, 1), Del: "1", Path: "f"}}
		case 2:
			ds = []Df{{Add: "2", Del: ndDigits("del"+is, 1), Path: "f"}, {Add: "0", Del: "1", Path: "g"}}
		}
		w.addCommit(ps[a], i2s(T0+DAY*day), ds...)
	}
	return w
}

// h: property=C06 quick=150 thorough=240 reach=cut,nolimit,tie bound="3 commits (thorough 4) by up to 3 authors on 2 days, one-digit counts (all values); every sort mode, CSV, name and email keys, limits 0 to 3 and the default"
func H_rank_csv() {
	n := 3
	if ndDeep() {
		n = 4
	}
	w := rankWorld(n)
	mode := treeModes[ndChoice("mode", 5)]
	args := append([]string{"table", "--csv"}, modeFlag(mode)...)
	diff := mode == 'l' || mode == 'f'
	email := mode != 'c' && mode != 'f' && ndBool("email")
	if email {
		args = append(args, "-e")
	}
	lim := ndChoice("limit", 5)
	if lim < 4 {
		args = append(args, "-n", i2s(lim))
	} else {
		lim = 10
	}
	if diff {
		ndProcs(1 + ndChoice("procs", 2))
	}
	r := RunEnv(w, NoCache(), args...)
	ok(r, "table")
	rows := tallyRef(w.Commits, Opt{Email: email, Diff: true})
	sortRows(rows, mode)
	if lim == 0 {
		ndReach("nolimit")
	}
	if lim > 0 && lim < len(rows) {
		rows = rows[:lim]
		ndReach("cut")
	}
	if len(rows) > 1 && rows[0].Last == rows[1].Last {
		ndReach("tie")
	}
	want := csvHeader(email, diff) + "\n"
	for _, x := range rows {
		want += csvRow(x, email, diff) + "\n"
	}
	ndAssert(r.Out == want, "authors ranked by the chosen metric, ties by recency then name, cut at the limit")
	ndObserve(r.Out)
}

// h: property=C06 quick=150 thorough=120 reach=more,all bound="1 to 13 authors with 1 to 3 commits each, limits 0 to 13 and the default of 10; text table in every mode"
func H_rank_limit() {
	w := &World{}
	n := 1 + ndChoice("authors", 13)
	k := 0
	for i := 0; i < n; i++ {
		for j := 0; j <= i*7%3; j++ {
			w.addCommit(Person{string(rune('A'+i)) + "x", i2s(i)}, i2s(T0+DAY*(i*5%11)+k), Df{Add: i2s(i * 5 % 4), Del: "1", Path: i2s(j)})
			k++
		}
	}
	mode := treeModes[ndChoice("mode", 5)]
	args := append([]string{"table"}, modeFlag(mode)...)
	lim := ndChoice("limit", 15)
	if lim < 14 {
		args = append(args, "-n", i2s(lim))
	} else {
		lim = 10
	}
	r := RunEnv(w, NoCache(), args...)
	ok(r, "table")
	rows := tallyRef(w.Commits, Opt{Diff: true})
	sortRows(rows, mode)
	rest := 0
	if lim > 0 && lim < len(rows) {
		rest = len(rows) - lim
		rows = rows[:lim]
		ndReach("more")
	} else {
		ndReach("all")
	}
	checkTable(r.Out, rows, mode, false, rest, NOW, "table")
	ndObserve(r.Out)
}

// fill pads s on the right to n columns.
func fill(s string, n int) string {
	if k := runes(s); k < n {
		s += strings.Repeat(" ", n-k)
	}
	return s
}

// pad pads s on the left to n columns.
func pad(s string, n int) string {
	if len(s) < n {
		s = strings.Repeat(" ", n-len(s)) + s
	}
	return s
}

// cutTo abbreviates s to n columns, between characters.
func cutTo(s string, n int) string {
	if runes(s) <= n {
		return s
	}
	i, t := 0, 0
	for {
		k, w := cluster(s[i:])
		if t+w > n-1 {
			return s[:i] + "…"
		}
		i += k
		t += w
	}
}

// checkTable compares the text table against the specification, exactly.
func checkTable(out string, rows []*Row, mode byte, email bool, rest int, now int, what string) {
	ls := lines(out)
	if len(rows) == 0 {
		ndAssert(out == "", what+": nothing to show")
		return
	}
	diff := mode == 'l' || mode == 'f'
	width := 55
	if diff || email {
		width = 80
	}
	aw := width - 22
	if diff {
		aw = width - 49
	}
	rule := strings.Repeat("─", width-2)
	n := len(rows) + 4
	if rest > 0 {
		n++
	}
	ndAssert(len(ls) == n, what+": number of lines")
	ndAssert(ls[0] == "┌"+rule+"┐", what+": top rule")
	edit := "Last Edit"
	if mode == 'c' {
		edit = "First Edit"
	}
	head := "│" + fill("Author", aw) + " " + fill(edit, 11) + " Commits"
	if diff {
		head += "   Files        Lines (+/-)"
	}
	ndAssert(ls[1] == head+"│", what+": header")
	ndAssert(ls[2] == "├"+rule+"┤", what+": rule")
	for i, r := range rows {
		s := strip(ls[3+i])
		who := r.Name
		if email {
			who += " <" + r.Email + ">"
		}
		when := r.Last
		if mode == 'c' {
			when = r.First
		}
		want := "│" + fill(cutTo(who, aw), aw) + " " + fill(ago(now-when), 11) + " " + pad(num(r.Commits), 7)
		if diff {
			want += " " + pad(num(r.Files), 7) + "  " + pad(num(r.Add), 7) + " / " + pad(num(r.Del), 7)
		}
		ndAssert(s == want+"│", what+": row "+i2s(i))
	}
	if rest > 0 {
		ndAssert(strip(ls[n-2]) == "│"+fill("..."+num(rest)+" more...", width-2)+"│", what+": how many are left out")
	}
	ndAssert(ls[n-1] == "└"+rule+"┘", what+": bottom rule")
}

// h: property=C06 quick=100 thorough=240 reach=huge,close bound="2 authors with a commit each; counts of added and removed lines around 2^31, 2^32, 10^9 and 100, with any last two digits; commit times from 1 second to a year apart in either order; every sort mode, CSV, 1 or 2 CPUs"
func H_rank_large() {
	w := &World{}
	mode := treeModes[ndChoice("mode", 5)]
	diff := mode == 'l' || mode == 'f'
	day := 3 * 3600
	gaps := []int{0, 1, 59, 61, 3599, 3601, 86399, 86401, 365 * 86400}
	g := gaps[ndChoice("gap", len(gaps))]
	if g > 0 && g < 3600 {
		ndReach("close")
	}
	a, b := 0, g
	if ndChoice("swap", 2) == 1 {
		a, b = g, 0
	}
	add, del := "1", "1"
	if mode == 'l' {
		top := []string{"21474836", "42949672", "9999999", "1"}
		add = top[ndChoice("add", 4)] + ndDigits("addlow", 2)
		del = top[ndChoice("del", 4)] + ndDigits("dellow", 2)
		ndReach("huge")
	}
	w.addCommit(people[0], i2s(T0+day+a), Df{Add: add, Del: "0", Path: "f"})
	w.addCommit(people[1], i2s(T0+day+b), Df{Add: "1", Del: del, Path: "g"})
	if diff {
		ndProcs(1 + ndChoice("procs", 2))
	}
	r := RunEnv(w, NoCache(), append([]string{"table", "--csv"}, modeFlag(mode)...)...)
	ok(r, "table")
	rows := tallyRef(w.Commits, Opt{Diff: true})
	sortRows(rows, mode)
	want := csvHeader(false, diff) + "\n"
	for _, x := range rows {
		want += csvRow(x, false, diff) + "\n"
	}
	ndAssert(r.Out == want, "authors ranked by the chosen metric, whatever its size")
	ndObserve(r.Out)
}
