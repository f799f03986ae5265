package zzverif

import "strings"

var nameUnits = []string{"a", "é", "世", "e\u0301", "👍", "👩\u200d👧"}

// wideName builds a name of about n columns from the unit choices. The first
// character of ASCII names is symbolic.
func wideName(n, tails int) string {
	u := nameUnits[ndChoice("base", len(nameUnits))]
	_, w := cluster(u)
	k := n/w - 2 + ndChoice("len", 4)
	if k < 0 {
		k = 0
	}
	s := strings.Repeat(u, k)
	if u == "a" && s != "" {
		s = string([]byte{ndByte("first", '0', '~')}) + s[1:]
	}
	for i := 0; i < tails; i++ {
		if c := ndChoice("tail"+i2s(i), len(nameUnits)+1); c < len(nameUnits) {
			s += nameUnits[c]
		}
	}
	ndAssume(s != "")
	return s
}

// h: property=C23 quick=150 thorough=240 reach=cut,fits,wide,email bound="names of 6 kinds of characters (ASCII with any first character, accented, wide, combining, emoji, joined emoji) followed by one (two by commits; thorough: always two) characters of any other kind, at every length around the column's width; with and without -e (an email that is short, or long); every sort mode"
func H_table_width() {
	mode := treeModes[ndChoice("mode", 5)]
	diff := mode == 'l' || mode == 'f'
	email := ndChoice("email", 2) == 1
	aw := 33
	switch {
	case diff:
		aw = 31
	case email:
		aw = 58
	}
	em := ""
	if email {
		em = ndPick("mail", "x@y", strings.Repeat("m", 26)+"@é")
		aw -= runes(em) + 3
		ndReach("email")
	}
	tails := 1
	if mode == 'C' && !email || ndDeep() {
		tails = 2
	}
	name := wideName(aw, tails)
	w := &World{}
	w.addCommit(Person{"Al", "al@x"}, i2s(T0), Df{Add: "1", Del: "0", Path: "f"})
	w.addCommit(Person{name, em}, i2s(T0+DAY), Df{Add: "3", Del: "2", Path: "f"})
	args := append([]string{"table"}, modeFlag(mode)...)
	if email {
		args = append(args, "-e")
	}
	r := RunEnv(w, NoCache(), args...)
	ok(r, "table")
	rows := tallyRef(w.Commits, Opt{Email: email, Diff: true})
	sortRows(rows, mode)
	checkTable(r.Out, rows, mode, email, 0, NOW, "table")
	for _, l := range lines(r.Out) {
		ndAssert(runes(strip(l)) == runes(lines(r.Out)[0]), "every line has the same width")
	}
	if strings.Contains(r.Out, "…") {
		ndReach("cut")
	} else {
		ndReach("fits")
	}
	if runes(name) > len([]rune(name)) {
		ndReach("wide")
	}
	ndObserve(r.Out)
}

// h: property=C23 quick=150 thorough=240 reach=big,alternating bound="added lines of 1 to 6 digits (the first four of any value) or 7 to 9 digits (3 first digits), removed lines of 1, 4, 7 or 9 digits, 10 ages from now to 200 years, modes by lines and by latest and earliest commit; 2 rows, or 16 rows"
func H_table_numbers() {
	mode := treeModes[1+ndChoice("mode", 4)]
	ndAssume(mode != 'f')
	w := &World{}
	n := 1 + ndChoice("digits", 9)
	if n > 3 {
		ndReach("big")
	}
	// H_numbers decides every value; here digits after the third are fixed
	sym := ndPick("lead", "1", "5", "9")
	if n < 7 {
		sym = ndDigits("add", min(n, 4))
	}
	ndAssume(n == 1 || sym[0] != '0')
	add := sym + strings.Repeat("2", n-len(sym))
	age := []int{0, 59, 3600, 36000, DAY, 6*DAY + 7, 20 * DAY, 350 * DAY, 1000 * DAY, 200*365*DAY + 5}[ndChoice("age", 10)]
	now := T0 + 200*365*DAY + 9
	ndNow(int64(now))
	w.addCommit(Person{"Al", "al@x"}, i2s(now-age), Df{Add: add, Del: []string{"0", "4321", "7654321", "999999999"}[n%4], Path: "f"})
	w.addCommit(Person{"Bo", "bo@x"}, i2s(now-age/2), Df{Add: "1", Del: "0", Path: "f"})
	if n == 1 {
		ndReach("alternating")
		for i := 0; i < 14; i++ {
			w.addCommit(Person{string(rune('a' + i)), "x"}, i2s(now-age), Df{Add: "20", Del: "0", Path: "f"})
		}
	}
	r := RunEnv(w, NoCache(), append([]string{"table", "-n", "0"}, modeFlag(mode)...)...)
	ok(r, "table")
	rows := tallyRef(w.Commits, Opt{Diff: true})
	sortRows(rows, mode)
	checkTable(r.Out, rows, mode, false, 0, now, "table")
	ndObserve(r.Out)
}

// h: property=C23 quick=150 thorough=240 reach=cut,fits,tree,hist bound="as before with names around 25 columns, in tree (also with such names as paths) and hist, by name or by email"
func H_tree_width() {
	email := ndChoice("email", 2) == 1
	name := wideName(25-2*b2i(email), 2)
	p := Person{name, "al@x"}
	if email {
		p = Person{"Al", name}
	}
	w := &World{Index: []string{"f", "g"}}
	cmd := ndChoice("cmd", 3)
	f := "f"
	if cmd == 2 {
		f = name
		w.Index = append(w.Index, f)
	}
	w.addCommit(Person{"Bo", "bo@x"}, i2s(T0), Df{Add: "1", Del: "0", Path: "g"})
	w.addCommit(p, i2s(T0+DAY), Df{Add: "1", Del: "0", Path: f})
	if cmd == 0 {
		args := []string{"hist", "--until", i2s(NOW)}
		if email {
			args = append(args, "-e")
		}
		r := RunEnv(w, NoCache(), args...)
		ok(r, "hist")
		checkHist(r.Out, histRef(w.Commits, Opt{Email: email}, 0), 'C', email, "hist")
		ndReach("hist")
		ndObserve(r.Out)
		return
	}
	ndReach("tree")
	r := byMode(w, NoCache(), 1, Opt{Email: email}, "tree")
	if strings.Contains(r.Out, "…") {
		ndReach("cut")
	} else {
		ndReach("fits")
	}
	ndObserve(r.Out)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
