package zzverif

import "strings"

// authorIs tells whether pattern p, a literal optionally anchored, matches the
// author line.
func authorIs(p, line string) bool {
	if strings.HasPrefix(p, "^") {
		return strings.HasPrefix(line, p[1:])
	}
	if strings.HasSuffix(p, "$") {
		return strings.HasSuffix(line, p[:len(p)-1])
	}
	return strings.Contains(line, p)
}

var authorSets = [][]string{{}, {"Al"}, {"^Bo", "Cy"}, {"@x>$"}, {"l <al"}, {"b", "^A"}, {"o, J"}}

// h: property=C20 quick=150 thorough=240 reach=none,some,all,author,nauthor,since,until bound="4 commits on 3 days by 3 authors (the second letter of one name and one line count symbolic, all values), 7 lists of --author patterns and 7 of --nauthor patterns (literals, anchored or not, in name or email; thorough: all 49 combinations), --since and --until absent or at any of 10 symbolic seconds around the commit dates; table, tree and hist by lines and by commits, 1 or 2 CPUs"
func H_filters() {
	w := &World{Index: []string{"d/f", "g"}}
	dates := []int{T0 + 1, T0 + 4, T0 + 4, T0 + 7}
	nm := "A" + ndStr("nm", 1, 'l', 'n')
	ps := []Person{{nm, "al@x"}, {"Bo", "bo@x"}, {"Cy, J", "cy@z"}}
	for i := 0; i < 4; i++ {
		add := i2s(1 + i)
		if i == 1 {
			add = ndDigits("add", 1)
		}
		w.addCommit(ps[i*2%3], i2s(dates[i]), Df{Add: add, Del: "2", Path: []string{"g", "d/f"}[i%2]})
	}
	var extra []string
	ai, ni := ndChoice("authors", 7), ndChoice("nauthors", 7)
	cmd := ndChoice("cmd", 5)
	if !ndDeep() {
		ndAssume((ai+ni+cmd)%3 == 0 || ai*ni == 0 && cmd < 2)
	}
	as, ns := authorSets[ai], authorSets[ni]
	for _, a := range as {
		extra = append(extra, "--author", a)
		ndReach("author")
	}
	for _, a := range ns {
		extra = append(extra, "--nauthor", a)
		ndReach("nauthor")
	}
	since, until := "", ""
	span := 0
	if ai+ni < 4 || ndDeep() {
		span = ndChoice("span", 4)
	}
	if span&1 == 1 {
		since = i2s(T0)[:9] + ndDigits("since", 1)
		extra = append(extra, "--since", since)
		ndReach("since")
	}
	if span&2 == 2 {
		until = i2s(T0)[:9] + ndDigits("until", 1)
		extra = append(extra, "--until", until)
		ndReach("until")
	}
	sel := func(c *Cm) bool {
		line := c.Name + " <" + c.Email + ">"
		in := len(as) == 0
		for _, a := range as {
			in = in || authorIs(a, line)
		}
		for _, a := range ns {
			in = in && !authorIs(a, line)
		}
		if since != "" && atoi(c.Date) < atoi(since) || until != "" && atoi(c.Date) > atoi(until) {
			in = false
		}
		return in
	}
	n := 0
	for i := range w.Commits {
		if sel(&w.Commits[i]) {
			n++
		}
	}
	switch n {
	case 0:
		ndReach("none")
	case 4:
		ndReach("all")
	default:
		ndReach("some")
	}
	if cmd < 3 {
		ndProcs(1 + ndChoice("procs", 2))
	}
	r := byMode(w, NoCache(), cmd, Opt{Sel: sel}, "filtered", extra...)
	ndObserve(r.Out)
}
