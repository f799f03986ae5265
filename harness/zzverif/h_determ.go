package zzverif

// determWorld has authors that tie in every metric, with several names for an
// email and several emails for a name, and files of the same owner.
func determWorld(kind int, sym bool) *World {
	w := &World{Index: []string{"a/x", "a/y", "b", "c/d/e"}}
	ps := [][]Person{
		{{"Al", "s@x"}, {"Bo", "s@x"}, {"Cy", "t@x"}, {"Al", "u@x"}},
		{{"Bo", "b@x"}, {"Al", "a@x"}, {"Cy", "c@x"}, {"Cy", "b@x"}},
		{{"Al", "m@x"}, {"", "m@x"}, {"Zo", "n@x"}, {"Ed", "n@x"}},
	}[kind%3]
	days := ndChoice("days", 2) // all at once, or on two days
	for i, p := range ps {
		one := "3"
		if sym && i == 1 {
			one = ndDigits("add", 1)
		}
		day := days * (i % 2)
		switch kind / 3 {
		case 0: // each his own file
			w.addCommit(p, i2s(T0+day*DAY), Df{Add: one, Del: "1", Path: []string{"a/x", "a/y", "b", "c/d/e"}[i]})
		case 1: // all the same files
			w.addCommit(p, i2s(T0+day*DAY), Df{Add: one, Del: "1", Path: "a/x"}, Df{Add: "1", Del: "0", Path: "b"})
		case 2: // overlapping, one commit without files
			if i == 2 {
				w.addCommit(p, i2s(T0+day*DAY))
			} else {
				w.addCommit(p, i2s(T0+day*DAY), Df{Add: one, Del: "1", Path: []string{"a/x", "a/y", "b", "c/d/e"}[i]}, Df{Add: "2", Del: "1", Path: []string{"a/y", "b", "", "a/x"}[i]})
			}
		}
	}
	return w
}

var determCmds = [][]string{{"table", "--csv"}, {"table", "-e"}, {"table", "--csv", "-l"}, {"table", "--csv", "-f", "-e"}, {"table", "-m"}, {"table", "-c", "-e"},
	{"tree", "-a", "-l"}, {"tree", "-a", "-e"}, {"tree", "-f"}, {"tree", "-m", "-e"}, {"tree", "-c"}, {"hist", "-e"}, {"hist", "-l"}, {"hist", "-f", "-e"}}

// h: property=C26 quick=120 thorough=400 reach=reversed,parallel bound="4 commits by up to 4 people sharing names or emails, with ties in every metric (when lines count, a one-digit count of all values), on one or two days, on separate, common or overlapping files; 14 command lines, on 1 or 2 CPUs; every loop over a hash table in the order of insertion, or backwards, except on 1 CPU one loop (thorough 2, and one on 2 CPUs) over up to 4 entries in any order"
func H_map_order() {
	args := determCmds[ndChoice("cmd", len(determCmds))]
	w := determWorld(ndChoice("world", 9), contains(args, "-l"))
	ndNow(T0 + 3*DAY)
	ndProcs(1)
	want := RunEnv(w, NoCache(), args...)
	ok(want, "first run")
	dev := 1 + b2i(ndDeep())
	if ndChoice("parallel", 2) == 1 {
		dev -= 1
		ndAssume(args[0] == "tree" || contains(args, "-l") || contains(args, "-f"))
		ndReach("parallel")
		ndProcs(2)
	}
	rev := ndChoice("reversed", 2) == 1
	if rev {
		ndReach("reversed")
	}
	ndMapOrder(4, dev, rev)
	got := RunEnv(w, NoCache(), args...)
	ndMapOrder(0, 0, false)
	ok(got, "second run")
	ndAssert(got.Out == want.Out, "the same output whatever the order in hash tables")
	ndObserve(got.Out)
}

// h: property=C26 quick=60 thorough=200 reach=files,parallel bound="the same commits and commands; the commits in any of 24 orders on 1 CPU, or with the files of each reversed on 2"
func H_commit_order() {
	args := determCmds[ndChoice("cmd", len(determCmds))]
	w := determWorld(ndChoice("world", 9), contains(args, "-l"))
	ndNow(T0 + 3*DAY)
	ndProcs(1)
	want := RunEnv(w, NoCache(), args...)
	ok(want, "first run")
	how := ndChoice("how", 2+b2i(ndDeep()))
	if how > 0 && (args[0] == "tree" || contains(args, "-l") || contains(args, "-f")) {
		ndReach("parallel")
		ndProcs(2)
	}
	all := w.Commits
	var cs []Cm
	left := append([]Cm(nil), all...)
	for len(left) > 0 {
		k := ndChoice("next", len(left))
		c := left[k]
		at := &all[len(cs)]
		c.Hash, c.Short, c.Parents = at.Hash, at.Short, at.Parents
		cs = append(cs, c)
		left = append(append([]Cm(nil), left[:k]...), left[k+1:]...)
	}
	w.Commits = cs
	if how == 1 {
		ndReach("files")
		for i := range w.Commits {
			if d := w.Commits[i].Diffs; len(d) > 1 {
				w.Commits[i].Diffs = []Df{d[1], d[0]}
			}
		}
	}
	got := RunEnv(w, NoCache(), args...)
	ok(got, "second run")
	ndAssert(got.Out == want.Out, "the same output whatever the order of commits and files")
	ndObserve(got.Out)
}
