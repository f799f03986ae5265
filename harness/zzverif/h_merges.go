package zzverif

// mergeWorld builds n commits, some of them merges, with and without files.
func mergeWorld(n int) *World {
	w := &World{Index: []string{"d/f", "g"}}
	for i := 0; i < n; i++ {
		is := i2s(i)
		p := people[ndChoice("author"+is, 1+min(i, 1))]
		var ds []Df
		switch ndChoice("diffs"+is, 3) {
		case 1:
			ds = []Df{{Add: ndDigits("add"+is, 1), Del: "1", Path: "d/f"}}
		case 2:
			ds = []Df{{Add: "2", Del: "4", Path: "g"}}
		}
		w.addCommit(p, i2s(T0+DAY*i), ds...)
		if i > 0 && ndBool("merge"+is) {
			w.merge(i)
			ndReach("merge")
			if len(ds) > 0 {
				ndReach("mergeWithFiles")
			}
		}
	}
	return w
}

// h: property=C05 quick=150 thorough=240 reach=merge,mergeWithFiles,onlyMerges bound="3 commits, each merge or not, with or without files, 2 authors, one-digit counts (all values); CSV table in every diff mode, name and email keys, with and without --merges, 1 or 2 CPUs"
func H_merge_table() {
	w := mergeWorld(3)
	merges := ndBool("merges")
	mode := treeModes[ndChoice("mode", 5)]
	args := append([]string{"table", "--csv"}, modeFlag(mode)...)
	diff := mode == 'l' || mode == 'f'
	if merges {
		args = append(args, "--merges")
	}
	email := mode != 'm' && ndBool("email")
	if email {
		args = append(args, "-e")
	}
	if diff {
		ndProcs(1 + ndChoice("procs", 2))
	}
	r := RunEnv(w, NoCache(), args...)
	ok(r, "table")
	rows := tallyRef(w.Commits, Opt{Email: email, Diff: diff, Merges: merges})
	if len(rows) == 1 {
		ndReach("onlyMerges")
	}
	checkCsv(r.Out, rows, email, diff, "table")
	ndObserve(r.Out)
}

// h: property=C05 quick=150 thorough=240 reach=merge,mergeWithFiles bound="3 commits, each merge or not, with or without files, 2 authors; tree in every mode, with and without --merges"
func H_merge_tree() {
	w := mergeWorld(3)
	merges := ndBool("merges")
	mode := treeModes[ndChoice("mode", 3)]
	args := append([]string{"tree"}, modeFlag(mode)...)
	if merges {
		args = append(args, "--merges")
	}
	ndProcs(1 + ndChoice("procs", 2))
	r := RunEnv(w, NoCache(), args...)
	ok(r, "tree")
	t := treeRef(w.Commits, Opt{Diff: true, Merges: merges}, w.Index, mode, relId)
	var want []tline
	if len(t.kids) > 0 {
		want = treeLines(t, ".", 0, "", nil, treeOpt{}, nil)
	}
	checkTree(r.Out, want, mode, false, "tree")
	ndObserve(r.Out)
}

// h: property=C05 quick=150 thorough=240 reach=merge,mergeWithFiles bound="3 commits on 3 days, each merge or not, with or without files, 2 authors; hist in every mode, with and without --merges"
func H_merge_hist() {
	w := mergeWorld(3)
	merges := ndBool("merges")
	mode := treeModes[ndChoice("mode", 3)]
	args := append([]string{"hist"}, modeFlag(mode)...)
	if merges {
		args = append(args, "--merges")
	}
	ndProcs(1 + ndChoice("procs", 2))
	now := T0 + 3*DAY
	ndNow(int64(now))
	r := RunEnv(w, NoCache(), args...)
	ok(r, "hist")
	bs := histRef(w.Commits, Opt{Diff: mode != 'C', Merges: merges}, now)
	checkHist(r.Out, bs, mode, false, "hist")
	ndObserve(r.Out)
}

// h: property=C05 quick=100 thorough=240 reach=merge,octopus,single bound="3 commits, the middle one with 1 to 4 parents in hashes of 4 to 40 digits, with or without files; every subcommand and mode, with and without --merges, 1 or 2 CPUs"
func H_octopus() {
	w := &World{Index: []string{"d/f", "g"}}
	w.addCommit(people[0], i2s(T0), Df{Add: "1", Del: "0", Path: "g"})
	var ds []Df
	if ndChoice("diffs", 2) == 1 {
		ds = []Df{{Add: ndDigits("add", 1), Del: "4", Path: "g"}}
	}
	w.addCommit(people[1], i2s(T0+DAY), ds...)
	w.addCommit(people[2], i2s(T0+2*DAY), Df{Add: "2", Del: "1", Path: "d/f"})
	i := &w.Commits[1]
	k := 1 + ndChoice("parents", 4)
	abbrev := []int{4, 7, 40}[ndChoice("abbrev", 3)]
	for j := 1; j < k; j++ {
		i.Parents += " " + Hash(40 + j)[:abbrev]
	}
	switch {
	case k == 1:
		ndReach("single")
	case k == 2:
		ndReach("merge")
	case k > 2:
		ndReach("octopus")
	}
	merges := ndChoice("merges", 2) == 1
	var args []string
	if merges {
		args = append(args, "--merges")
	}
	ndProcs(1 + ndChoice("procs", 2))
	switch ndChoice("cmd", 3) {
	case 0:
		mode := treeModes[ndChoice("mode", 5)]
		diff := mode == 'l' || mode == 'f'
		r := RunEnv(w, NoCache(), append(append([]string{"table", "--csv"}, modeFlag(mode)...), args...)...)
		ok(r, "table")
		checkCsv(r.Out, tallyRef(w.Commits, Opt{Diff: diff, Merges: merges}), false, diff, "table")
		ndObserve(r.Out)
	case 1:
		mode := treeModes[ndChoice("mode", 5)]
		r := RunEnv(w, NoCache(), append(append([]string{"tree"}, modeFlag(mode)...), args...)...)
		ok(r, "tree")
		t := treeRef(w.Commits, Opt{Diff: true, Merges: merges}, w.Index, mode, relId)
		checkTree(r.Out, treeLines(t, ".", 0, "", nil, treeOpt{}, nil), mode, false, "tree")
		ndObserve(r.Out)
	default:
		mode := treeModes[ndChoice("mode", 3)]
		now := T0 + 3*DAY
		ndNow(int64(now))
		r := RunEnv(w, NoCache(), append(append([]string{"hist"}, modeFlag(mode)...), args...)...)
		ok(r, "hist")
		checkHist(r.Out, histRef(w.Commits, Opt{Diff: mode != 'C', Merges: merges}, now), mode, false, "hist")
		ndObserve(r.Out)
	}
}

// h: property=C05 quick=100 thorough=150 reach=shown,oneside,flag,noflag,exclude,sub bound="a merge of two branches of a commit each, which touch any of 3 files, with a commit before and after it and a one-digit count (all values); 6 lists of paths and exclusions, in the root and in a subdirectory; table by lines and by commits, tree and hist, with and without --merges, 1 or 2 CPUs"
func H_merge_paths() {
	files := []string{"d/f", "d/g", "g"}
	w := &World{Root: RootDir(), Index: files}
	add := func(p, f string) {
		w.addCommit(Person{p, p + "@x"}, i2s(T0+DAY*len(w.Commits)), Df{Add: i2s(1 + len(w.Commits)), Del: "1", Path: f})
	}
	f1 := ndChoice("left", 3)
	f2 := ndChoice("right", 3)
	add("Al", "d/f")
	add("Bo", files[f1])
	add("Cy", files[f2])
	w.Commits[2].Parents = w.Commits[0].Short
	w.addCommit(Person{"Em", "Em@x"}, i2s(T0+DAY*3))
	w.Commits[3].Parents = w.Commits[1].Short + " " + w.Commits[2].Short
	if ndChoice("swap", 2) == 1 {
		w.Commits[3].Parents = w.Commits[2].Short + " " + w.Commits[1].Short
	}
	add("Bo", files[ndChoice("after", 3)])
	w.Commits[4].Diffs[0].Add = ndDigits("add", 1)
	specs := [][]string{{"d"}, {"g"}, {"d/f"}, {":!g"}, {"."}, {"d/g", "g"}}[ndChoice("specs", 6)]
	pre := ""
	if specs[0] == "." && ndChoice("sub", 2) == 1 {
		w.Cwd, pre = w.Root+"/d", "d/"
		ndReach("sub")
	}
	if specs[0] == ":!g" {
		ndReach("exclude")
	}
	in := func(p string) bool { return specsMatch(pre, specs, p) }
	o := Opt{Path: in, Merges: ndChoice("merges", 2) == 1}
	both := in(files[f1]) && in(files[f2])
	o.Sel = func(c *Cm) bool {
		if isMerge(c) {
			// git shows a merge if it differs from each of its parents
			return both
		}
		return in(c.Diffs[0].Path)
	}
	switch {
	case both && o.Merges:
		ndReach("shown")
	case both:
		ndReach("noflag")
	case o.Merges:
		ndReach("oneside")
	}
	if o.Merges {
		ndReach("flag")
	}
	cmd := ndChoice("cmd", 4)
	ndProcs(1 + ndChoice("procs", 2))
	ndNow(T0 + 9*DAY)
	r := pathRun(w, w.Commits, pre, specs, cmd, o)
	ndObserve(r.Out)
}
