package zzverif

// h: property=C29 quick=200 thorough=600 reach=ran,empty,some,corrupt,left,grown,mapped bound="a run over 4 commits (units of 2, 2 CPUs) that is suspended before any one of its operations on files, reads included, while another run, of any of 4 command lines and over the same history, one with a commit more, or with a mailmap file added before it, takes place from start to end; then two more runs; beginning with no cache, one of 2 commits, an unreadable one, or leftovers of an interrupted run"
func H_two_runs() {
	w := cacheWorldK(5, 1)
	all := w.Commits
	a, b := ndChoice("cmd", 3), ndChoice("other", 4)
	if !ndDeep() {
		ndAssume(b == (a+1)%3 || b == a || b == 3)
	}
	ndNow(T0 + 5*DAY + 60)
	ndProcs(2)
	args, oargs := cacheArgs(a), cacheArgs(b)
	if b == 3 {
		oargs = []string{"hist", "-l"}
	}
	start := ndChoice("start", 4)
	if start > 0 {
		w.Commits = all[:2]
		same(w, "warm-up", args...)
		for _, f := range Files(CacheHome()) {
			if start == 2 {
				c, _ := ReadFile(f)
				WriteFile(f, c[:len(c)/2])
			}
			if start == 3 {
				WriteFile(f[:len(f)-3], "leftover")
			}
		}
	}
	w.Commits = all[:4]
	ndReach([]string{"empty", "some", "corrupt", "left"}[start])
	grown := ndChoice("grown", 2) == 1
	want := RunEnv(w, NoCache(), args...)
	v := *w
	if grown {
		v.Commits = all
	}
	owant := RunEnv(&v, NoCache(), oargs...)
	// A map that maps nobody: another file of the cache is to be used.
	mapped := start < 2 && !grown && ndChoice("mapped", 2) == 1
	var q Result
	Together(1, func() {
		if mapped {
			WriteFile(w.Root+"/.mailmap", "# nothing\n")
			ndReach("mapped")
		}
		q = Run(&v, oargs...)
	})
	got := Run(w, args...)
	ndAssume(Joined())
	ndReach("ran")
	ok(q, "the run in between")
	ndAssert(q.Out == owant.Out, "the run in between prints what it would without a cache")
	ok(got, "the run around it")
	ndAssert(got.Out == want.Out, "the run around it prints what it would without a cache")
	w.Commits = all
	if grown {
		ndReach("grown")
	}
	works(w, args)
}

// h: property=C29 quick=300 thorough=800 reach=ran,empty,some,corrupt bound="two runs at once (tree -a or table -l each) over 4 commits (units of 2, 2 CPUs): the first is suspended before any one of its operations on files, reads included, the second before any one of its own, then the first runs to its end (thorough, with tree and table and an unreadable cache: or is suspended again), and the second to its; then two more runs; beginning with no cache, one of 2 commits, or an unreadable one"
func H_two_turns() {
	w := cacheWorldK(4, 1)
	all := w.Commits
	a := ndChoice("cmd", 2)
	b := ndChoice("other", 2)
	ndNow(T0 + 5*DAY + 60)
	ndProcs(2)
	args, oargs := cacheArgs(a), cacheArgs(b)
	start := ndChoice("start", 3)
	deep := ndDeep() && start == 2 && a == 0 && b == 1
	if start > 0 {
		w.Commits = all[:2]
		same(w, "warm-up", args...)
		for _, f := range Files(CacheHome()) {
			if start == 2 {
				c, _ := ReadFile(f)
				WriteFile(f, c[:len(c)/2])
			}
		}
	}
	w.Commits = all
	ndReach([]string{"empty", "some", "corrupt"}[start])
	want, owant := RunEnv(w, NoCache(), args...), RunEnv(w, NoCache(), oargs...)
	n := 2
	if deep {
		n = 2 + ndChoice("turns", 2)
	}
	var q Result
	Together(n, func() { q = Run(w, oargs...) })
	got := Run(w, args...)
	ndAssume(Joined())
	ndReach("ran")
	ok(got, "the first run")
	ok(q, "the second run")
	ndAssert(got.Out == want.Out, "the first run prints what it would alone")
	ndAssert(q.Out == owant.Out, "the second run prints what it would alone")
	works(w, args)
}
