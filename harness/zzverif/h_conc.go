package zzverif

// concCmds are commands that work in parallel with more than one CPU.
var concCmds = [][]string{{"tree", "-a", "-l"}, {"table", "--csv", "-f"}, {"hist", "-l"}, {"table", "--csv", "-l", "--", "d"}, {"tree", "-c"}, {"hist", "-f", "-e"}, {"table", "--csv", "-l", "--", "d", "g"}}

// h: property=C11 quick=200 thorough=600 reach=cached,three bound="5 commits (3 units of 2 by two or three workers), one symbolic one-digit count, 7 commands, cache off, empty, or holding 2 commits (21 combinations, in the thorough tier 7); every schedule with one deviation (thorough 2) from the default one: a preemption before any channel or lock operation or start of a process (for one turn, or until no other goroutine can run), another goroutine resumed, or another ready case of a select; no data race on any of them"
func H_par_seq() {
	w := cacheWorldK(5, 1)
	cmd, cache, dev := ndChoice("cmd", len(concCmds)), ndChoice("cache", 3), 1
	p := 2 + (cmd+cache)%2
	if ndDeep() {
		ndAssume((cmd+cache)%3 == 0)
		dev = 2
	}
	args := concCmds[cmd]
	ndNow(T0 + 5*DAY + 60)
	ndProcs(1)
	want := RunEnv(w, NoCache(), args...)
	ok(want, "run on one CPU")
	if p == 3 {
		ndReach("three")
	}
	ndProcs(p)
	env := NoCache()
	switch cache {
	case 1:
		env = nil
	case 2:
		env = nil
		all := w.Commits
		w.Commits = all[:2]
		ok(Run(w, args...), "warm-up")
		w.Commits = all
		ndReach("cached")
	}
	ndSchedule(dev)
	ndStalls(true)
	ndRaces(true)
	got := RunEnv(w, env, args...)
	ndSchedule(0)
	ndRaces(false)
	ok(got, "run on several CPUs")
	ndAssert(got.Out == want.Out, "same output on several CPUs as on one")
	if env == nil {
		r := Run(w, args...)
		ok(r, "run with everything cached")
		ndAssert(r.Out == want.Out, "same output from the cache")
		ndAssert(len(asked(r)) == 0, "everything was stored")
	}
	ndObserve(got.Out)
}

// h: property=C12 quick=300 thorough=600 reach=git,malformed,add,mid,full bound="5 commits (3 units of 2, two or three workers), 4 commands; the git log process of any one unit fails (exit 128 after nothing, all, or half of its output), or any commit is malformed, or the cache directory cannot be used, or the disk is full after any of 5 amounts of data; every schedule with one deviation (thorough 2) from the default one, as in H_par_seq, with no data race on any of them; then a run without the failure"
func H_worker_fails() {
	w := cacheWorldK(5, 1)
	kind := ndChoice("kind", 5)
	cmd := ndChoice("cmd", 4)
	ndAssume(cmd < 3 || kind == 1 || ndDeep())
	args := concCmds[cmd]
	ndNow(T0 + 5*DAY + 60)
	ndProcs(2 + (cmd+kind)%2)
	want := RunEnv(w, NoCache(), args...)
	ok(want, "run without a failure")
	which := 2 * ndChoice("unit", 3)
	env := NoCache()
	f := Fault{Cmd: "log", Match: Hash(which), Code: 128, Keep: 0, Msg: "fatal: broken\n"}
	date := w.Commits[which].Date
	switch kind {
	case 0:
		w.Faults = []Fault{f}
		ndReach("git")
	case 1:
		f.Keep = ndPickInt("keep", -1, 120)
		w.Faults = []Fault{f}
		env = nil
		ndReach("mid")
	case 2:
		w.Commits[which].Date = "16x"
		ndReach("malformed")
	case 3:
		ndAssume(which == 0)
		env = nil
		DiskFull(ndPickInt("space", 0, 5, 300, 700, 1000))
		ndReach("full")
	default:
		// a file stands where the cache's directory should be
		ndAssume(which == 0)
		env = nil
		ok(Run(w, "table", "-l"), "first run")
		for _, x := range Files(CacheHome()) {
			RemoveFile(x)
			RemoveTree(dirOf(x))
			WriteFile(dirOf(x), "x")
		}
		ndReach("add")
	}
	if ndDeep() {
		ndSchedule(2)
	} else {
		ndSchedule(1)
	}
	ndStalls(true)
	ndRaces(true)
	r := RunEnv(w, env, args...)
	ndSchedule(0)
	ndRaces(false)
	asks := false
	for _, h := range asked(r) {
		if h == w.Commits[which].Hash {
			asks = true
		}
	}
	if kind == 3 && r.Code != 0 {
		failed(r, args[0], "the cache could not be written")
	} else if kind >= 3 || r.Code == 0 && !asks {
		ok(r, "run that does not meet the failure")
		ndAssert(r.Out == want.Out, "complete result")
	} else {
		failed(r, args[0], "a worker failed")
	}
	w.Faults = nil
	w.Commits[which].Date = date
	if env == nil {
		r = Run(w, args...)
		ok(r, "run after a failure")
		ndAssert(r.Out == want.Out, "complete result after a failure")
	}
	ndObserve(want.Out)
}

// h: property=C11 quick=150 thorough=240 reach=noemail,noname,shared,cached bound="5 commits (3 units of 2), each by one of 4 authors of whom one has no email, one no name, and two share a name (the first, third and last free), on one day or on several, ranked by every metric, by name and by email; tree, table and hist; without a cache or with one that holds the first 2 commits; 2 or 3 workers"
func H_par_keys() {
	ps := []Person{{"Al", "al@x"}, {"No", ""}, {"", "e@x"}, {"Al", "b@x"}}
	w := &World{Index: []string{"d/f", "g"}}
	gap := ndPickInt("gap", 60, DAY)
	for i := 0; i < 5; i++ {
		p := ps[(i+1)%4]
		if i%2 == 0 {
			p = ps[ndChoice("author"+i2s(i), 4)]
			if p.Email == "" {
				ndReach("noemail")
			} else if p.Name == "" {
				ndReach("noname")
			} else if p.Email == "b@x" {
				ndReach("shared")
			}
		}
		w.addCommit(p, i2s(T0+gap*((i*3)%5)), Df{Add: i2s(1 + i), Del: "2", Path: []string{"g", "d/f"}[i%2]}, Df{Add: "1", Del: i2s(i), Path: "g" + i2s(i/2)})
	}
	args := [][]string{{"tree", "-a", "-l"}, {"tree", "-a", "-m"}, {"tree", "-a", "-c"}, {"tree", "-a"}, {"tree", "-f"}, {"table", "-l"}, {"table", "--csv", "-f"}, {"hist", "-l"}, {"hist", "-f"}}[ndChoice("cmd", 9)]
	if ndChoice("email", 2) == 1 {
		args = append(args[:len(args):len(args)], "-e")
	}
	ndNow(T0 + 5*DAY + 60)
	ndProcs(1)
	want := RunEnv(w, NoCache(), args...)
	ok(want, "run on one CPU")
	ndProcs(2 + ndChoice("procs", 2))
	env := NoCache()
	if ndChoice("cached", 2) == 1 {
		env = nil
		all := w.Commits
		w.Commits = all[:2]
		ok(Run(w, args...), "warm-up")
		w.Commits = all
		ndReach("cached")
	}
	got := RunEnv(w, env, args...)
	ok(got, "run on several CPUs")
	ndAssert(got.Out == want.Out, "same output on several CPUs as on one")
	ndObserve(got.Out)
}
