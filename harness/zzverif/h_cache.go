package zzverif

import "strings"

// ways of asking, all of which use the cache with more than one CPU
var cacheCmds = [][]string{
	{"tree", "-a"}, {"table", "--csv", "-l"}, {"hist", "-f"}, {"tree", "-l", "--", "d"}, {"table", "--csv", "-f", "--author", "Al"},
	{"table", "--csv", "-l", "@1"}, {"hist", "-l", "--merges", "--", "g"}, {"tree", "-f", "--nauthor", "Bo"}, {"tree"},
}

// cacheArgs is the i-th way, with "@n" standing for the n-th commit.
func cacheArgs(i int) []string {
	var r []string
	for _, a := range cacheCmds[i] {
		if strings.HasPrefix(a, "@") {
			a = Hash(int(a[1] - '0'))
		}
		r = append(r, a)
	}
	return r
}

// same runs the program with and without the cache and asserts equal results.
func same(w *World, what string, args ...string) Result {
	r := Run(w, args...)
	ok(r, what)
	q := RunEnv(w, NoCache(), args...)
	ok(q, what+" without a cache")
	ndAssert(r.Out == q.Out, what+": same output as without a cache")
	return r
}

// asked lists the commits a run asked git for by hash.
func asked(r Result) []string {
	var hs []string
	for _, c := range r.Calls {
		if contains(c.Args, "--stdin") {
			for _, l := range strings.Split(c.Stdin, "\n") {
				if l != "" {
					hs = append(hs, l)
				}
			}
		}
	}
	return hs
}

const cutMax = 700

func cacheWorld(n int) *World { return cacheWorldK(n, n) }

// cacheWorldK has n commits, k of them with a symbolic count.
func cacheWorldK(n, k int) *World {
	w := &World{Index: []string{"d/f", "g", "d/h i"}, Paths: []string{"d/f", "g"}}
	for i := 0; i < n; i++ {
		add := i2s(1 + i)
		if i < k {
			add = ndDigits("add"+i2s(i), 1)
		}
		w.addCommit(people[i%2], i2s(T0+i*DAY), Df{Add: add, Del: "2", Path: []string{"g", "d/f"}[i%2]})
	}
	c := &w.Commits[1]
	c.Diffs = append(c.Diffs, Df{Add: "-", Del: "-", Path: "g"}, Df{Add: "0", Del: "0", Old: "g", Path: "d/h i"})
	if n > 2 {
		w.merge(2)
		w.Commits[2].Diffs = nil
	}
	return w
}

// h: property=C13 quick=150 thorough=240 reach=added,dropped,amended,hit bound="4 commits (a merge, a rename, a binary file, one-digit counts of all values) in units of 2; 2 runs with any of 9 different command lines each, and the second once more; between them nothing changes, a commit is added, dropped or replaced; 2 CPUs (tree also with 1)"
func H_cache_runs() {
	w := cacheWorld(4)
	a := ndChoice("first", len(cacheCmds))
	b := ndChoice("second", len(cacheCmds))
	ndProcs(2)
	ndNow(T0 + 5*DAY + 60)
	r1 := same(w, "first run", cacheArgs(a)...)
	done := asked(r1)
	switch ndChoice("change", 4) {
	case 1:
		ndReach("added")
		w.addCommit(people[1], i2s(T0+4*DAY), Df{Add: "7", Del: "0", Path: "d/f"})
	case 2:
		ndReach("dropped")
		w.Commits = w.Commits[:3]
	case 3:
		ndReach("amended")
		w.Commits = w.Commits[:3]
		w.addCommit(people[0], i2s(T0+3*DAY+9), Df{Add: "8", Del: "0", Path: "g"})
		w.Commits[3].Hash = Hash(9)
		w.Commits[3].Short = ShortOf(Hash(9))
	}
	args := cacheArgs(b)
	if ndChoice("serial", 2) == 1 {
		ndAssume(args[0] == "tree")
		ndProcs(1)
	}
	for k := 0; k < 2; k++ {
		r := same(w, "later run", args...)
		hs := asked(r)
		for _, h := range hs {
			ndAssert(!contains(done, h), "a commit in the cache is not asked of git again")
		}
		if len(hs) == 0 {
			ndReach("hit")
		}
		if k == 1 {
			ndAssert(len(hs) == 0, "the same run again needs nothing from git")
		}
		done = append(done, hs...)
		ndObserve(r.Out)
	}
}

// h: property=C14 quick=150 thorough=240 reach=crashed,second bound="a run over 5 commits (3 units of 2) that is killed before any one of its changes to the file system (up to 40), or after 0, 1/4, 1/2 or 3/4 of a write, starting with no cache or one of 2 commits; then two runs of the same or another command (thorough: the second is killed as well)"
func H_cache_crash() {
	w := cacheWorld(5)
	all := w.Commits
	a := ndChoice("cmd", 2)
	args := cacheArgs(a)
	ndProcs(2)
	ndNow(T0 + 5*DAY + 60)
	if ndChoice("warm", 2) == 1 {
		w.Commits = all[:2]
		same(w, "warm-up", args...)
		w.Commits = all
		ndReach("second")
	}
	CrashAt(ndChoice("at", 40), ndChoice("part", 4))
	r := Run(w, args...)
	if !Crashed() && !ndNative() {
		ndAssume(false)
	}
	ndReach("crashed")
	if ndDeep() {
		CrashAt(ndChoice("at2", 30), 2)
		r = Run(w, args...)
		Crashed()
	}
	next := cacheArgs((a + ndChoice("other", 2)) % 2)
	r = same(w, "run after an interruption", next...)
	works(w, next)
	ndObserve(r.Out)
}

// works asserts that what a run has to ask git for is not asked for again, and
// that what was left behind is gone.
func works(w *World, args []string) {
	defer func() { ndAssert(len(Files(CacheHome())) <= 1, "nothing but the cache is kept") }()
	if len(asked(same(w, "next run", args...))) > 0 {
		r := same(w, "run after that", args...)
		ndAssert(len(asked(r)) == 0, "the cache works again afterwards")
	}
}

// h: property=C14 quick=150 thorough=240 reach=short,flip,gone,junk,left,sum bound="after a run over 4 commits the stored file is cut to any length, has any one byte changed to any value, or a name in it changed but not its checksum, is removed, or is replaced by a directory or one of 5 contents, or an unreadable uncompressed file is left beside or instead of it; then two runs"
func H_cache_damage() {
	w := cacheWorld(4)
	ndProcs(2)
	ndNow(T0 + 5*DAY + 60)
	cmd := ndChoice("cmd", 2)
	args := cacheArgs(cmd)
	same(w, "first run", args...)
	var gz string
	for _, f := range Files(CacheHome()) {
		if strings.HasSuffix(f, ".gz") {
			gz = f
		}
	}
	ndAssert(gz != "", "there is a stored file")
	data, _ := ReadFile(gz)
	plain := strings.TrimSuffix(gz, ".gz")
	ndAssert(ndNative() || len(data) <= cutMax, "stored "+i2s(len(data)))
	ndTrace("stored " + i2s(len(data)))
	dam := ndChoice("damage", 8)
	if !ndDeep() && cmd > 0 {
		ndAssume(dam > 1)
	}
	switch dam {
	case 0:
		WriteFile(gz, data[:ndChoice("cut", cutMax)%len(data)])
		ndReach("short")
	case 1:
		b := []byte(data)
		i := ndChoice("pos", cutMax) % len(b)
		b[i] ^= ndByte("xor", 1, 255)
		WriteFile(gz, string(b))
		ndReach("flip")
	case 2:
		RemoveFile(gz)
		ndReach("gone")
	case 3:
		WriteFile(gz, ndPick("junk", "", "\x1f\x8b", "hello\n", "\x00\x00\x00\x00\x00\x00\x00\x00", data+data))
		ndReach("junk")
	case 4:
		RemoveFile(gz)
		WriteFile(gz+"/x", "y")
	case 5:
		WriteFile(plain, ndPick("old", "", "junk"[:3], "\x10\x00\x00\x00ju", "\x02\x00\x00\x00ju"))
		if ndChoice("both", 2) == 1 {
			RemoveFile(gz)
		}
		ndReach("left")
	case 6:
		WriteFile(gz, wrongSum(data, "Bo", "Bu"))
		ndReach("sum")
	default:
		WriteFile(plain+"/x", "y")
	}
	r := same(w, "run after damage", args...)
	works(w, args)
	ndObserve(r.Out)
}

// h: property=C15 quick=150 thorough=240 reach=map,unmap,edit,global,both,repo,long,split bound="2 runs (thorough 3), each in one of 2 clones with the same name and commits, with no, one of 2 or an empty .mailmap in the repository and no, one of 2 or a missing mailmap file named in git's configuration; or two that together read like another map but map nobody; tree, table or hist; the maps beginning alike for 70000 bytes or not"
func H_cache_identity() {
	base := RootDir()
	roots := []string{base + "/a/p", base + "/b/p"}
	w := &World{Index: []string{"f"}}
	for i := 0; i < 3; i++ {
		w.addCommit(people[i%2], i2s(T0+i*DAY), Df{Add: "1", Del: "2", Path: "f"})
	}
	// The last of each together read like the first .mailmap, but map nobody.
	rmaps := []string{"", "Xe <xe@y> <al@x>\n", "Ze <xe@y> <al@x>\n", "# nothing\n", "Xe <xe@y>"}
	gmaps := []string{"", "Ye <ye@y> <al@x>\n", "Ze <xe@y> <al@x>\n", "?", " <al@x>\n"}
	long := ""
	if cmd0 := ndChoice("long", 2); cmd0 == 1 {
		// most of the maps is the same
		long = strings.Repeat("# "+strings.Repeat("x", 61)+"\n", 1100)
		ndReach("long")
	}
	ndProcs(2)
	ndNow(T0 + 3*DAY + 60)
	cmd := ndPick("cmd", "tree", "table", "hist")
	args := []string{cmd, "-l"}
	if cmd == "table" {
		args = append(args, "--csv", "-e")
	}
	runs := 2
	if ndDeep() {
		runs = 3
	}
	prev := -1
	var used []string
	for k := 0; k < runs; k++ {
		ks := i2s(k)
		w.Root = roots[ndChoice("repo"+ks, 2)]
		if !contains(used, w.Root) {
			used = append(used, w.Root)
		}
		rm := ndChoice("map"+ks, 4)
		gm := ndChoice("global"+ks, 4)
		if rm == 3 && gm > 0 && ndChoice("split"+ks, 2) == 1 {
			rm, gm = 4, 4
			ndReach("split")
		}
		ndAssume(long == "" || w.Root == roots[0] && cmd == "table" && rm*gm == 0)
		RemoveFile(w.Root + "/.mailmap")
		RemoveFile(base + "/global")
		w.Mailmap = ""
		name, email := "", ""
		if rm > 0 {
			WriteFile(w.Root+"/.mailmap", long+rmaps[rm])
			if rm < 3 {
				name, email = rmaps[rm][:2], "xe@y"
			}
			ndReach("map")
		}
		if gm > 0 {
			w.Mailmap = base + "/global"
			if gm != 3 {
				WriteFile(w.Mailmap, long+gmaps[gm])
			}
			if gm < 3 {
				name, email = gmaps[gm][:2], gmaps[gm][4:8]
			}
			ndReach("global")
			if rm > 0 {
				ndReach("both")
			}
		}
		m := rm*5 + gm
		if prev > 0 && m == 0 {
			ndReach("unmap")
		}
		if prev > 0 && m > 0 && m != prev {
			ndReach("edit")
		}
		if k > 0 && w.Root != roots[0] {
			ndReach("repo")
		}
		prev = m
		for i := range w.Commits {
			c := &w.Commits[i]
			c.MName, c.MEmail = "", ""
			if name != "" && c.Name == "Al" {
				c.MName, c.MEmail = name, email
			}
		}
		r := same(w, "run "+ks, args...)
		for _, f := range Files(CacheHome()) {
			ndAssert(strings.HasPrefix(f, CacheHome()+"/git-who/"), "files stay in git-who's own cache directory")
		}
		ndAssert(len(Files(CacheHome())) <= len(used), "one file for each repository: nothing of earlier mailmaps is left")
		ndObserve(r.Out)
	}
}

// h: property=C15 quick=60 thorough=60 reach=two bound="tree, table and hist run in 2 clones of the same name, in turn, in either order and with either having more commits"
func H_cache_repos() {
	base := RootDir()
	roots := []string{base + "/a/p", base + "/b/p"}
	first := ndChoice("first", 2)
	more := ndChoice("more", 2)
	args := cacheArgs([]int{0, 1, 2}[ndChoice("cmd", 3)])
	ndProcs(2)
	ndNow(T0 + 5*DAY + 60)
	w := cacheWorld(4)
	full := w.Commits
	for k := 0; k < 4; k++ {
		at := (first + k) % 2
		w.Root = roots[at]
		n := 3
		if at == more {
			n = 4
		}
		w.Commits = full[:n]
		r := same(w, "run "+i2s(k), args...)
		if k < 2 {
			ndAssert(len(asked(r)) == n, "the first run in a repository reads its own history")
		} else {
			ndAssert(len(asked(r)) == 0, "each repository keeps a cache of its own")
			ndReach("two")
		}
		ndObserve(r.Out)
	}
}

// h: property=C15 quick=60 thorough=60 reach=off bound="tree, table, hist with caching disabled by any of 4 values in the environment, with and without an earlier cached run"
func H_cache_off() {
	w := cacheWorld(3)
	ndProcs(2)
	ndNow(T0 + 5*DAY + 60)
	before := 0
	if ndChoice("earlier", 2) == 1 {
		same(w, "earlier run", "tree")
		before = len(Files(CacheHome()))
		w.addCommit(people[1], i2s(T0+4*DAY), Df{Add: "7", Del: "0", Path: "d/f"})
	}
	vars := map[string]string{"GIT_WHO_DISABLE_CACHE": ndPick("value", "1", "true", "0", "yes")}
	r := RunEnv(w, vars, ndPick("cmd", "tree", "table", "hist"), "-l")
	ok(r, "run without a cache")
	ndAssert(len(asked(r)) == len(w.Commits), "everything is read from git")
	ndAssert(len(Files(CacheHome())) == before, "no files are left behind")
	ndReach("off")
	ndObserve(r.Out)
}

// h: property=C14 quick=150 thorough=240 reach=failed,partial bound="a run over 5 commits (3 units of 2) in which one of git's log processes fails with code 128 after any of 30 prefixes of its output (every 8 bytes), starting with no cache or one of 2 commits; then two runs of the same or another command"
func H_cache_fault() {
	w := cacheWorld(5)
	all := w.Commits
	ways := []int{0, 1, 4}
	a := ndChoice("cmd", 3)
	args := cacheArgs(ways[a])
	ndProcs(2)
	ndNow(T0 + 5*DAY + 60)
	if ndChoice("warm", 2) == 1 {
		w.Commits = all[:2]
		same(w, "warm-up", args...)
		w.Commits = all
	}
	w.Faults = []Fault{{Cmd: "log", Match: Hash(2 * ndChoice("which", 3)), Code: 128, Keep: 8 * ndChoice("keep", 30), Msg: "fatal: killed\n"}}
	r := Run(w, args...)
	if r.Code == 0 {
		ndAssume(false) // not asked for that commit
	}
	ndReach("failed")
	if len(Files(CacheHome())) > 0 {
		ndReach("partial")
	}
	w.Faults = nil
	next := cacheArgs(ways[(a+ndChoice("other", 2))%3])
	r = same(w, "run after a failed one", next...)
	works(w, next)
	ndObserve(r.Out)
}

// h: property=C13 quick=60 thorough=120 reach=diff,author,shallow bound="3 commits (one-digit counts of all values), all stored by a first run; then what git shows for any one of them under the same hash changes (the lines counted, the author, or the files, as by replace refs, diff settings and attributes, or at the edge of a shallow history); a second run of any of 5 command lines with 2 CPUs"
func H_cache_context() {
	w := cacheWorldK(3, 3)
	j, kind, cmd := ndChoice("commit", 3), ndChoice("kind", 3), ndChoice("cmd", 5)
	ndProcs(2)
	ndNow(T0 + 5*DAY + 60)
	same(w, "first run", "tree", "-a")
	args := [][]string{{"tree", "-a", "-l"}, {"table", "--csv", "-l"}, {"table", "--csv", "-f", "-e"}, {"hist", "-f"}, {"hist", "-l", "--merges"}}[cmd]
	stale := RunEnv(w, NoCache(), args...)
	ok(stale, "run before the change")
	c := &w.Commits[j]
	switch kind {
	case 0:
		ndReach("diff")
		for i := range c.Diffs {
			if c.Diffs[i].Add != "-" {
				c.Diffs[i].Del = ndDigits("del", 1)
			}
		}
	case 1:
		ndReach("author")
		c.Name, c.Email = people[2].Name, people[2].Email
	case 2:
		ndReach("shallow")
		c.Diffs = []Df{{Add: "5", Del: "0", Path: "d/f"}, {Add: "7", Del: "0", Path: "g"}}
	}
	got := Run(w, args...)
	ok(got, "run after the change")
	want := RunEnv(w, NoCache(), args...)
	ok(want, "run after the change without a cache")
	ndAssert(got.Out == want.Out || got.Out == stale.Out, "output of before or of after the change")
	if got.Out == stale.Out {
		ndKnown("stale-context")
	}
	ndAssert(got.Out == want.Out, "same output as without a cache")
}
