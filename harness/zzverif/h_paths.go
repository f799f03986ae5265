package zzverif

import "strings"

// compMatch is matching in which no wildcard matches '/', except that a
// pattern starting with '*' may match a file at any depth.
func compMatch(spec, path string) bool {
	for i := range path {
		// everything below a matching directory matches
		if path[i] == '/' && compGlob(strings.TrimSuffix(spec, "/"), path[:i]) {
			return true
		}
	}
	if compGlob(spec, path) {
		return true
	}
	for i := range path {
		if spec[0] == '*' && path[i] == '/' && compGlob(spec, path[i+1:]) {
			return true
		}
	}
	return false
}

func compGlob(p, s string) bool {
	if p == "" {
		return s == ""
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if compGlob(p[1:], s[i:]) {
				return true
			}
			if i < len(s) && s[i] == '/' {
				return false
			}
		}
		return false
	case '?':
		return s != "" && s[0] != '/' && compGlob(p[1:], s[1:])
	}
	return s != "" && s[0] == p[0] && compGlob(p[1:], s[1:])
}

// symSpec is a path or pattern of n symbolic bytes.
func symPath(name string, n int, wild bool) string {
	s := ndStr(name, n, '*', 'b')
	for i := range s {
		c := s[i]
		if wild {
			ndAssume(c == 'a' || c == 'b' || c == '/' || c == '*' || c == '?' || c == '.')
		} else {
			ndAssume(c == 'a' || c == 'b' || c == '/' || c == '.')
		}
	}
	if !wild {
		ndAssume(s[n-1] != '/')
	}
	ndAssume(s[0] != '/' && !strings.Contains(s, "//"))
	for _, p := range strings.Split(s, "/") {
		ndAssume(p != "." && p != "..")
	}
	return s
}

var pathFiles = []string{"d/f", "d/e", "d/e/h", "df", "d.x", "g", "[x].c", "d/g", "d/e.x"}

var pathSpecs = [][]string{
	{"d"}, {"d/"}, {"df"}, {"g"}, {"d/e"}, {"*.x"}, {"d*"}, {"[x].c"}, {"?"}, {"./d"}, {"."}, {"d/f", "g"}, {"nothing"}, {"f/"},
	{":!d"}, {":^g"}, {":(exclude)d/e"}, {":!:*.x"}, {"d", ":!d/e"}, {"g", "d", ":^d/f"}, {"d/", ":!d/g"}, {":!d", ":!g"}, {"../g"}, {"e"}, {"../d"}, {"../*.x", ":!e"}, {"d/e/"}, {":!e/"},
}

// h: property=C16 quick=200 thorough=300 reach=some,none,sub,exclude,serial,dirname bound="2 commits touching any 2 and 1 of 9 files (thorough: 3 commits; nested directories, siblings sharing a prefix, a file replaced by a directory, a name that looks like a pattern) with one-digit counts (all values); 28 lists of paths, patterns and exclusions; in the root and in a subdirectory; table, tree and hist in the modes that count lines, files or commits; 1 or 2 CPUs"
func H_paths() {
	w := &World{Root: RootDir(), Index: []string{"[x].c", "d.x", "d/e/h", "d/f", "d/g", "df", "g"}}
	pre := ""
	specs := pathSpecs[ndChoice("specs", len(pathSpecs))]
	ups := false
	for _, s := range specs {
		ups = ups || strings.HasPrefix(s, "../")
	}
	if ups || ndChoice("sub", 2) == 1 {
		w.Cwd = w.Root + "/d"
		pre = "d/"
		ndReach("sub")
	}
	a := ndChoice("file0", len(pathFiles))
	b := (a + 1 + ndChoice("next", 2)*2) % len(pathFiles)
	c := ndChoice("file1", len(pathFiles))
	w.addCommit(people[0], i2s(T0), Df{Add: ndDigits("a", 1), Del: "1", Path: pathFiles[a]}, Df{Add: "3", Del: "0", Path: pathFiles[b]})
	w.addCommit(people[1], i2s(T0+DAY), Df{Add: "2", Del: "4", Path: pathFiles[c]})
	if ndDeep() {
		w.addCommit(people[0], i2s(T0+2*DAY), Df{Add: "5", Del: "-", Path: pathFiles[(a+c)%9]})
	}
	procs := 1 + ndChoice("procs", 2)
	if procs == 1 {
		ndReach("serial")
	}
	sel := func(p string) bool { return specsMatch(pre, specs, p) }
	touches := func(c *Cm) bool {
		for _, d := range c.Diffs {
			if sel(d.Path) {
				return true
			}
		}
		return false
	}
	for _, s := range specs {
		if s[0] == ':' {
			ndReach("exclude")
		}
	}
	o := Opt{Path: sel, Sel: touches}
	ndNow(T0 + 3*DAY)
	ndProcs(procs)
	cmd := ndChoice("cmd", 4)
	pathKnown(procs, cmd, pre, specs, pathFiles)
	r := pathRun(w, w.Commits, pre, specs, cmd, o)
	ndObserve(r.Out)
}

func pathKnown(procs, cmd int, pre string, specs, files []string) {
	for _, s := range specs {
		// listed finding: a wildcard that would have to match '/'
		pat, _ := splitSpec(s)
		for _, d := range files {
			rel := strings.TrimPrefix(d, pre)
			if procs > 1 && (cmd != 3) && strings.ContainsAny(pat, "*?") && specMatch(under(pre, pat), d) != (compMatch(under(pre, pat), d) || rel != d && compMatch(pat, rel)) {
				ndKnown("wildcard-slash")
			}
		}
	}
}

// pathRun runs one of 4 ways to show results, limited by specs, and compares
// with the specification for the commits cs.
func pathRun(w *World, cs []Cm, pre string, specs []string, cmd int, o Opt) Result {
	sel := o.Path
	var args []string
	switch cmd {
	case 0:
		args = []string{"table", "--csv", "-l", "--"}
	case 1:
		args = []string{"tree", "-a", "-l", "--"}
	case 2:
		args = []string{"hist", "-f", "--until", i2s(NOW), "--"}
	default:
		args = []string{"table", "--csv", "--"}
	}
	o.Diff = cmd < 3
	if o.Merges {
		args = append([]string{args[0], "--merges"}, args[1:]...)
	}
	r := RunEnv(w, NoCache(), append(args, specs...)...)
	ok(r, args[0])
	rows := tallyRef(cs, o)
	if len(rows) == 0 {
		ndReach("none")
	} else {
		ndReach("some")
	}
	switch cmd {
	case 0, 3:
		checkCsv(r.Out, rows, false, o.Diff, "table")
	case 1:
		rel := func(p string) (string, bool) { return strings.CutPrefix(p, pre) }
		var index []string
		for _, p := range w.Index {
			if q, in := rel(p); in && sel(p) {
				index = append(index, q)
			}
		}
		t := treeRef(cs, o, index, 'l', rel)
		var want []tline
		if len(t.kids) > 0 {
			want = treeLines(t, ".", 0, "", nil, treeOpt{all: true}, nil)
		}
		if len(want) == 1 && !want[0].dir {
			ndReach("dirname")
		}
		checkTree(r.Out, want, 'l', false, "tree")
	case 2:
		checkHist(r.Out, histRef(cs, o, 0), 'f', false, "hist")
	}
	return r
}

// h: property=C16 quick=150 thorough=200 reach=some,none,sub,only,mixed bound="8 commits of a file each, two of them of another too, over 8 files whose names begin with !, ^, : or ( or lie in a directory; an exclusion written in each of 5 ways of each of 10 names and patterns, alone or beside one of 5 other paths, before or after; in the root and in a subdirectory; table, tree and hist; 1 or 2 CPUs"
func H_exclude_forms() {
	files := []string{"a", "^a", "!a", ":a", "d/a", "d/^a", "d/!a", "(a"}
	w := &World{Root: RootDir(), Index: files}
	for i, f := range files {
		ds := []Df{{Add: i2s(1 + i), Del: "1", Path: f}}
		if i%4 == 1 {
			ds = append(ds, Df{Add: "9", Del: i2s(i), Path: files[(i+3)%8]})
		}
		w.addCommit(people[i%3], i2s(T0+DAY*i), ds...)
	}
	pat := ndPick("pat", "a", "^a", "!a", ":a", "(a", "d", "d/", "d/^a", "?a", "*")
	form := ndPick("form", ":!", ":^", ":!:", ":^:", ":(exclude)")
	// git reads further magic letters after the short form
	ndAssume(len(form) > 2 || pat[0] != '^' && pat[0] != '!' && pat[0] != ':' && pat[0] != '(' && pat[0] != '?' && pat[0] != '*')
	specs := []string{form + pat}
	if p := ndPick("other", "", "a", "^a", ".", "d", ":!d/!a"); p != "" {
		if ndChoice("before", 2) == 1 {
			specs = []string{p, specs[0]}
		} else {
			specs = append(specs, p)
		}
		ndReach("mixed")
	} else {
		ndReach("only")
	}
	pre := ""
	if ndChoice("sub", 2) == 1 {
		w.Cwd = w.Root + "/d"
		pre = "d/"
		ndReach("sub")
	}
	procs := 1 + ndChoice("procs", 2)
	ndProcs(procs)
	ndNow(T0 + 9*DAY)
	o := Opt{Path: func(p string) bool { return specsMatch(pre, specs, p) }}
	o.Sel = func(c *Cm) bool {
		for _, d := range c.Diffs {
			if o.Path(d.Path) {
				return true
			}
		}
		return false
	}
	cmd := ndChoice("cmd", 4)
	pathKnown(procs, cmd, pre, specs, files)
	r := pathRun(w, w.Commits, pre, specs, cmd, o)
	if len(tallyRef(w.Commits, o)) == 0 {
		ndReach("none")
	} else {
		ndReach("some")
	}
	ndObserve(r.Out)
}

// h: property=C16 quick=100 thorough=150 reach=in,out,within,beyond,serial,binary bound="3 commits, one of them renaming one of 4 files (text of 7 lines or binary) to one of 4 names with a one-digit number of added lines (all values), beside another change or not; 8 lists of paths and exclusions; in the root and in a subdirectory; table, tree and hist; 1 or 2 CPUs"
func H_path_renames() {
	files := []string{"d/a", "d/e/a", "b", "da"}
	w := &World{Root: RootDir(), Index: []string{"d/a", "d/e/a", "b", "da", "d/n", "d/e/n", "n", "dn"}}
	old := ndPick("old", files...)
	path := ndPick("new", "d/n", "d/e/n", "n", "dn")
	w.addCommit(people[0], i2s(T0), Df{Add: "7", Del: "0", Path: old})
	d := Df{Add: ndDigits("a", 1), Del: "2", Old: old, Path: path, Len: "7"}
	if ndChoice("binary", 4) == 3 {
		d.Add, d.Del, d.Len = "-", "-", "-"
		ndReach("binary")
	}
	ds := []Df{d}
	if ndChoice("more", 2) == 1 {
		ds = append(ds, Df{Add: "1", Del: "0", Path: "z"})
	}
	w.addCommit(people[1], i2s(T0+DAY), ds...)
	w.addCommit(people[0], i2s(T0+2*DAY), Df{Add: "1", Del: "1", Path: path})
	specs := [][]string{{"d"}, {"b", "n"}, {"d/e"}, {":!d/e"}, {"."}, {old}, {path}, {":!d"}}[ndChoice("specs", 8)]
	pre := ""
	if specs[0] != old && specs[0] != path && ndChoice("sub", 2) == 1 {
		w.Cwd = w.Root + "/d"
		pre = "d/"
	}
	in := func(p string) bool { return specsMatch(pre, specs, p) }
	procs := 1 + ndChoice("procs", 2)
	cmd := ndChoice("cmd", 4)
	crosses := in(old) != in(path)
	switch {
	case !crosses && in(old):
		ndReach("within")
	case !crosses:
		ndReach("beyond")
	case in(old):
		ndReach("out")
	default:
		ndReach("in")
	}
	if procs == 1 {
		ndReach("serial")
	}
	if crosses && procs > 1 && cmd < 3 {
		ndKnown("rename-limit")
	}
	// what git shows: a file whose other name is outside the limit is added or deleted
	cs := append([]Cm{}, w.Commits...)
	if crosses {
		g := Df{Add: "0", Del: d.Len, Path: old}
		if in(path) {
			g = Df{Add: i2s(7 + atoi(d.Add) - 2), Del: "0", Path: path}
		}
		if d.Len == "-" {
			g.Add, g.Del = "-", "-"
		}
		cs[1].Diffs = append([]Df{g}, ds[1:]...)
	}
	o := Opt{Path: in}
	o.Sel = func(c *Cm) bool {
		for _, d := range c.Diffs {
			if in(d.Path) {
				return true
			}
		}
		return false
	}
	ndNow(T0 + 4*DAY)
	ndProcs(procs)
	r := pathRun(w, cs, pre, specs, cmd, o)
	ndObserve(r.Out)
}
