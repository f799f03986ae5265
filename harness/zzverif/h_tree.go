package zzverif

import "strings"

func relId(p string) (string, bool) { return p, true }

var treeModes = []byte{'C', 'l', 'f', 'm', 'c'}

func modeFlag(m byte) []string {
	if m == 'C' {
		return nil
	}
	return []string{"-" + string(m)}
}

// h: property=C07 quick=150 thorough=240 reach=nodiff,hidden,anon bound="3 commits, 2 authors (or one without an email and one without a name), 3 paths in 2 levels, one-digit line counts (all values), one path missing from the working tree (with -e one that became a directory), every ranking mode, with and without -a and -e"
func H_tree_owner() {
	w := &World{Index: []string{"d/f", "g"}}
	paths := []string{"d/f", "g", "d/h"}
	mode := treeModes[ndChoice("mode", 5)]
	email := ndChoice("email", 2) == 1
	ps := people
	if ndChoice("anon", 2) == 1 {
		ps = []Person{{"Al", ""}, {"", "bo@x"}}
		ndReach("anon")
	}
	for i := 0; i < 3; i++ {
		is := i2s(i)
		p := ps[ndChoice("author"+is, 1+min(i, 1))]
		date := i2s(T0 + DAY*(10*i) + 7*i)
		var ds []Df
		switch k := ndChoice("diffs"+is, 5); k {
		case 0, 1, 2:
			ds = []Df{{Add: ndDigits("add"+is, 1), Del: "1", Path: paths[k]}}
			if k == 2 {
				ndReach("hidden")
				if email {
					ds[0].Path = "d"
				}
			}
		case 3:
			ds = []Df{{Add: "2", Del: ndDigits("del"+is, 1), Path: "d/f"}, {Add: "3", Del: "0", Path: "g"}}
		default:
			ndReach("nodiff")
		}
		w.addCommit(p, date, ds...)
	}
	all := ndBool("all")
	ndProcs(1 + ndChoice("procs", 2))
	args := append([]string{"tree"}, modeFlag(mode)...)
	if email {
		args = append(args, "-e")
	}
	if all {
		args = append(args, "-a")
	}
	r := RunEnv(w, NoCache(), args...)
	ok(r, "tree")
	t := treeRef(w.Commits, Opt{Email: email, Diff: true}, w.Index, mode, relId)
	var want []tline
	if len(t.kids) > 0 {
		want = treeLines(t, ".", 0, "", nil, treeOpt{email: email, all: all}, nil)
	}
	checkTree(r.Out, want, mode, email, "tree")
	ndObserve(r.Out)
}

// h: property=C07 quick=150 thorough=200 reach=inside,outside,deep bound="3 commits over 6 paths in and around the working directory (root, d, d/e, or a sibling sharing its name as a prefix), run from each of 4 directories; ranked by commits, lines or files"
func H_tree_subdir() {
	all := []string{"d/e/h", "d/f", "dd/f", "d/e.x", "g", "d/e/k/l"}
	w := &World{Root: RootDir(), Index: []string{"d/e/h", "d/f", "dd/f", "g", "d/e/k/l"}}
	cwd := ndPick("cwd", "", "d", "d/e", "dd")
	if cwd != "" {
		w.Cwd = w.Root + "/" + cwd
	}
	mode := treeModes[ndChoice("mode", 3)]
	for i := 0; i < 3; i++ {
		is := i2s(i)
		p := people[i%2]
		a := ndChoice("path"+is, len(all))
		ds := []Df{{Add: ndDigits("add"+is, 1), Del: "1", Path: all[a]}}
		if i == 1 {
			ds = append(ds, Df{Add: "3", Del: "0", Path: all[(a+3)%len(all)]})
		}
		w.addCommit(p, i2s(T0+DAY*(10*i)+7*i), ds...)
	}
	rel := func(p string) (string, bool) {
		if cwd == "" {
			ndReach("deep")
			return p, true
		}
		if len(p) > len(cwd) && p[:len(cwd)+1] == cwd+"/" {
			ndReach("inside")
			return p[len(cwd)+1:], true
		}
		ndReach("outside")
		return "", false
	}
	var index []string
	for _, p := range w.Index {
		if q, in := rel(p); in {
			index = append(index, q)
		}
	}
	ndProcs(1 + ndChoice("procs", 2))
	r := RunEnv(w, NoCache(), append([]string{"tree"}, modeFlag(mode)...)...)
	ok(r, "tree")
	t := treeRef(w.Commits, Opt{Diff: true}, index, mode, rel)
	var want []tline
	if len(t.kids) > 0 {
		want = treeLines(t, ".", 0, "", nil, treeOpt{}, nil)
	}
	checkTree(r.Out, want, mode, false, "tree")
	ndObserve(r.Out)
}

// h: property=C08 quick=150 thorough=240 reach=elided,hidden,depth,filedir,nodiff bound="every non-empty subset of 7 paths up to 4 levels deep (one both a file and a directory in history), each subset with 3 choices of files missing from the working tree, depth limits 0 to 3, with and without -a, one or two authors, with or without a commit that has no files"
func H_tree_layout() {
	all := []string{"a/b/c", "a/b/d", "a/e", "f", "f/x", "z/q/r/s", "B.x"}
	w := &World{}
	set := 1 + ndChoice("set", 127)
	hide := ndPickInt("hide", 0, 0x55, 0x2a)
	two := ndBool("two")
	for i, p := range all {
		if set>>i&1 == 0 {
			continue
		}
		a := people[0]
		if two && i%2 == 1 {
			a = people[1]
		}
		w.addCommit(a, i2s(T0+DAY*i), Df{Add: "1", Del: "0", Path: p})
		if hide>>i&1 == 0 {
			w.Index = append(w.Index, p)
		} else {
			ndReach("hidden")
		}
	}
	if set&0x18 == 0x18 {
		ndReach("filedir")
	}
	if set%3 == 0 {
		w.addCommit(people[1], i2s(T0+DAY*9))
		ndReach("nodiff")
	}
	o := treeOpt{all: ndBool("all"), depth: ndChoice("depth", 4)}
	args := []string{"tree"}
	if o.all {
		args = append(args, "-a")
	}
	if o.depth > 0 {
		args = append(args, "-d", i2s(o.depth))
		ndReach("depth")
	}
	ndProcs(1)
	r := RunEnv(w, NoCache(), args...)
	ok(r, "tree")
	t := treeRef(w.Commits, Opt{Diff: true}, w.Index, 'C', relId)
	want := treeLines(t, ".", 0, "", nil, o, nil)
	if len(want) > 0 && want[0].path != "./" {
		ndReach("elided")
	}
	checkTree(r.Out, want, 'C', false, "tree")
	ndObserve(r.Out)
}

// oddTree runs tree over a history whose paths have unusual names, and compares
// it with the specified tree.
func oddTree(all []string, pick, files int, dir string) {
	w := &World{Root: RootDir()}
	cwd := ""
	if ndChoice("sub", 2) == 1 {
		cwd = dir
		w.Cwd = w.Root + "/" + cwd
		ndReach("subdir")
	}
	at := ndChoice("first", len(all))
	n := 3
	hide := ndChoice("hide", n+1)
	all = append(append([]string{}, all[at:]...), all[:at]...)
	used := 0
	for i := 0; i < n; i++ {
		is := i2s(i)
		p := people[0]
		if i > 0 {
			used += 1 + ndChoice("skip"+is, pick)
			p = people[ndChoice("author"+is, 2)]
		}
		var ds []Df
		for k := 0; k < files; k++ {
			q := all[(used+k*4)%len(all)]
			if cwd != "" && (i+k)%3 != 2 {
				q = cwd + "/" + q
			}
			ds = append(ds, Df{Add: i2s(1 + i), Del: i2s(k), Path: q})
			if i != hide {
				w.Index = append(w.Index, q)
			}
		}
		w.addCommit(p, i2s(T0+DAY*(3-i)), ds...)
	}
	rel := func(p string) (string, bool) {
		if cwd == "" {
			return p, true
		}
		if len(p) > len(cwd) && p[:len(cwd)+1] == cwd+"/" {
			return p[len(cwd)+1:], true
		}
		return "", false
	}
	var index []string
	for _, p := range w.Index {
		if q, in := rel(p); in {
			index = append(index, q)
		}
	}
	mode := []byte{'C', 'l', 'm'}[(at+hide)%3]
	args := append([]string{"tree"}, modeFlag(mode)...)
	o := treeOpt{all: ndBool("all")}
	if o.all {
		args = append(args, "-a")
	}
	ndProcs(1 + ndChoice("procs", 2))
	r := RunEnv(w, NoCache(), args...)
	ok(r, "tree")
	t := treeRef(w.Commits, Opt{Diff: true}, index, mode, rel)
	var want []tline
	if len(t.kids) > 0 {
		want = treeLines(t, ".", 0, "", nil, o, nil)
	}
	checkTree(r.Out, want, mode, false, "tree")
	ndObserve(r.Out)
}

// h: property=C07 quick=150 thorough=240 reach=subdir bound="3 commits of 2 files by 2 authors, over 12 paths with names such as ..d, ..., .x, -x, 'a b', names differing only in case or sharing a prefix; files of any one commit missing from the working tree; run from the root or from a directory called ..s; with and without -a"
func H_tree_odd_names() {
	oddTree([]string{"..d/a", "...", "-x", "a b/c d", "A", "a", ".x/..y", "a.b", "é/f", "a-b", "..e", "B/b"}, 2, 2, "..s")
}

// h: property=C08 quick=150 thorough=240 reach=subdir bound="3 commits of one or 3 files, over 16 names that differ in case, punctuation or length or begin with dots, as files and directories; files of any one commit missing from the working tree; run from the root or a directory; with and without -a"
func H_tree_order() {
	oddTree([]string{"b", "B", "a/x", "A/x", "a-/x", "a/X", "_", "Z", "a", "10", "9", "aa", "é", "z", "~", "a b"}, 4, 1+2*ndChoice("three", 2), "d")
}

// h: property=C08 quick=150 thorough=240 reach=newline,hidden,subdir,renamed bound="3 commits of one file by 2 authors, over 5 names in 2 directories, two of which are others with a newline in front; one of the files renamed to or from such a name; any one file missing from the working tree; run from the root or the directory; with and without -a; 1 or 2 CPUs"
func H_tree_newline() {
	all := []string{"\nx", "x", "d/\ny", "d/y", "d/\nx"}
	w := &World{Root: RootDir()}
	cwd := ""
	if ndChoice("sub", 2) == 1 {
		cwd = "d/"
		w.Cwd = w.Root + "/d"
		ndReach("subdir")
	}
	hide := ndChoice("hide", len(all)+1)
	for i, p := range all {
		if i == hide {
			ndReach("hidden")
			continue
		}
		w.Index = append(w.Index, p)
	}
	for i := 0; i < 3; i++ {
		is := i2s(i)
		d := Df{Add: i2s(1 + i), Del: "1", Path: all[ndChoice("path"+is, len(all))]}
		if strings.Contains(d.Path, "\n") {
			ndReach("newline")
		}
		if i == 1 && ndChoice("renamed", 2) == 1 {
			d.Old = all[ndChoice("old", len(all))]
			ndReach("renamed")
		}
		w.addCommit(people[b2i(i == 2)], i2s(T0+DAY*i), d)
	}
	// Names with a newline are compared with another control character for it:
	// no other entry can start a line of the output like them.
	plain := func(s string) string {
		return strings.ReplaceAll(strings.ReplaceAll(s, "\nx", "\x01x"), "\ny", "\x01y")
	}
	rel := func(p string) (string, bool) {
		p, in := strings.CutPrefix(p, cwd)
		return plain(p), in
	}
	var index []string
	for _, p := range w.Index {
		if q, in := rel(p); in {
			index = append(index, q)
		}
	}
	o := treeOpt{all: ndChoice("all", 2) == 1}
	args := []string{"tree", "-l"}
	if o.all {
		args = append(args, "-a")
	}
	ndProcs(1 + ndChoice("procs", 2))
	r := RunEnv(w, NoCache(), args...)
	ok(r, "tree")
	t := treeRef(w.Commits, Opt{Diff: true}, index, 'l', rel)
	var want []tline
	if len(t.kids) > 0 {
		want = treeLines(t, ".", 0, "", nil, o, nil)
	}
	checkTree(plain(r.Out), want, 'l', false, "tree")
	ndObserve(r.Out)
}

// h: property=C07 quick=150 thorough=240 reach=subdir,linked,space bound="3 commits of 1 or 2 files among 5; a repository whose path ends in a space or is reached through a symlink, or both; run from its root or from a directory of any of 4 names, with spaces around or dots; by commits, lines and date, with and without a path; 1 or 2 CPUs"
func H_tree_where() {
	w := &World{Root: RootDir()}
	if ndChoice("space", 2) == 1 {
		w.Root += " "
		ndReach("space")
	}
	if ndChoice("linked", 2) == 1 {
		w.Link = RootDir() + ".link"
		ndReach("linked")
	}
	cwd := ndPick("cwd", "", " d", "d ", "d/ e", "..")
	if cwd == ".." {
		cwd = "..d/e.."
	}
	files := []string{"a", "x/b", "x/c", "e/x", "b"}
	if cwd != "" {
		w.Cwd = w.Root + "/" + cwd
		cwd += "/"
		ndReach("subdir")
	}
	o := Opt{Diff: true}
	var extra []string
	if ndChoice("path", 2) == 1 {
		extra = []string{"--", "x"}
		o.Path = func(p string) bool { return strings.HasPrefix(p, cwd+"x/") }
		o.Sel = func(c *Cm) bool {
			for _, d := range c.Diffs {
				if o.Path(d.Path) {
					return true
				}
			}
			return false
		}
	}
	at := ndChoice("at", 5)
	for i := 0; i < 3; i++ {
		pre := cwd
		if i == ndChoice("outside", 2)*4-1 {
			pre = ""
		}
		ds := []Df{{Add: i2s(1 + i), Del: "1", Path: pre + files[(at+i)%5]}}
		if i == 1 {
			ds = append(ds, Df{Add: "4", Del: "0", Path: pre + files[(at+3)%5]})
		}
		for _, d := range ds {
			w.Index = append(w.Index, d.Path)
		}
		w.addCommit(people[(at+i)%2], i2s(T0+DAY*i), ds...)
	}
	rel := func(p string) (string, bool) { return strings.CutPrefix(p, cwd) }
	var index []string
	for _, p := range w.Index {
		if q, in := rel(p); in && (o.Path == nil || o.Path(p)) {
			index = append(index, q)
		}
	}
	mode := []byte{'C', 'l', 'm'}[ndChoice("mode", 3)]
	ndProcs(1 + ndChoice("procs", 2))
	r := RunEnv(w, NoCache(), append(append([]string{"tree"}, modeFlag(mode)...), extra...)...)
	ok(r, "tree")
	t := treeRef(w.Commits, o, index, mode, rel)
	var want []tline
	if len(t.kids) > 0 {
		want = treeLines(t, ".", 0, "", nil, treeOpt{}, nil)
	}
	checkTree(r.Out, want, mode, false, "tree")
	ndObserve(r.Out)
}
