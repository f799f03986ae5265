package zzverif

import "strings"

// argCase is a way to name revisions and paths, with the commits it selects
// (in a history of commits 0-1-2-3 on HEAD and main, and 4 on dev, a child of 1)
// and the paths it limits to. "@n" stands for the n-th commit's full hash and
// "~n" for its abbreviated one.
type argCase struct {
	args string
	sel  string
	path string
}

var argCases = []argCase{
	{"", "0123", ""},
	{"HEAD", "0123", ""},
	{"main", "0123", ""},
	{"dev", "014", ""},
	{"@2", "012", ""},
	{"~1", "01", ""},
	{"@1..HEAD", "23", ""},
	{"dev..", "23", ""},
	{"..dev", "4", ""},
	{"main dev", "01234", ""},
	{"^@1 main", "23", ""},
	{"dev ^@0", "14", ""},
	{"main..dev @0", "4", ""},
	{"--", "0123", ""},
	{"dev --", "014", ""},
	{"d", "0123", "d"},
	{"d/f", "0123", "d/f"},
	{"dev d", "014", "d"},
	{"dev -- d", "014", "d"},
	{"main d g", "0123", "d g"},
	{"-- d g", "0123", "d g"},
	{"-- main", "0123", "main"},
	{"d dev", "0123", "d dev"},
	{"-- dev", "0123", "dev"},
	{"@1 -- @1", "01", "@1"},
	{"-- -l", "0123", "-l"},
	{"dev -- --all", "014", "--all"},
	{"-- --count d", "0123", "--count d"},
	{"HEAD -- HEAD", "0123", "HEAD"},
	{"-- HEAD", "0123", "HEAD"},
	{"*.x", "0123", "*.x"},
	{"dev :!d", "014", ":!d"},
	{"-- ^d", "0123", "^d"},
	{"-- x\\y", "0123", "x\\y"},
	{"-- x/y", "0123", "x/y"},
	{"dev -- x\\\\y g", "014", "x\\\\y g"},
	{"-- \\g", "0123", "\\g"},
	{"-- tree", "0123", "tree"},
	{"-- table hist", "0123", "table hist"},
	{"nothing", "!", ""},
	{"nothing --", "!", ""},
	{"dev nothing", "!", ""},
	{"@1..nothing", "!", ""},
	{"-- nothing", "0123", "nothing"},
}

func argFill(s string) []string {
	var r []string
	for _, a := range strings.Fields(s) {
		for {
			i := strings.IndexAny(a, "@~")
			if i < 0 {
				break
			}
			h := Hash(int(a[i+1] - '0'))
			if a[i] == '~' {
				h = ShortOf(h)
			}
			a = a[:i] + h + a[i+2:]
		}
		r = append(r, a)
	}
	return r
}

// argWorld has the history the cases are about. Every commit touches the same files.
func argWorld() *World {
	w := &World{Index: []string{"d/f", "g"}, Paths: []string{"d/f", "d", "g", "HEAD", "dev", "main"}, Refs: map[string]string{}}
	files := []string{"d/f", "g", "main", "dev", Hash(1), "-l", "--all", "--count", "HEAD", "a.x", "^d", "x\\y", "x/y", "tree", "table"}
	for i := 0; i < 5; i++ {
		var ds []Df
		for j, f := range files {
			ds = append(ds, Df{Add: i2s(1 << i), Del: i2s(j), Path: f})
		}
		w.addCommit(Person{string("ABCDE"[i]), i2s(i)}, i2s(T0+i*DAY), ds...)
	}
	w.Commits[4].Parents = w.Commits[1].Short
	w.Head = Hash(3)
	w.Refs["main"] = Hash(3)
	w.Refs["dev"] = Hash(4)
	return w
}

// h: property=C19 quick=150 thorough=240 reach=refused,paths,revs,plain,flags,sha256 bound="45 ways of naming revisions, ranges and paths (names, full and short hashes, ranges with open ends, exclusions, names of both a branch and a file, paths that look like hashes, options or HEAD, backslashes, missing names), in a repository with SHA-1 or SHA-256 hashes and with files named HEAD, main, dev, tree, table and hist; table, tree and hist by lines and by commits, and no subcommand; with the flags before them written in 4 ways; 1 or 2 CPUs; a one-digit count of any value (not in hist)"
func H_args() {
	ndHashes()
	w := argWorld()
	k := argCases[ndChoice("case", len(argCases))]
	args := argFill(k.args)
	for _, f := range []string{"tree", "table", "hist", "HEAD"} {
		WriteFile(RootDir()+"/"+f, "x")
	}
	cmd := ndChoice("cmd", 6)
	if cmd < 3 || cmd == 5 {
		ndProcs(1 + ndChoice("procs", 2))
	}
	if cmd != 2 {
		w.Commits[1].Diffs[0].Add = ndDigits("add", 1)
	}
	o := Opt{Sel: func(c *Cm) bool {
		for i := range w.Commits {
			if w.Commits[i].Hash == c.Hash {
				return strings.Contains(k.sel, i2s(i))
			}
		}
		return false
	}}
	specs := argFill(k.path)
	if len(specs) > 0 {
		o.Path = func(p string) bool { return specsMatch("", specs, p) }
		ndReach("paths")
		any := false
		for _, d := range w.Commits[0].Diffs {
			any = any || o.Path(d.Path)
		}
		if !any {
			k.sel = strings.TrimLeft(k.sel, "0123456789")
		}
	}
	var r Result
	if k.sel == "!" {
		sub := [][]string{{"table", "-l"}, {"tree"}, {"hist", "-l"}, {"table"}, {"hist"}, {}}[cmd]
		r = RunEnv(w, NoCache(), append(sub, args...)...)
		failed(r, "table", "an unknown revision or path")
		ndReach("refused")
		return
	}
	if len(args) > 0 && args[0] != "--" {
		ndReach("revs")
	}
	if cmd < 5 {
		r = byMode(w, NoCache(), cmd, o, "selected", args...)
	} else {
		// the subcommand defaults to table, wherever the flags go
		flags := [][]string{{"--csv", "-l", "-e"}, {"-csv", "-l=true", "-e"}, {"-v", "-l", "-e", "-csv"}, {"-e", "-n", "0", "--csv=1", "--l"}}[ndChoice("flags", 4)]
		r = RunEnv(w, NoCache(), append(append([]string{}, flags...), args...)...)
		ok(r, "default")
		o.Email, o.Diff = true, true
		checkCsv(r.Out, tallyRef(w.Commits, o), true, true, "default")
		ndReach("flags")
	}
	if len(args) == 0 {
		ndReach("plain")
		if cmd < 5 {
			// a subcommand alone, and with nothing after "--"
			sub := []string{"tree", "table", "hist", "table", "tree"}[cmd]
			alone, dash := RunEnv(w, NoCache(), sub), RunEnv(w, NoCache(), sub, "--")
			ok(alone, sub)
			ndAssert(alone.Out == dash.Out, "a subcommand alone")
		}
	}
	for _, c := range r.Calls {
		checkCall(c, args)
	}
	ndObserve(r.Out)
}

// checkCall asserts that nothing the user gave is where git expects an option.
func checkCall(c Call, user []string) {
	for i, a := range c.Args {
		if a == "--" {
			return
		}
		if strings.HasPrefix(a, "-") && contains(user, a) && c.Args[0] != "rev-parse" {
			prev := c.Args[i-1]
			ndAssert(prev == "--since" || prev == "--until" || prev == "--author", "what the user gives is not an option to git")
		}
	}
}
