package zzverif

import (
	"os"
	"path/filepath"
	"strings"
)

// surroundings returns what there is outside of dir, with the contents of files.
func surroundings(dir string) map[string]string {
	m := map[string]string{}
	if !ndNative() {
		for _, p := range sortedPaths() {
			m[p] = string(fsys[p].data)
		}
	} else {
		filepath.Walk(scratch(), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			switch p {
			case scratch() + "/bin", scratch() + "/bin/git", scratch() + "/world.json", scratch() + "/calls.jsonl":
				return nil // our own
			}
			m[p] = ""
			if fi.Mode().IsRegular() {
				m[p], _ = ReadFile(p)
			}
			return nil
		})
	}
	for p := range m {
		// The directory itself and those it is in can come into being.
		if p == dir || strings.HasPrefix(p, dir+"/") || strings.HasPrefix(dir, p+"/") {
			delete(m, p)
		}
	}
	return m
}

func sameSurroundings(was, is map[string]string, what string) {
	for p, s := range was {
		t, ok := is[p]
		ndAssert(ok, what+": nothing is removed: "+filepath.Base(p))
		ndAssert(s == t, what+": nothing is changed: "+filepath.Base(p))
	}
	for p := range is {
		_, ok := was[p]
		ndAssert(ok, what+": nothing is added: "+filepath.Base(p))
	}
}

var readers = []string{
	"log", "rev-list", "rev-parse", "ls-files", "config", "ls-tree", "cat-file", "show", "diff", "diff-tree", "shortlog",
	"for-each-ref", "show-ref", "merge-base", "name-rev", "describe", "check-mailmap", "check-attr", "check-ignore",
	"var", "version", "--version", "count-objects", "blame", "grep",
}

// onlyReads asserts that the command given to git changes nothing.
func onlyReads(c Call, what string) {
	args := c.Args
	for len(args) > 0 && strings.HasPrefix(args[0], "-") && args[0] != "--version" {
		if args[0] == "-c" || args[0] == "-C" || args[0] == "--git-dir" || args[0] == "--work-tree" {
			args = args[1:]
		}
		if len(args) > 0 {
			args = args[1:]
		}
	}
	ndAssert(len(args) > 0 && contains(readers, args[0]), what+": git is only asked to read: "+strings.Join(c.Args, " "))
	if args[0] == "config" {
		how := false
		for _, a := range args[1:] {
			how = how || a == "get" || a == "list" || a == "-l" || strings.HasPrefix(a, "--get") || a == "--list"
			ndAssert(a != "--add" && a != "--unset" && a != "--unset-all" && a != "--replace-all" && a != "--edit", what+": the configuration is only read")
		}
		ndAssert(how, what+": the configuration is only read")
	}
	if args[0] == "rev-parse" {
		return // has no such option
	}
	prev := ""
	for _, a := range args[1:] {
		if a == "--" || a == "--end-of-options" {
			break
		}
		ndAssert(!strings.HasPrefix(a, "--outp") || prev == "--since" || prev == "--until" || prev == "--author", what+": git writes no file")
		prev = a
	}
}

// h: property=C30 quick=150 thorough=300 reach=ok,refused,cached,corrupt,other,default,off,sub,term bound="2 runs in turn, each of any of 16 command lines (5 subcommands, no subcommand, path limits, filters, refused ones, and '--output=' as a revision, path, date or author), in the root or a subdirectory of a repository of 3 commits, with the cache beginning empty, filled or unreadable, next to the cache of another repository and of other programs; the cache where XDG_CACHE_HOME or the home directory says, or disabled; to a terminal or not; 1 or 2 CPUs; one git command failing or none"
func H_read_only() {
	cmds := [][]string{
		{"table", "-l"}, {"tree"}, {"hist"}, {"dump"}, {"parse"}, {}, {"tree", "-a", "--", "d"}, {"table", "--csv", "-f", "--since", "2001-01-01"},
		{"table", "-x"}, {"hist", "nosuch"}, {"tree", "--", "nosuch"},
		{"table", "HEAD", "--output=zz"}, {"table", "-l", "--", "--output=zz"}, {"tree", "--since", "--output=zz"}, {"hist", "--author", "--output=zz"}, {"table", "--until=--output=zz", "HEAD"},
	}
	base := RootDir()
	w := cacheWorldK(3, 1)
	w.Root = base + "/a/p"
	ndNow(T0 + 5*DAY + 60)
	ndProcs(2)
	home := envFor(nil)["HOME"]
	store := CacheHome() + "/git-who"
	var env map[string]string
	place := ndChoice("place", 3)
	switch place {
	case 1:
		ndModelOnly() // the home directory is not of the environment's choosing
		env = map[string]string{"XDG_CACHE_HOME": ""}
		ndReach("default")
	case 2:
		env = NoCache()
		ndReach("off")
	}
	for _, f := range []string{w.Root + "/d/f", w.Root + "/g", w.Root + "/.git/config", w.Root + "/.mailmap", w.Root + "/.git-blame-ignore-revs", home + "/.gitconfig", home + "/notes"} {
		WriteFile(f, "# "+filepath.Base(f)+"\n")
	}
	WriteFile(CacheHome()+"/other/file", "x")
	WriteFile(home+"/.cache/other/file", "x")
	// The cache of a repository of the same name.
	root := w.Root
	w.Root = base + "/b/p"
	WriteFile(w.Root+"/g", "g")
	ok(RunEnv(w, env, "table", "-l"), "run elsewhere")
	w.Root = root
	if place == 1 {
		for p := range surroundings(base) {
			if strings.HasPrefix(p, home+"/.cache/git-who/") {
				store = home + "/.cache/git-who"
			}
		}
	}
	theirs := Files(store)
	if place < 2 {
		ndAssert(len(theirs) == 1, "one file for one repository")
		ndReach("other")
	}
	if start := ndChoice("start", 3); start > 0 {
		ok(RunEnv(w, env, "table", "-l"), "run before")
		ndReach("cached")
		for _, f := range Files(store) {
			if start == 2 && !contains(theirs, f) {
				WriteFile(f, "zz")
				ndReach("corrupt")
			}
		}
	}
	var kept []string
	for _, f := range theirs {
		c, _ := ReadFile(f)
		kept = append(kept, c)
	}
	w.Cwd = w.Root
	if ndChoice("cwd", 2) == 1 {
		w.Cwd = w.Root + "/d"
		ndReach("sub")
	}
	MakeDir(w.Cwd)
	mine := store
	if place == 2 {
		mine = "-" // not even that
	}
	was := surroundings(mine)
	if f := ndChoice("fault", 4); f > 0 {
		w.Faults = []Fault{{Cmd: []string{"log", "rev-parse", "ls-files"}[f-1], Code: 128, Keep: 40, Msg: "fatal: no\n"}}
	}
	k := ndChoice("cmd", len(cmds))
	ndProcs(1 + ndChoice("procs", 2))
	e := env
	if ndChoice("term", 2) == 1 {
		e = OnTerminal(env)
		ndReach("term")
	}
	for i := 0; i < 2; i++ {
		args := cmds[k]
		if i == 1 {
			args, w.Faults = cmds[(k+1)%7], nil
		}
		r := RunEnv(w, e, args...)
		what := "run of " + strings.Join(args, " ")
		if r.Code == 0 {
			ndReach("ok")
		} else {
			ndReach("refused")
		}
		ndAssert(r.Panic == "", what+" ends well")
		for _, c := range r.Calls {
			onlyReads(c, what)
		}
		sameSurroundings(was, surroundings(mine), what)
		for j, f := range theirs {
			c, _ := ReadFile(f)
			ndAssert(c == kept[j], what+": the cache of another repository is left alone")
		}
		ndObserve(r.Out)
	}
}

// h: property=C30 quick=60 thorough=120 reach=alike,near,far bound="two repositories of 3 commits, one of 3 and the other one of 64 by place and name (the same name elsewhere, one inside the other, 60 names of one or two letters), run in turn twice by tree, table or hist"
func H_two_places() {
	base := RootDir()
	w := cacheWorld(3)
	ndNow(T0 + 5*DAY + 60)
	ndProcs(2)
	args := cacheArgs([]int{0, 1, 2}[ndChoice("cmd", 3)])
	first := base + []string{"/a/p", "/q", "/a.x/p"}[ndChoice("first", 3)]
	var other string
	switch k := ndChoice("other", 64); k {
	case 0:
		other = base + "/b/p"
		ndReach("alike")
	case 1:
		other = first + "/p"
	case 2:
		other = base + "/a"
	case 3:
		other = base + "/p"
	default:
		other = base + "/" + string(rune('a'+k%26))
		if k >= 26 {
			other += string(rune('a' + k*7%26))
			ndReach("far")
		}
		ndReach("near")
	}
	ndAssume(first != other)
	kept := map[string]string{}
	for k := 0; k < 4; k++ {
		w.Root = []string{first, other}[k%2]
		r := same(w, "run "+i2s(k), args...)
		ndAssert(k < 2 == (len(asked(r)) > 0), "each repository keeps its own cache")
		for _, f := range Files(CacheHome()) {
			c, _ := ReadFile(f)
			if k > 1 {
				ndAssert(kept[f] == c, "no cache is changed")
			}
			kept[f] = c
		}
		if k > 0 {
			ndAssert(len(Files(CacheHome())) == 2, "two caches")
		}
		ndObserve(r.Out)
	}
}
