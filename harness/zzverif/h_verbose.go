package zzverif

import "strings"

// h: property=C31 quick=150 thorough=240 reach=verbose,table,failed,good,cached,corrupt,help,version bound="14 command lines (each subcommand and mode, path limits, filters, ignore files, refused ones), each as it is, with -v or --v before it, and for the table without naming it; 5 commits of one-digit counts (all values) in units of 2; 1 or 2 CPUs; the cache disabled, empty, filled or unreadable; no git command failing or any of 3; help and version with and without -v"
func H_verbose() {
	cmds := [][]string{
		{"table"}, {"table", "-l", "--csv"}, {"table", "-f", "-e", "-n", "1", "--", "d"}, {"table", "-m", "--since", "2001-01-01", "HEAD"},
		{"table", "-x"}, {"table", "nosuch"}, {"table", "-l", "-f"},
		{"tree"}, {"tree", "-a", "-l", "-d", "1"}, {"table", "-f", "--", "gone"}, {"hist"}, {"hist", "-f", "--author", "Al"}, {"dump"}, {"parse"},
	}
	w := cacheWorldK(5, 1)
	w.Commits[0].Diffs = append(w.Commits[0].Diffs, Df{Add: "3", Del: "0", Path: "gone"})
	ndNow(T0 + 5*DAY + 60)
	procs := 1 + ndChoice("procs", 2)
	kind := ndChoice("kind", 4)
	if kind == 3 {
		meta(w)
		return
	}
	args := cmds[ndChoice("cmd", len(cmds))]
	var env map[string]string
	start := ndChoice("cache", 4)
	if start == 3 {
		env = NoCache()
	}
	if start == 1 || start == 2 {
		ndReach("cached")
	}
	f := ndChoice("fault", 4)
	run := func(args []string) Result {
		// from the same state
		RemoveTree(CacheHome())
		if start == 1 || start == 2 {
			ndProcs(2)
			all := w.Commits
			w.Commits = all[:2]
			ok(Run(w, "table", "-l"), "run before")
			w.Commits = all
			for _, f := range Files(CacheHome()) {
				if start == 2 {
					WriteFile(f, "zz")
					ndReach("corrupt")
				}
			}
		}
		if f > 0 {
			w.Faults = []Fault{{Cmd: []string{"log", "rev-parse", "ls-files"}[f-1], Code: 128, Keep: 40, Msg: "fatal: no\n"}}
		}
		ndProcs(procs)
		r := RunEnv(w, env, args...)
		w.Faults = nil
		ndAssert(r.Panic == "", "no panic")
		r.Err = untimed(r.Err)
		return r
	}
	want := run(args)
	if want.Code == 0 {
		ndReach("good")
	} else {
		ndReach("failed")
	}
	if kind == 2 {
		if args[0] != "table" {
			ndAssume(false)
		}
		got := run(args[1:])
		ndAssert(got.Code == want.Code && got.Out == want.Out && got.Err == want.Err, "the table is what is shown when nothing else is asked for")
		ndReach("table")
		ndObserve(got.Out)
		return
	}
	got := run(append([]string{[]string{"-v", "--v"}[kind]}, args...))
	ndAssert(got.Code == want.Code, "same exit status with debug logging")
	ndAssert(got.Out == want.Out, "same output with debug logging")
	ndAssert(!strings.Contains(want.Err, "level=DEBUG"), "no debug logging unless asked for")
	rest := ""
	for _, l := range strings.SplitAfter(got.Err, "\n") {
		if !strings.Contains(l, "level=DEBUG") {
			rest += l
		}
	}
	ndAssert(rest == want.Err, "same messages with debug logging")
	ndAssert(rest != got.Err, "debug logging is on")
	ndReach("verbose")
	ndObserve(got.Out)
}

// untimed leaves out when a message was logged.
func untimed(s string) string {
	r := ""
	for _, l := range strings.SplitAfter(s, "\n") {
		if i := strings.Index(l, "level="); i > 0 && strings.HasPrefix(l, "time=") {
			l = l[i:]
		}
		r += l
	}
	return r
}

// meta: requests that need no repository.
func meta(w *World) {
	if ndChoice("broken", 2) == 1 {
		w.Faults = []Fault{{Cmd: "rev-parse", Code: 128, Msg: "fatal: not a git repository\n"}, {Cmd: "log", Code: 128, Msg: "fatal: not a git repository\n"}}
	}
	var args []string
	if ndChoice("v", 2) == 1 {
		args = []string{"-v"}
	}
	what := ndChoice("what", 6)
	args = append(args, [][]string{{"-h"}, {"--help"}, {"-version"}, {"--version"}, {"--version", "tree", "-x"}, {[]string{"table", "tree", "hist", "dump", "parse"}[ndChoice("sub", 5)], []string{"-h", "--help"}[ndChoice("long", 2)]}}[what]...)
	r := RunEnv(w, nil, args...)
	ndAssert(r.Panic == "" && r.Code == 0, "help and version are no failure")
	ndAssert(len(r.Calls) == 0 && len(Files(CacheHome())) == 0, "help and version need no repository")
	if what >= 2 && what <= 4 {
		ndAssert(len(lines(r.Out)) == 1 && len(strings.Fields(r.Out)) == 2, "the version is one line")
		ndReach("version")
		return
	}
	all := r.Out + r.Err
	ndAssert(strings.Contains(all, "Usage"), "help says how it is used")
	for _, f := range flagsOf(args[max(0, len(args)-2):]) {
		ndAssert(strings.Contains(all, f), "help names "+f)
	}
	ndReach("help")
}

// flagsOf lists what the help asked for has to name.
func flagsOf(args []string) []string {
	filters := []string{"-since", "-until", "-author", "-nauthor"}
	switch args[0] {
	case "table":
		return append([]string{"-csv", "-e", "-merges", "-l", "-f", "-c", "-m", "-n "}, filters...)
	case "tree":
		return append([]string{"-e", "-a", "-merges", "-l", "-f", "-c", "-m", "-d "}, filters...)
	case "hist":
		return append([]string{"-e", "-merges", "-l", "-f"}, filters...)
	case "dump", "parse":
		return append([]string{"-s"}, filters...)
	}
	return []string{"-v", "-version", "table", "tree", "hist"}
}
