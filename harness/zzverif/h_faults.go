package zzverif

import "strings"

var faultCmds = [][]string{
	{"table"}, {"table", "-l"}, {"table", "--csv", "-f"}, {"tree"}, {"tree", "-l", "-a"}, {"hist"}, {"hist", "-f"}, {"parse"}, {"dump"},
	{"table", "-l", "--", "g"}, {"tree", "--", "d"},
}

func faultWorld(n int) *World {
	w := &World{Index: []string{"d/f", "g"}, Paths: []string{"d/f", "g"}}
	for i := 0; i < n; i++ {
		w.addCommit(people[i%2], i2s(T0+i*DAY), Df{Add: "1", Del: "2", Path: []string{"g", "d/f"}[i%2]})
	}
	return w
}

// failed asserts what a failing run must look like.
func failed(r Result, cmd string, what string) {
	ndAssert(r.Panic == "", what+": must not panic")
	ndAssert(r.Code != 0, what+": must exit with failure")
	ndAssert(r.Err != "", what+": must say why on stderr")
	if cmd != "parse" && cmd != "dump" {
		ndAssert(r.Out == "", what+": must not print results")
	}
}

// h: property=C03 quick=150 thorough=200 reach=log,revlist,revparse,lsfiles,none bound="5 commits (3 chunks of 2, the last of 1), every subcommand in serial and parallel form; any one git invocation exits non-zero (1, 128 or 255) or is killed by a signal, with or without a message, after printing nothing, all, or any of 8 prefixes of its output"
func H_git_fails() {
	w := faultWorld(5)
	args := faultCmds[ndChoice("cmd", len(faultCmds))]
	ndProcs(1 + ndChoice("procs", 2))
	fc := ndPick("fault", "log", "rev-list", "rev-parse", "ls-files", "config")
	f := Fault{Cmd: fc, Msg: ndPick("msg", "", "fatal: broken\n")}
	f.Code = ndPickInt("code", 1, 128, 255, -1)
	switch ndChoice("keep", 3) {
	case 0:
		f.Keep = 0
	case 1:
		f.Keep = -1
	default:
		// shorter prefixes fall in the hash and header, longer ones in the file lists
		f.Keep = ndPickInt("prefix", 1, 40, 41, 62, 90, 104, 105, 150)
	}
	if fc == "rev-parse" {
		f.Match = ndPick("which", "--no-flags", "--show-toplevel", "--show-prefix")
	}
	if fc == "log" && ndBool("second") {
		f.Match = Hash(3) // only the run that is asked for this commit
	}
	w.Faults = []Fault{f}
	r := RunEnv(w, NoCache(), args...)
	hit := false
	for _, c := range r.Calls {
		if gitKind(c.Args) == f.Cmd && (f.Match == "" || strings.Contains(c.Stdin, f.Match) || containsSub(c.Args, f.Match)) {
			hit = true
		}
	}
	if !hit || fc == "config" {
		// an unset configuration value is not an error
		ndReach("none")
		ndAssert(r.Panic == "" && r.Code == 0, "a run that git serves must succeed")
		return
	}
	ndReach(strings.ReplaceAll(fc, "-", ""))
	failed(r, args[0], "git "+fc+" failed")
}

// h: property=C03 quick=60 thorough=120 reach=missing,warned,many bound="5 commits (3 chunks of 2, the last of 1), every subcommand, 1 or 2 CPUs; git not installed, or every run of any one git command succeeding with a warning of 20 or 70000 bytes"
func H_git_warns() {
	w := faultWorld(5)
	args := faultCmds[ndChoice("cmd", len(faultCmds))]
	ndProcs(1 + ndChoice("procs", 2))
	what := ndPick("warns", "missing", "log", "rev-list", "rev-parse", "ls-files")
	if what == "missing" {
		w.NoGit = true
		failed(RunEnv(w, NoCache(), args...), args[0], "git is not installed")
		ndReach("missing")
		return
	}
	want := RunEnv(w, NoCache(), args...)
	ok(want, "without warnings")
	f := Fault{Cmd: what, Keep: -1, Msg: "warning: never mind\n"}
	ndReach("warned")
	if ndChoice("many", 2) == 1 {
		f.Msg = strings.Repeat(f.Msg, 3500)
		ndReach("many")
	}
	w.Faults = []Fault{f}
	r := RunEnv(w, NoCache(), args...)
	ndAssert(r.Panic == "", "warnings of git: must end, without panic")
	ndAssert(r.Code == 0 && r.Out == want.Out, "warnings of git are not failures")
}

// h: property=C03 quick=150 thorough=200 reach=date,nodate,count,columns,long bound="2 commits; one field of git's output malformed: date or count with one arbitrary non-digit byte anywhere, missing, or too large for 64 bits, a file line with one column, a field longer than the read buffer (70000 bytes)"
func H_git_malformed() {
	w := faultWorld(3)
	args := faultCmds[ndChoice("cmd", len(faultCmds))]
	ndProcs(1 + ndChoice("procs", 2))
	bad := func(n int) string {
		b := []byte(strings.Repeat("1", n))
		i := ndChoice("at", n)
		x := ndByte("byte", 1, 127)
		ndAssume(!(x >= '0' && x <= '9') && x != '\n' && x != '\t')
		if i == 0 {
			ndAssume(x != '-' && x != '+')
		}
		b[i] = x
		return string(b)
	}
	c := &w.Commits[ndChoice("commit", 3)]
	needsDiff := false
	switch ndChoice("kind", 7) {
	case 0:
		c.Date = bad(3)
		ndReach("date")
	case 5:
		c.Date = ndPick("nodate", "", "-", " ", "0x10", "99999999999999999999")
		ndReach("nodate")
	case 6:
		n := ndPick("nocount", "--", " ", "1e3", "99999999999999999999")
		if ndChoice("column", 2) == 0 {
			c.Diffs[0].Add = n
		} else {
			c.Diffs[0].Del = n
		}
		needsDiff = true
	case 1:
		c.Diffs[0].Add = bad(2)
		needsDiff = true
		ndReach("count")
	case 2:
		c.Diffs[0].Del = bad(2)
		needsDiff = true
	case 3:
		c.Diffs[0] = Df{Add: "", Del: "", Path: "x"}
		needsDiff = true
		ndReach("columns")
	default:
		c.Name = strings.Repeat("x", 70000)
		ndReach("long")
	}
	r := RunEnv(w, NoCache(), args...)
	if args[0] == "dump" && len(c.Name) < 70000 {
		ndAssert(r.Code == 0, "dump does not interpret")
		return
	}
	if needsDiff && len(args) == 1 && (args[0] == "table" || args[0] == "hist") {
		ndAssert(r.Code == 0, "files are not read in this mode")
		return
	}
	if contains(args, "--") {
		return // which commits are read depends on the paths
	}
	failed(r, args[0], "unreadable output of git")
}
