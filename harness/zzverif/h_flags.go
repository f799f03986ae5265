package zzverif

import "strings"

// refused asserts what a run that is not carried out looks like. Help may be
// printed, but no result.
func refused(r Result, what string) {
	ndAssert(r.Panic == "", what+": must not panic")
	ndAssert(r.Code != 0, what+": must exit with failure")
	ndAssert(r.Err != "", what+": must say why on stderr")
	for _, p := range people {
		ndAssert(!strings.Contains(r.Out, p.Name), what+": must not print results")
	}
}

// intValue is the value of a two-byte number on the command line, as package
// flag documents it.
func intValue(a, b byte) (v int, good bool) {
	d := int(b) - '0'
	if b < '0' || b > '9' {
		return 0, false
	}
	switch {
	case a == '+':
		return d, true
	case a == '-':
		return -d, true
	case a == '0':
		return d, b < '8' // octal
	case a >= '1' && a <= '9':
		return 10*(int(a)-'0') + d, true
	}
	return 0, false
}

// h: property=C27 quick=60 thorough=120 reach=exclusive,single,limit,depth,negative,malformed,bool,unknown,missing,date bound="3 commits by 3 authors; table, tree, hist and no subcommand with every subset of their sort flags in either order; -n and -d with any 2 bytes for a value (3 with a sign), boolean flags with any byte for a value; unknown flags and flags without a value; 1 or 2 CPUs"
func H_flags() {
	w := &World{Index: []string{"d/f", "g"}, Paths: []string{"d/f", "g"}}
	for i, p := range people {
		w.addCommit(p, i2s(T0+i*DAY), Df{Add: i2s(i + 1), Del: "0", Path: []string{"g", "d/f"}[i%2]})
	}
	run := func(args ...string) Result { return RunEnv(w, NoCache(), args...) }
	ndProcs(1 + ndChoice("procs", 2))
	sub := ndChoice("sub", 4)
	args := [][]string{{"table", "--csv"}, {"tree", "-a"}, {"hist"}, {"--csv"}}[sub]
	switch ndChoice("kind", 6) {
	case 0: // which way to rank
		fs := []string{"-l", "-f", "-m", "-c"}
		if sub == 2 {
			fs = fs[:2]
		}
		n := 0
		rev := ndChoice("reversed", 2) == 1
		for i := range fs {
			f := fs[i]
			if rev {
				f = fs[len(fs)-1-i]
			}
			if ndChoice("with"+f, 2) == 1 {
				n++
				args = append(args, f)
			}
		}
		r := run(args...)
		if n > 1 {
			ndReach("exclusive")
			failed(r, "table", "contradictory flags")
			return
		}
		ndReach("single")
		ok(r, "one flag")
		ndObserve(r.Out)
	case 1: // -n or -d with any value
		a, b := ndByte("a", 1, 255), ndByte("b", 1, 255)
		v, good := intValue(a, b)
		flag := "-n"
		if sub == 1 {
			flag = "-d"
		}
		ndAssume(sub != 2)
		if ndChoice("equals", 2) == 1 {
			args = append(args, flag+"="+string([]byte{a, b}))
		} else {
			args = append(args, flag, string([]byte{a, b}))
		}
		r := run(args...)
		switch {
		case !good:
			ndReach("malformed")
			refused(r, "a malformed number")
		case v < 0:
			ndReach("negative")
			failed(r, "table", "a negative limit")
		default:
			ok(r, "a limit")
			ls := lines(r.Out)
			if sub == 1 {
				ndReach("depth")
				t := treeRef(w.Commits, Opt{Diff: true}, w.Index, 'C', relId)
				d := 0
				for d < 2 && v > d {
					d++
				}
				checkTree(r.Out, treeLines(t, ".", 0, "", nil, treeOpt{all: true, depth: d}, nil), 'C', false, "limited tree")
			} else {
				ndReach("limit")
				want := 3
				if v > 0 && v < 3 {
					want = v
				}
				ndAssert(len(ls) == 1+want, "as many rows as there may be")
			}
		}
		return
	case 2: // a boolean with any value
		a := ndByte("a", 1, 255)
		on := a == '1' || a == 't' || a == 'T'
		off := a == '0' || a == 'f' || a == 'F'
		flag := ndPick("flag", "-e", "-merges", "--l")
		r := run(append(args, flag+"="+string([]byte{a}))...)
		if !on && !off {
			refused(r, "a malformed boolean")
			return
		}
		ndReach("bool")
		ok(r, "a boolean")
		want := run(args...)
		if on {
			want = run(append(args, flag)...)
		}
		ndAssert(r.Out == want.Out, "a flag set to false is as if not given, to true as if given")
	case 3: // flags that are not there
		ndReach("unknown")
		f := ndPick("flag", "-z", "--no-such", "-x=1", "--author-x", "-le", "---l", "-=")
		rest := ndPick("rest", "", "g", "HEAD")
		args = append(args, f)
		if rest != "" {
			args = append(args, rest)
		}
		refused(run(args...), "an unknown flag")
		if sub == 2 {
			refused(run("hist", "-n", "1"), "a limit of rows for hist")
			refused(run("hist", "-m"), "a mode hist does not have")
			refused(run("hist", "-c"), "a mode hist does not have")
			refused(run("tree", "-n", "1"), "a limit of rows for tree")
			refused(run("table", "-d", "1"), "a depth for table")
			refused(run("table", "-a"), "-a for table")
			refused(run("tree", "--csv"), "--csv for tree")
		}
	case 4: // flags with no value
		ndReach("missing")
		f := ndPick("flag", "-n", "-d", "--since", "--until", "--author", "--nauthor")
		refused(run(append(args, f)...), "a flag without its value")
	default: // other words than numbers
		f := "-n"
		if sub == 1 {
			f = "-d"
		}
		ndAssume(sub != 2)
		refused(run(append(args, f, ndPick("value", "x", "1x", "1.5", "", " 1", "99999999999999999999", "--", "-l", "0x", "1e3"))...), "not a number")
		ndReach("date")
	}
}

// h: property=C27 quick=60 thorough=120 reach=refused,accepted,word,unknown bound="path patterns of a colon and any 2 bytes below 128 (or one of 3 above) before a name, or any of 14 words of magic, with and without another path, as the first or last of two; table by lines, tree and hist; 1 or 2 CPUs"
func H_magic() {
	w := &World{Index: []string{"d/f", "g"}, Paths: []string{"d/f", "d", "g"}}
	for i, p := range people {
		w.addCommit(p, i2s(T0+i*DAY), Df{Add: i2s(i + 1), Del: "0", Path: []string{"g", "d/f"}[i%2]})
	}
	ndProcs(1 + ndChoice("procs", 2))
	args := [][]string{{"table", "--csv", "-l"}, {"tree", "-a"}, {"hist"}}[ndChoice("sub", 3)]
	var spec string
	bad, good := false, false
	if ndChoice("word", 2) == 1 {
		ndReach("word")
		word := ndPick("magic", "exclude", "icase", "top", "glob", "literal", "attr:x", "exclude,icase", "icase,exclude", "top,exclude", "Exclude", "exclud", "prefix:0", "nothing", "exclude ")
		spec = ":(" + word + ")g"
		good = word == "exclude"
		bad = !good
	} else {
		a, b := ndByte("a", 1, 127), ndByte("b", 1, 127)
		if ndChoice("far", 4) == 0 {
			a = ndPick("byte", "\x80", "\xc3", "\xff")[0]
		}
		spec = ":" + string([]byte{a, b}) + "g"
		ndAssume(a != '\n' && b != '\n')
		letter := b >= 'a' && b <= 'z' || b >= '0' && b <= '9' || b == ':' || b == '.'
		if a == '!' || a == '^' {
			good = letter
			bad = b == '/' // from the top of the repository
		} else {
			bad = true
		}
	}
	args = append(args, "--")
	switch ndChoice("with", 3) {
	case 0:
		args = append(args, spec)
	case 1:
		args = append(args, "d", spec)
	case 2:
		args = append(args, spec, "d")
	}
	r := RunEnv(w, NoCache(), args...)
	ndAssert(r.Panic == "", "no pattern makes it crash")
	if bad {
		ndReach("refused")
		failed(r, "table", "magic that is not supported")
	}
	if good {
		ndReach("accepted")
		ok(r, "an excluded path")
	}
	ndObserve(r.Out)
	if !bad && !good {
		ndReach("unknown")
	}
}

// h: property=C27 quick=60 thorough=120 reach=empty,merges,nofiles,noname,future,norepo bound="histories of 1 or 2 commits that are: by someone else than asked for, outside the paths asked for, merges only, without files, without a name or an email or both, dated later than now or before 1970; or no commits at all; every subcommand with every sort flag, with and without -e, -a and --merges, with a limit of 0 or 1; cached or not; 1 or 2 CPUs"
func H_odd_histories() {
	w := &World{Index: []string{"d/f", "g"}, Paths: []string{"d/f", "g"}}
	sub := ndPick("sub", "table", "tree", "hist", "parse", "dump")
	args := []string{sub}
	mode := treeModes[0]
	if sub == "table" || sub == "tree" {
		mode = treeModes[ndChoice("mode", 5)]
	} else if sub == "hist" {
		mode = treeModes[ndChoice("mode", 3)]
	}
	args = append(args, modeFlag(mode)...)
	if sub != "parse" && sub != "dump" {
		if ndChoice("email", 2) == 1 {
			args = append(args, "-e")
		}
		if ndChoice("merges", 2) == 1 {
			args = append(args, "--merges")
		}
	}
	csv := false
	if sub == "table" {
		switch ndChoice("table", 3) {
		case 0:
			args = append(args, "--csv")
			csv = true
		case 1:
			args = append(args, "-n", "0")
		}
	}
	if sub == "tree" {
		switch ndChoice("tree", 3) {
		case 0:
			args = append(args, "-a")
		case 1:
			args = append(args, "-d", "1")
		}
	}
	none := false // whether nothing at all is selected
	file := Df{Add: ndDigits("add", 1), Del: "1", Path: "d/f"}
	kind := ndChoice("kind", 10)
	switch kind {
	case 0:
		w.addCommit(people[0], i2s(T0), file)
		args = append(args, "--author", "Nobody")
		none = true
	case 1:
		w.addCommit(people[0], i2s(T0), file)
		args = append(args, "--nauthor", "Al")
		none = true
	case 2:
		w.addCommit(people[0], i2s(T0), file)
		args = append(args, "--", "g")
		none = true
	case 3:
		w.addCommit(people[0], i2s(T0))
		w.addCommit(people[0], i2s(T0+DAY))
		w.merge(1)
		args = append(args, Hash(1), "^"+Hash(0))
		ndReach("merges")
	case 4:
		w.addCommit(people[0], i2s(T0))
		ndReach("nofiles")
	case 5:
		w.addCommit(Person{"", ""}, i2s(T0), file)
		ndReach("noname")
	case 6:
		w.addCommit(Person{"", "a@x"}, i2s(T0), file)
		w.addCommit(Person{"Al", ""}, i2s(T0), file)
	case 7:
		w.addCommit(people[0], i2s(NOW+40*DAY), file)
		ndReach("future")
	case 8:
		w.addCommit(people[0], "-86401", file)
		w.addCommit(people[1], "0", Df{Add: "0", Del: "0", Path: "g"})
		if sub == "hist" {
			args = append(args, "--until", "1970-01-02")
		}
	case 9:
		ndReach("norepo")
	}
	ndProcs(1 + ndChoice("procs", 2))
	env := NoCache()
	if ndChoice("cache", 2) == 1 {
		env = nil
	}
	for k := 0; k < 1+b2i(env == nil); k++ {
		r := RunEnv(w, env, args...)
		if kind == 9 {
			failed(r, sub, "a repository without commits")
			continue
		}
		ok(r, "odd history")
		if none && (sub != "parse" && sub != "dump") {
			ndReach("empty")
			if csv {
				ndAssert(len(lines(r.Out)) == 1, "no rows")
			}
			for _, p := range people {
				ndAssert(!strings.Contains(r.Out, p.Name) && !strings.Contains(r.Out, p.Email), "no rows")
			}
			if !csv {
				ndAssert(r.Out == "", "nothing is shown")
			}
		}
		ndObserve(r.Out)
	}
}
