package zzverif

import "strings"

// dumpRef is what dump is specified to print, without its empty lines: every
// field of every record, oldest commit first, a newline at its start left out
// (one separates the fields of a record from its files) and others as \n.
func dumpRef(cs []Cm, short bool, path func(string) bool, mail bool) []string {
	var out []string
	add := func(s string) {
		if s = strings.ReplaceAll(strings.TrimPrefix(s, "\n"), "\n", "\\n"); s != "" {
			out = append(out, s)
		}
	}
	for i := range cs {
		c := &cs[i]
		nm, em := ident(c, mail)
		for _, f := range []string{c.Hash, c.Short, c.Parents, nm, em, c.Date} {
			add(f)
		}
		for _, d := range c.Diffs {
			if short || path != nil && !path(d.Path) {
				continue
			}
			if d.Old != "" {
				add(d.Add + "\t" + d.Del + "\t")
				add(d.Old)
				add(d.Path)
				continue
			}
			add(d.Add + "\t" + d.Del + "\t" + d.Path)
		}
	}
	return out
}

// h: property=C32 quick=150 thorough=240 reach=dump,parse,short,paths,author,nauthor,since,until,revs,mapped,sub,merge,newline bound="5 commits by 3 recorded identities (a merge, a rename, a binary file, a path with a newline, a name with spaces, one without files or without an author), two-digit counts of one (all values); dump and parse, with and without -s, run from the root or a directory; a path, --author, --nauthor, --since, --until, a revision, any two of them; with and without a mailmap"
func H_debug() {
	w := &World{Root: RootDir(), Index: []string{"d/f", "g"}}
	root := w.Root
	odd := ndChoice("odd", 4)
	w.addCommit(people[0], i2s(T0), Df{Add: ndDigits("added", 2), Del: "2", Path: "g"}, Df{Add: "1", Del: "0", Path: "d/f"})
	w.addCommit(people[1], i2s(T0+DAY), Df{Add: "4", Del: "0", Path: "d/f"})
	w.addCommit(people[2], i2s(T0+2*DAY))
	w.addCommit(people[0], i2s(T0+3*DAY), Df{Add: "-", Del: "-", Path: "d/b"}, Df{Add: "0", Del: "0", Path: "g"})
	w.addCommit(people[1], i2s(T0+4*DAY), Df{Add: "7", Del: "1", Path: "h"})
	w.All = true
	cs := w.Commits
	switch odd {
	case 0:
		cs[1].Parents, cs[1].Diffs = cs[0].Hash+" "+cs[0].Hash, nil
		ndReach("merge")
	case 1:
		cs[1].Diffs[0].Path, cs[1].Diffs[0].Old = "d/\nf", "d/\n"
		cs[3].Diffs[1].Path, cs[3].Diffs[1].Old = "\ng", "\n"
		ndReach("newline")
	case 2:
		cs[2].Name, cs[2].Email = "", ""
	default:
		cs[1].Name = ""
		cs[3].Email = ""
		cs[4].Name = " Bo  B "
	}
	sub := ndPick("sub", "dump", "parse")
	ndReach(sub)
	args := []string{sub}
	short := ndChoice("short", 2) == 1
	if short {
		args = append(args, "-s")
		ndReach("short")
	}
	mail := ndChoice("mapped", 2) == 1
	if mail {
		WriteFile(root+"/.mailmap", "Xe <xe@y> <al@x>\n")
		for i := range cs {
			if cs[i].Email == "al@x" {
				cs[i].MName, cs[i].MEmail = "Xe", "xe@y"
			}
		}
		ndReach("mapped")
	}
	in := ""
	if ndChoice("sub dir", 2) == 1 {
		w.Cwd, in = root+"/d", "d/"
		ndReach("sub")
	}
	var path func(string) bool
	keep := make([]bool, len(cs))
	for i := range keep {
		keep[i] = true
	}
	drop := func(f func(i int, c *Cm) bool) {
		for i := range cs {
			keep[i] = keep[i] && !f(i, &cs[i])
		}
	}
	var tail []string
	one := func(k int) {
		line := func(c *Cm) string {
			n, e := ident(c, mail)
			return n + " <" + e + ">"
		}
		switch k {
		case 1:
			args = append(args, "--author", "Bo")
			drop(func(i int, c *Cm) bool { return !strings.Contains(line(c), "Bo") })
			ndReach("author")
		case 2:
			args = append(args, "--nauthor", "al@x")
			drop(func(i int, c *Cm) bool { return strings.Contains(line(c), "al@x") })
			ndReach("nauthor")
		case 3:
			args = append(args, "--since", i2s(T0+DAY))
			drop(func(i int, c *Cm) bool { return atoi(c.Date) < T0+DAY })
			ndReach("since")
		case 4:
			args = append(args, "--until", i2s(T0+3*DAY))
			drop(func(i int, c *Cm) bool { return atoi(c.Date) > T0+3*DAY })
			ndReach("until")
		case 5:
			tail = []string{cs[3].Hash}
			drop(func(i int, c *Cm) bool { return i > 3 })
			ndReach("revs")
		case 6:
			path = func(p string) bool { return strings.HasPrefix(p, "d/") }
			if in != "" {
				tail = append(tail, "--", ".")
			} else {
				tail = append(tail, "--", "d")
			}
			drop(func(i int, c *Cm) bool {
				for _, d := range c.Diffs {
					if path(d.Path) || d.Old != "" && path(d.Old) {
						return false
					}
				}
				return true
			})
			ndReach("paths")
		}
	}
	a := ndChoice("first", 7)
	one(a)
	if b := ndChoice("second", 7); b > a {
		one(b)
	}
	var want []Cm
	for i, k := range keep {
		if k {
			want = append(want, cs[i])
		}
	}
	ndProcs(1 + ndChoice("procs", 2))
	r := Run(w, append(args, tail...)...)
	ok(r, sub)
	if sub == "parse" {
		ndAssert(r.Out == parseRef(want, short, path, mail), "parse: the selected commits as git reported them, oldest first")
	} else {
		var got []string
		for _, l := range lines(r.Out) {
			if l != "" {
				got = append(got, l)
			}
		}
		ref := dumpRef(want, short, path, mail)
		ndAssert(strings.Join(got, "\n") == strings.Join(ref, "\n"), "dump: every field of the selected commits, oldest first")
	}
	ndObserve(r.Out)
}

// h: property=C32 quick=60 thorough=120 reach=cut,whole,buffer bound="dump or parse of 1, 3 or 90 commits (5 or 9 KB), with and without -s, written to a standard output that has room for any number of bytes up to 200, or for 25 sizes up to all of it"
func H_debug_room() {
	w := &World{}
	n := []int{1, 3, 90}[ndChoice("commits", 3)]
	for i := 0; i < n; i++ {
		w.addCommit(Person{"Author " + i2s(i), "a" + i2s(i) + "@example.org"}, i2s(T0+i*DAY), Df{Add: i2s(i), Del: "1", Path: "f"})
	}
	if n == 90 {
		ndReach("buffer")
	}
	args := []string{ndPick("sub", "dump", "parse")}
	if ndChoice("short", 2) == 1 {
		args = append(args, "-s")
	}
	ndNow(T0 + 100*DAY)
	ndProcs(1)
	want := RunEnv(w, NoCache(), args...)
	ok(want, args[0])
	all := len(want.Out)
	room := ndChoice("room", 226)
	if room > 200 {
		room = all - (all*(room-201))/24
	}
	OutputFull(room)
	r := RunEnv(w, NoCache(), args...)
	ndAssert(r.Panic == "", "no panic")
	if room >= all {
		ndAssert(r.Code == 0 && r.Out == want.Out, "there is room for all of it")
		ndReach("whole")
		return
	}
	ndAssert(r.Code != 0 && r.Err != "", "output that is cut short is an error")
	ndReach("cut")
}
