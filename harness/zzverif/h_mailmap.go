package zzverif

import "strings"

// h: property=C18 quick=150 thorough=240 reach=repo,global,relative,both,missing,none,united,subdir,cached bound="4 commits by 3 recorded identities, one-digit counts of one (all values); each identity mapped to a new name, a new email, both, or neither, united with another or not; no mailmap, one in the repository, one named in git's configuration (absolute or relative), both, or a configured file that does not exist; in the root or a subdirectory; table, tree and hist by name and by email, 1 or 2 CPUs, with and without a cache that was filled before the mailmap existed"
func H_mailmap() {
	w := &World{Root: RootDir(), Index: []string{"d/f", "g"}}
	for i := 0; i < 4; i++ {
		add := i2s(1 + i)
		if i == 1 {
			add = ndDigits("add", 1)
		}
		w.addCommit(people[i%3], i2s(T0+i*DAY), Df{Add: add, Del: "2", Path: []string{"g", "d/f"}[i%2]})
	}
	cmd := ndChoice("cmd", 5)
	email := ndChoice("email", 2) == 1
	kind := ndChoice("kind", 6)
	root := w.Root
	if kind > 1 && cmd != 1 && ndChoice("sub", 2) == 1 {
		w.Cwd = root + "/d"
		ndReach("subdir")
	}
	env := NoCache()
	if cmd < 3 {
		switch ndChoice("how", 3) {
		case 1:
			ndProcs(2)
		case 2:
			ndProcs(2)
			env = nil
			byMode(w, env, cmd, Opt{Email: email}, "without a mailmap")
			ndReach("cached")
		}
	}
	// who becomes whom
	to := []Person{{"Xe", ""}, {"", "xe@y"}, {"Xe", "xe@y"}, {"Bo", "bo@x"}, {}}
	m0, m1 := to[ndChoice("map0", 5)], to[ndChoice("map1", 3)+2]
	active := true
	file := "Xe <xe@y> <al@x>\n"
	switch kind {
	case 0:
		WriteFile(root+"/.mailmap", file)
		ndReach("repo")
	case 1:
		w.Mailmap = root + "/../elsewhere/map"
		WriteFile(root[:len(root)-len("repo")]+"elsewhere/map", file)
		ndReach("global")
	case 2:
		w.Mailmap = "maps/m"
		WriteFile(root+"/maps/m", file)
		ndReach("relative")
	case 3:
		WriteFile(root+"/.mailmap", file)
		w.Mailmap = root + "/nothing"
		ndReach("both")
	case 4:
		w.Mailmap = root + "/nothing"
		active = false
		ndReach("missing")
	default:
		active = false
		ndReach("none")
	}
	if active {
		for i := range w.Commits {
			c := &w.Commits[i]
			m := Person{}
			switch i % 3 {
			case 0:
				m = m0
			case 1:
				m = m1
			}
			c.MName, c.MEmail = m.Name, m.Email
		}
		if m0 == m1 && m0 != (Person{}) {
			ndReach("united")
		}
	}
	r := byMode(w, env, cmd, Opt{Email: email, Mail: active}, "mapped identities")
	ndObserve(r.Out)
}

// h: property=C18 quick=150 thorough=240 reach=old,new,out,in,none,parallel bound="4 commits by 3 recorded identities, one of them mapped to a new name, a new email, both, or united with another, or no mailmap; --author or --nauthor with 7 patterns that match the recorded or the mapped identity; table by name and by email, tree and hist, serial and parallel, with and without a filled cache"
func H_mailmap_filters() {
	w := &World{Index: []string{"d/f", "g"}}
	for i := 0; i < 4; i++ {
		add := i2s(1 + i)
		if i == 1 {
			add = ndDigits("add", 1)
		}
		w.addCommit(people[i%3], i2s(T0+i*DAY), Df{Add: add, Del: "2", Path: []string{"g", "d/f"}[i%2]})
	}
	cmd := ndChoice("cmd", 5)
	email := cmd == 1 && ndChoice("email", 2) == 1
	env := NoCache()
	active := ndChoice("map", 5)
	m := []Person{{}, {"Xe", ""}, {"", "xe@y"}, {"Xe", "xe@y"}, {"Bo", "bo@x"}}[active]
	if active > 0 {
		WriteFile(RootDir()+"/.mailmap", "Xe <xe@y> <al@x>\n")
	} else {
		ndReach("none")
	}
	for i := range w.Commits {
		if c := &w.Commits[i]; i%3 == 0 {
			c.MName, c.MEmail = m.Name, m.Email
		}
	}
	if cmd < 3 && ndChoice("par", 2) == 1 {
		ndProcs(2)
		ndReach("parallel")
		if cmd == 0 && ndChoice("cached", 2) == 1 {
			env = nil
			byMode(w, env, cmd, Opt{Mail: active > 0}, "before")
		}
	}
	flag := ndPick("flag", "--author", "--nauthor")
	pat := ndPick("pat", "Al", "al@x", "Xe", "xe@y", "^Bo", "o@x>$", "[AX]")
	sel := func(c *Cm) bool {
		line := mapped(c.MName, c.Name) + " <" + mapped(c.MEmail, c.Email) + ">"
		var is bool
		switch pat {
		case "^Bo":
			is = strings.HasPrefix(line, "Bo")
		case "o@x>$":
			is = strings.HasSuffix(line, "o@x>")
		case "[AX]":
			is = line[0] == 'A' || line[0] == 'X'
		default:
			is = strings.Contains(line, pat)
		}
		return is == (flag == "--author")
	}
	if active > 0 {
		switch {
		case pat == "Al":
			ndReach("old")
		case pat == "Xe":
			ndReach("new")
		}
	}
	if flag == "--author" {
		ndReach("in")
	} else {
		ndReach("out")
	}
	r := byMode(w, env, cmd, Opt{Email: email, Mail: active > 0, Sel: sel}, "selected by identity", flag, pat)
	ndObserve(r.Out)
}
