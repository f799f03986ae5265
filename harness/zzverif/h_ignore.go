package zzverif

import "strings"

const ignoreFile = ".git-blame-ignore-revs"

// ignored reads an ignore file as git blame does.
func ignored(text string) map[string]bool {
	r := map[string]bool{}
	for text != "" {
		l := text
		if i := strings.IndexByte(text, '\n'); i >= 0 {
			l, text = text[:i], text[i+1:]
		} else {
			text = ""
		}
		if i := strings.IndexByte(l, '#'); i >= 0 {
			l = l[:i]
		}
		for l != "" && (l[0] == ' ' || l[0] == '\t' || l[0] == '\r') {
			l = l[1:]
		}
		for l != "" && (l[len(l)-1] == ' ' || l[len(l)-1] == '\t' || l[len(l)-1] == '\r') {
			l = l[:len(l)-1]
		}
		if len(l) != 40 && len(l) != 64 {
			continue
		}
		b := []byte(l)
		good := true
		for i, c := range b {
			switch {
			case c >= '0' && c <= '9' || c >= 'a' && c <= 'f':
			case c >= 'A' && c <= 'F':
				b[i] = c + 32
			default:
				good = false
			}
		}
		if good {
			r[string(b)] = true
		}
	}
	return r
}

// byMode runs one of the ways to show results and compares with the specification.
func byMode(w *World, env map[string]string, cmd int, o Opt, what string, extra ...string) Result {
	var args []string
	switch cmd {
	case 0:
		args = []string{"table", "--csv", "-l"}
	case 1:
		args = []string{"tree", "-a", "-l"}
	case 2:
		args = []string{"hist", "-l", "--until", i2s(NOW)}
	case 3:
		args = []string{"table", "--csv"}
	default:
		args = []string{"hist", "--until", i2s(NOW)}
	}
	if o.Email {
		args = append(args, "-e")
	}
	r := RunEnv(w, env, append(args, extra...)...)
	ok(r, what)
	o.Diff = cmd < 3
	switch cmd {
	case 0, 3:
		checkCsv(r.Out, tallyRef(w.Commits, o), o.Email, o.Diff, what)
	case 1:
		t := treeRef(w.Commits, o, w.Index, 'l', relId)
		var want []tline
		if len(t.kids) > 0 {
			want = treeLines(t, ".", 0, "", nil, treeOpt{all: true, email: o.Email}, nil)
		}
		checkTree(r.Out, want, 'l', o.Email, what)
	case 2:
		checkHist(r.Out, histRef(w.Commits, o, 0), 'l', o.Email, what)
	default:
		checkHist(r.Out, histRef(w.Commits, o, 0), 'C', o.Email, what)
	}
	return r
}

// h: property=C17 quick=150 thorough=240 reach=skip,all,upper,near,comment,crlf,sha256 bound="4 commits by 2 authors, with SHA-1 or SHA-256 hashes; an ignore file of 2 lines: any commit's hash in lower or upper case with any byte before, after, or in place of its first or last digit, and a second line that is another hash, blank, a comment, or a hash in another place, with and without a final newline or CRLF; table and hist"
func H_ignore_text() {
	ndHashes()
	w := cacheWorldK(4, 0)
	h := Hash(ndChoice("which", 4))
	eol := ndPick("eol", "\n", "\r\n")
	if eol != "\n" {
		ndReach("crlf")
	}
	switch ndChoice("form", 6) {
	case 0:
		h = strings.ToUpper(h)
		ndReach("upper")
	case 1:
		h = string([]byte{ndByte("pre", 0, 255)}) + h
	case 2:
		h = h + string([]byte{ndByte("post", 0, 255)})
	case 3:
		h = string([]byte{ndByte("first", 0, 255)}) + h[1:]
	case 4:
		h = h[:len(h)-1] + string([]byte{ndByte("last", 0, 255)})
		ndReach("near")
	default:
		h = " \t" + h + "  # reformat " + Hash(3)
		ndReach("comment")
	}
	other := Hash(ndChoice("other", 2) * 3)
	text := h + eol
	switch ndChoice("second", 5) {
	case 0:
		text += other
	case 1:
		text = other + eol + eol + text
	case 2:
		text += "#" + other + eol
	case 3:
		text += "x " + other + " " + eol
	}
	// git blame refuses lines with other control characters around a hash
	ndAssume(!strings.ContainsAny(text, "\v\f"))
	skip := ignored(text)
	if len(skip) == 0 {
		ndReach("all")
	} else {
		ndReach("skip")
	}
	WriteFile(RootDir()+"/"+ignoreFile, text)
	r := byMode(w, NoCache(), 3+ndChoice("cmd", 2), Opt{Skip: skip}, "with ignored revisions")
	ndObserve(r.Out)
}

// h: property=C17 quick=150 thorough=240 reach=parallel,cached bound="5 commits (a merge, a rename, a binary file; 3 units of 2), one-digit counts of one of them (all values); any subset of them listed; table, tree and hist by lines and by commits, 1 or 2 CPUs, without a cache, or cached by a run before the file existed and run again after the file changed and after it was removed"
func H_ignore() {
	w := cacheWorldK(5, 1)
	set := ndChoice("set", 32)
	skip := map[string]bool{}
	text := "# formatting\n"
	for i := range w.Commits {
		if set>>i&1 == 1 {
			skip[Hash(i)] = true
			text += Hash(i) + "\n"
		}
	}
	other := Hash(set % 5)
	cmd := ndChoice("cmd", 5)
	cached := ndChoice("cached", 2) == 1
	env := NoCache()
	if cached {
		ndAssume(cmd < 3)
		ndProcs(2)
		env = nil
		byMode(w, env, cmd, Opt{}, "without the file")
		ndReach("cached")
	} else if ndChoice("procs", 2) == 1 {
		ndProcs(2)
		ndReach("parallel")
	}
	name := RootDir() + "/" + ignoreFile
	WriteFile(name, text)
	r := byMode(w, env, cmd, Opt{Skip: skip}, "with ignored revisions")
	if cached {
		byMode(w, NoCache(), cmd, Opt{Skip: skip}, "with ignored revisions and no cache")
		WriteFile(name, other+"\n")
		byMode(w, env, cmd, Opt{Skip: map[string]bool{other: true}}, "after the file changed")
		RemoveFile(name)
		byMode(w, env, cmd, Opt{}, "after the file was removed")
	}
	ndObserve(r.Out)
}

// h: property=C17 quick=150 thorough=240 reach=paths,revs,author,merges,sub,cached bound="6 commits (a merge, two files, 2 authors); any subset of 4 of them listed; limited by a path, revisions, --author, --since, merges or run from a subdirectory; table, tree and hist, by lines and by commits, 1 or 2 CPUs, with or without a cache"
func H_ignore_limits() {
	w := &World{Root: RootDir(), Index: []string{"d/f", "g"}}
	for i := 0; i < 6; i++ {
		c := w.addCommit(people[i%3%2], i2s(T0+i*DAY), Df{Add: i2s(1 + i), Del: "1", Path: []string{"d/f", "g", "g", "d/f", "d/h", "g"}[i]})
		if i == 4 {
			c.Diffs = nil
		}
	}
	w.merge(4)
	set := ndChoice("set", 16)
	skip := map[string]bool{}
	text := ""
	for i := 0; i < 4; i++ {
		if at := i + i/2; set>>i&1 == 1 {
			skip[Hash(at)] = true
			text += Hash(at) + "\n"
		}
	}
	o := Opt{}
	var extra []string
	touches := func(c *Cm) bool {
		for _, d := range c.Diffs {
			if o.Path(d.Path) {
				return true
			}
		}
		return false
	}
	switch ndChoice("limit", 5) {
	case 0:
		o.Path = func(p string) bool { return p == "g" }
		o.Sel = touches
		extra = []string{"--", "g"}
		ndReach("paths")
	case 1:
		o.Sel = func(c *Cm) bool { return c.Hash != Hash(0) && c.Hash != Hash(1) }
		extra = []string{Hash(1) + ".."}
		ndReach("revs")
	case 2:
		o.Sel = func(c *Cm) bool { return c.Name == "Al" }
		extra = []string{"--author", "Al"}
		ndReach("author")
	case 3:
		o.Merges = true
		extra = []string{"--merges"}
		ndReach("merges")
	case 4:
		o.Path = func(p string) bool { return p == "d/f" || p == "d/h" }
		o.Sel = touches
		extra = []string{"--", "d", ":!g"}
		ndReach("sub")
	}
	cmd := ndChoice("cmd", 5)
	env := NoCache()
	if ndChoice("procs", 2) == 1 {
		ndProcs(2)
		if ndChoice("cached", 2) == 1 {
			env = nil
			byMode(w, env, cmd, o, "before", extra...)
			ndReach("cached")
		}
	}
	WriteFile(w.Root+"/"+ignoreFile, text)
	o.Skip = skip
	r := byMode(w, env, cmd, o, "with ignored revisions and a limit", extra...)
	ndObserve(r.Out)
}
