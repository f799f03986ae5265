package zzverif

import (
	"strings"
	"time"
)

// parseRef is the specified output of the parse command.
func parseRef(cs []Cm, short bool, path func(string) bool, mail bool) string {
	var b strings.Builder
	n := 0
	for i := range cs {
		c := &cs[i]
		nm, em := ident(c, mail)
		if nm == "" && em == "" || atoi(c.Date) > NOW {
			continue
		}
		n++
		m := "false"
		if isMerge(c) {
			m = "true"
		}
		b.WriteString("{ hash:" + c.Short + " author:" + nm + " <" + em + "> date:" +
			time.Unix(int64(atoi(c.Date)), 0).UTC().Format("Jan 2, 2006") + " merge:" + m + " }\n")
		for _, d := range c.Diffs {
			if short || path != nil && !path(d.Path) {
				continue
			}
			b.WriteString("  { path:\"" + d.Path + "\" added:" + cnt(d.Add) + " removed:" + cnt(d.Del) + " }\n")
		}
		b.WriteString("\n")
	}
	b.WriteString("Parsed " + i2s(n) + " commits.\n")
	return b.String()
}

// cnt is a numstat count in plain decimal.
func cnt(s string) string { return i2s(atoi(s)) }

func notNul(s string) {
	for i := 0; i < len(s); i++ {
		ndAssume(s[i] != 0 && s[i] != '\n')
	}
}

// h: property=C01 quick=150 thorough=120 reach=noparent,merge,noname,skipped,nodiff bound="2 commits; author name and email of up to 2 arbitrary bytes each, or empty; 0, 1 or 2 parents; 0 to 2 files; dates in the past, at the epoch, now and one second in the future"
func H_parse_fields() {
	w := &World{}
	dates := []string{"1600000000", "0", "1700000000", "1700000001", "86399"}
	for i := 0; i < 2; i++ {
		is := i2s(i)
		p := people[i]
		date := "1600000000"
		if i == 1 || ndDeep() {
			p.Name = ndStr("name"+is, ndChoice("nameLen"+is, 3), 1, 255)
			p.Email = ndStr("email"+is, ndChoice("emailLen"+is, 3), 1, 255)
			notNul(p.Name)
			notNul(p.Email)
			if p.Name == "" {
				ndReach("noname")
				if p.Email == "" {
					ndReach("skipped")
				}
			}
		}
		date = dates[ndChoice("date"+is, len(dates))]
		var ds []Df
		switch ndChoice("diffs"+is, 3) {
		case 1:
			ds = []Df{{Add: "3", Del: "4", Path: "a b"}}
		case 2:
			ds = []Df{{Add: "0", Del: "10", Path: "x"}, {Add: "-", Del: "-", Path: "x/\"y\".png"}}
		default:
			ndReach("nodiff")
		}
		c := w.addCommit(p, date, ds...)
		switch ndChoice("parents"+is, 3) {
		case 0:
			c.Parents = ""
			ndReach("noparent")
		case 1:
			c.Parents = "abcdef0"
		default:
			c.Parents = "abcdef0 1234567"
			ndReach("merge")
		}
	}
	w.All = true
	r := Run(w, "parse")
	ok(r, "parse")
	ndAssert(r.Out == parseRef(w.Commits, false, nil, false), "parse: every commit exactly as git reported it")
	ndObserve(r.Out)
}

// h: property=C01 quick=150 thorough=120 reach=rename,binary,big,hexpath,tab,sha256 bound="3 commits (SHA-1 or SHA-256) with up to 3 files; counts of up to 9 arbitrary digits or binary; paths of up to 3 arbitrary bytes (newlines, tabs and quotes included), hash-like paths, renames of any of these"
func H_parse_numstat() {
	ndHashes()
	w := &World{}
	path := func(name string) string {
		switch ndChoice(name+"Kind", 5) {
		case 0:
			return ndStr(name, 1+ndChoice(name+"Len", 2), 1, 255)
		case 1:
			ndReach("hexpath")
			return strings.Repeat("a", len(Hash(0))-1) + ndStr(name, 1, '0', 'f')
		case 2:
			ndReach("tab")
			return "d/a\tb\tc"
		case 3:
			return "{x => y}"
		}
		return "12\n34"
	}
	count := func(name string) string {
		switch ndChoice(name+"Kind", 3) {
		case 0:
			return "-"
		case 1:
			ndReach("big")
			return "1" + ndDigits(name, 8)
		}
		return ndDigits(name, 1)
	}
	for i := 0; i < 2; i++ {
		is := i2s(i)
		var ds []Df
		n := 1
		if i == 0 {
			n = ndChoice("files", 3)
		}
		for j := 0; j < n; j++ {
			k := is + "_" + i2s(j)
			d := Df{Add: "1", Del: "2", Path: "f" + k}
			if j == 0 && i == 0 || ndDeep() && i == 0 {
				d.Path = path("path" + k)
				if ndBool("rename" + k) {
					d.Old = path("old" + k)
					ndReach("rename")
				}
			}
			if j == n-1 {
				d.Add, d.Del = count("add"+k), "3"
				if d.Add == "-" {
					d.Del = "-"
					ndReach("binary")
				}
			}
			ds = append(ds, d)
		}
		w.addCommit(people[i], i2s(T0+i), ds...)
	}
	r := Run(w, "parse")
	ok(r, "parse")
	ndAssert(r.Out == parseRef(w.Commits, false, nil, false), "parse: files and counts exactly as git reported them")
	r2 := Run(w, "parse", "-s")
	ok(r2, "parse -s")
	ndAssert(r2.Out == parseRef(w.Commits, true, nil, false), "parse -s: commits without files")
	ndObserve(r.Out)
}
