package zzverif

import "time"

// csvRead is a reader of CSV as RFC 4180 describes it, with LF or CRLF between
// records. ok is false when s is not well formed.
func csvRead(s string) (recs [][]string, ok bool) {
	i := 0
	for i < len(s) {
		var rec []string
		for {
			f := []byte{}
			if i < len(s) && s[i] == '"' {
				i++
				for {
					if i >= len(s) {
						return nil, false
					}
					if s[i] == '"' {
						i++
						if i < len(s) && s[i] == '"' {
							f = append(f, '"')
							i++
							continue
						}
						break
					}
					f = append(f, s[i])
					i++
				}
				if i < len(s) && s[i] != ',' && s[i] != '\n' {
					return nil, false
				}
			} else {
				for i < len(s) && s[i] != ',' && s[i] != '\n' {
					if s[i] == '"' || s[i] == '\r' {
						return nil, false
					}
					f = append(f, s[i])
					i++
				}
			}
			rec = append(rec, string(f))
			if i >= len(s) {
				return nil, false // the last record ends with a line break, too
			}
			i++
			if s[i-1] == '\n' {
				break
			}
		}
		recs = append(recs, rec)
	}
	return recs, true
}

// h: property=C24 quick=60 thorough=300 reach=quote,comma,newline,plain,utf8 bound="2 authors; the first one's name of 1 or 2 bytes of any value (thorough: 3), his email of 1 byte of any value (thorough: 2); none a NUL or a newline at the start; a two-digit count (all values), large counts; every sort mode, with and without -e, every limit that keeps 1 or 2 rows"
func H_csv() {
	n := 1 + ndChoice("len", 2+b2i(ndDeep()))
	mode := treeModes[ndChoice("mode", 5)]
	diff := mode == 'l' || mode == 'f'
	show := ndChoice("email", 2) == 1
	if n > 1 {
		ndAssume(mode == 'l' && !show)
	}
	name := ndStr("name", n, 1, 255)
	email := "al@x"
	if show {
		email = ndStr("mail", 1+b2i(ndDeep() && mode == 'C'), 1, 255)
		ndAssume(email[0] != '\n')
	}
	ndAssume(name[0] != '\n')
	w := &World{}
	add := "12345678"
	if mode == 'f' && !show {
		add = "123456" + ndDigits("add", 2)
	}
	w.addCommit(Person{name, email}, i2s(T0), Df{Add: add, Del: "1000", Path: "f"})
	w.addCommit(Person{name, email}, i2s(T0+DAY), Df{Add: "0", Del: "-", Path: "f"})
	w.Commits[1].Diffs[0].Del = "1"
	w.addCommit(Person{"Zoe, the \"O\"", "z@x"}, i2s(T0+DAY/2), Df{Add: "0", Del: "2", Path: "g"})
	args := append([]string{"table", "--csv"}, modeFlag(mode)...)
	if show {
		args = append(args, "-e")
	}
	if n == 1 {
		lim := 1 + ndChoice("limit", 2)
		args = append(args, "-n", i2s(lim))
	}
	r := RunEnv(w, NoCache(), args...)
	ok(r, "table")
	rows := tallyRef(w.Commits, Opt{Email: show, Diff: true})
	sortRows(rows, mode)
	if args[len(args)-1] == "1" {
		rows = rows[:1]
	}
	recs, good := csvRead(r.Out)
	ndAssert(good, "well-formed CSV")
	ndAssert(len(recs) == 1+len(rows), "a header and one record per author")
	head := []string{"name"}
	if show {
		head = append(head, "email")
	}
	head = append(head, "commits")
	if diff {
		head = append(head, "lines added", "lines removed", "files")
	}
	head = append(head, "last commit time", "first commit time")
	for i, rec := range recs {
		want := head
		if i > 0 {
			x := rows[i-1]
			want = []string{x.Name}
			if show {
				want = append(want, x.Email)
			}
			want = append(want, i2s(x.Commits))
			if diff {
				want = append(want, i2s(x.Add), i2s(x.Del), i2s(x.Files))
			}
			want = append(want, rfc(x.Last), rfc(x.First))
		}
		ndAssert(len(rec) == len(want), "every record has the fields of the header")
		for j := range rec {
			ndAssert(rec[j] == want[j], "field "+head[j]+" decodes to the value")
		}
	}
	switch name[0] {
	case '"':
		ndReach("quote")
	case ',':
		ndReach("comma")
	case '\r':
		ndReach("newline")
	case 'x':
		ndReach("plain")
	case 0xc3:
		ndReach("utf8")
	}
	ndObserve(r.Out)
}

// h: property=C24 quick=120 thorough=120 reach=files,commits,zone bound="an author with 1 to 1201 files or 1 to 1201 commits and another with two commits, in 5 time zones (with clock changes and half hours), dates in summer and winter; every sort mode, with and without -e"
func H_csv_values() {
	w := &World{}
	mode := treeModes[ndChoice("mode", 5)]
	diff := mode == 'l' || mode == 'f'
	email := ndChoice("email", 2) == 1
	n := ndPickInt("n", 1, 12, 999, 1000, 1201)
	if diff {
		var ds []Df
		for i := 0; i < n; i++ {
			ds = append(ds, Df{Add: "1000", Del: "1", Path: "f" + i2s(i)})
		}
		w.addCommit(people[0], i2s(T0), ds...)
		ndReach("files")
	} else {
		for i := 0; i < n; i++ {
			w.addCommit(people[0], i2s(T0-i*3600))
			ndReach("commits")
		}
	}
	w.addCommit(people[1], "1577880000", Df{Add: "1", Del: "1", Path: "g"})
	w.addCommit(people[1], "1593600000", Df{Add: "0", Del: "-", Path: "h"})
	w.Commits[len(w.Commits)-1].Diffs[0].Del = "0"
	env := NoCache()
	env["TZ"] = ndPick("zone", "UTC", "Asia/Tokyo", "America/New_York", "Asia/Kolkata", "Pacific/Apia")
	if env["TZ"] != "UTC" {
		ndReach("zone")
	}
	args := append([]string{"table", "--csv"}, modeFlag(mode)...)
	if email {
		args = append(args, "-e")
	}
	r := RunEnv(w, env, args...)
	ok(r, "table")
	rows := tallyRef(w.Commits, Opt{Email: email, Diff: true})
	sortRows(rows, mode)
	recs, good := csvRead(r.Out)
	ndAssert(good, "well-formed CSV")
	ndAssert(len(recs) == 3, "a header and one record per author")
	for i, x := range rows {
		rec := recs[1+i]
		ndAssert(rec[0] == x.Name, "name")
		at := 1
		if email {
			ndAssert(rec[1] == x.Email, "email")
			at = 2
		}
		ndAssert(rec[at] == i2s(x.Commits), "number of commits, unabbreviated")
		if diff {
			ndAssert(rec[at+1] == i2s(x.Add) && rec[at+2] == i2s(x.Del), "line counts, unabbreviated")
			ndAssert(rec[at+3] == i2s(x.Files), "number of files, unabbreviated")
			at += 3
		}
		ndAssert(len(rec) == at+3, "fields")
		for j, want := range []int{x.Last, x.First} {
			t, err := time.Parse(time.RFC3339, rec[at+1+j])
			ndAssert(err == nil && t.Unix() == int64(want), "time decodes to the commit's")
		}
	}
	ndObserve(r.Out)
}

// h: property=C24 quick=60 thorough=120 reach=cut,whole,long bound="1 to 3 or 90 authors (5 KB), the table as CSV by commits, lines or files, with and without emails, written to a standard output that has room for any number of bytes up to 200, or for 25 sizes up to all of it; 1 or 2 CPUs"
func H_csv_room() {
	w := &World{}
	n := []int{1, 3, 90}[ndChoice("authors", 3)]
	for i := 0; i < n; i++ {
		w.addCommit(Person{"Author " + i2s(i), "a" + i2s(i) + "@example.org"}, i2s(T0+i*DAY), Df{Add: i2s(i), Del: "1", Path: "f"})
	}
	args := []string{"table", "--csv", "-n", "0"}
	args = append(args, [][]string{nil, {"-l"}, {"-f", "-e"}}[ndChoice("mode", 3)]...)
	ndNow(T0 + 100*DAY)
	ndProcs(1 + ndChoice("procs", 2))
	want := RunEnv(w, NoCache(), args...)
	ok(want, "table")
	all := len(want.Out)
	room := ndChoice("room", 226)
	if room > 200 {
		room = all - (all*(room-201))/24
		ndReach("long")
	}
	OutputFull(room)
	r := RunEnv(w, NoCache(), args...)
	ndAssert(r.Panic == "", "no panic")
	if room >= all {
		ndAssert(r.Code == 0 && r.Out == want.Out, "there is room for all of it")
		ndReach("whole")
		return
	}
	ndAssert(r.Code != 0 && r.Err != "", "output that is cut short is an error")
	ndReach("cut")
}
