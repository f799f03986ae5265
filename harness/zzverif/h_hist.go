package zzverif

import "time"

// h: property=C09 quick=150 thorough=240 reach=daily,monthly,yearly,epoch bound="2 commits (thorough 3), gaps up to 6 years and exactly at 60 and 1825 days, by commits, lines and files; no revision, alone or with --since, --author or a path (ending now), with --until or a revision (ending at the last commit); the first commit in 2011 or at the epoch"
func H_hist_timeline() {
	w := &World{}
	gaps := []int{0, 1, 33, 59, 60, 61, 200, 1824, 1825, 1826, 2200}
	day := 0
	n := 2
	if ndDeep() {
		n = 3
	}
	ends := ndChoice("ends", 7)
	base := 1300000000
	if ends < 2 && ndChoice("epoch", 2) == 1 {
		base = 0
		ndReach("epoch")
	}
	for i := 0; i < n; i++ {
		is := i2s(i)
		p := people[ndChoice("author"+is, 1+min(i, 1))]
		if i > 0 {
			day += gaps[ndChoice("gap"+is, len(gaps))]
		}
		w.addCommit(p, i2s(base+DAY*day+ndChoice("sec"+is, 2)*40000), Df{Add: "1", Del: "1", Path: "f"})
	}
	mode := []byte{'C', 'l', 'f'}[(day+ends)%3]
	if ends < 2 || ndDeep() {
		mode = []byte{'C', 'l', 'f'}[ndChoice("mode", 3)]
		ndProcs(1 + ndChoice("procs", 2))
	} else {
		ndProcs(2)
	}
	args := append([]string{"hist"}, modeFlag(mode)...)
	now := base + DAY*day + 50000
	if ends%2 == 1 {
		now += ndPickInt("nowgap", 0, 10*DAY, 400*DAY)
	}
	ndNow(int64(now))
	end := now
	switch ends {
	case 0:
		end = 0
		args = append(args, Hash(n-1))
	case 2:
		end = 0
		args = append(args, "HEAD")
	case 3:
		args = append(args, "--since", "1200000000")
	case 4:
		args = append(args, "--author", "x>")
	case 5:
		args = append(args, "--", "f")
	case 6:
		end = 0
		args = append(args, "--until", i2s(now))
	}
	r := RunEnv(w, NoCache(), args...)
	ok(r, "hist")
	bs := histRef(w.Commits, Opt{Diff: mode != 'C'}, end)
	checkHist(r.Out, bs, mode, false, "hist")
	switch len(bs[0].label) {
	case 4:
		ndReach("yearly")
	case 8:
		ndReach("monthly")
	default:
		ndReach("daily")
	}
	ndObserve(r.Out)
}

func ndPickInt(name string, vs ...int) int { return vs[ndChoice(name, len(vs))] }

// h: property=C10 quick=150 thorough=240 reach=tie,scaled,empty,two bound="3 commits by up to 3 authors on up to 3 days, one-digit counts (all values), with or without a day of 5000 lines, commits without files; hist by commits, lines and files, name and email keys"
func H_hist_winner() {
	w := &World{}
	ps := []Person{{"Al", "z@x"}, {"Alx", "b@x"}, {"Al", "c@x"}}
	n := 3
	day := 0
	mode := []byte{'C', 'l', 'f'}[ndChoice("mode", 3)]
	kinds := 3
	if mode == 'C' {
		kinds = 1
	}
	for i := 0; i < n; i++ {
		is := i2s(i)
		if i > 0 {
			day += ndChoice("day"+is, 2) * i
		}
		var ds []Df
		switch ndChoice("diffs"+is, kinds) {
		case 1:
			add := "3"
			if i == 1 {
				add = ndDigits("add"+is, 1)
			}
			ds = []Df{{Add: add, Del: "1", Path: "f"}}
		case 2:
			ds = []Df{{Add: "2", Del: "0", Path: "f"}, {Add: "4", Del: "1", Path: "g"}}
		default:
			ndReach("empty")
		}
		w.addCommit(ps[ndChoice("author"+is, min(i+1, 3))], i2s(T0+DAY*day+60*i), ds...)
	}
	if mode == 'l' && ndChoice("bulk", 2) == 1 {
		w.addCommit(ps[1], i2s(T0+DAY*(day+1)), Df{Add: "4999", Del: "1", Path: "big"})
		ndReach("scaled")
	}
	email := mode != 'f' && ndChoice("email", 2) == 1
	ndProcs(1 + ndChoice("procs", 2))
	args := append([]string{"hist"}, modeFlag(mode)...)
	if email {
		args = append(args, "-e")
	}
	now := T0 + DAY*(day+1) + 5
	ndNow(int64(now))
	r := RunEnv(w, NoCache(), args...)
	ok(r, "hist")
	bs := histRef(w.Commits, Opt{Email: email, Diff: mode != 'C'}, now)
	for _, b := range bs {
		if len(b.rows) > 1 {
			ndReach("two")
			if modeVal(b.rows[0], mode) == modeVal(b.rows[1], mode) {
				ndReach("tie")
			}
		}
	}
	checkHist(r.Out, bs, mode, email, "hist")
	ndObserve(r.Out)
}

// h: property=C10 quick=150 thorough=120 reach=long,even,full bound="2 commits by 1 or 2 authors on the same or different days, each of 0 to 40, 71 to 73, 99 to 101, 1000, 99999 or 9999999 lines; hist by lines"
func H_hist_bars() {
	w := &World{}
	pick := func(name string) int {
		n := ndChoice(name, 50)
		if n <= 40 {
			return n
		}
		return []int{71, 72, 73, 99, 100, 101, 1000, 99999, 9999999}[n-41]
	}
	a, b := pick("a"), pick("b")
	same := ndChoice("sameDay", 2)
	w.addCommit(people[0], i2s(T0), Df{Add: i2s(a), Del: "0", Path: "f"})
	d := DAY
	if same == 1 {
		d = 60
	}
	w.addCommit([]Person{people[0], {"al", "bo@x"}}[ndChoice("author", 2)], i2s(T0+d), Df{Add: "0", Del: i2s(b), Path: "f"})
	now := T0 + d
	ndNow(int64(now))
	ndProcs(1)
	r := RunEnv(w, NoCache(), "hist", "-l")
	ok(r, "hist")
	bs := histRef(w.Commits, Opt{Diff: true}, now)
	if a+b > 72 {
		ndReach("long")
	}
	if a == b {
		ndReach("even")
	}
	if a == 36 {
		ndReach("full")
	}
	checkHist(r.Out, bs, 'l', false, "hist")
	ndObserve(r.Out)
}

// zones and instants at which their clocks change
var zoneChanges = []struct {
	zone string
	at   int
}{
	{"America/Sao_Paulo", 1508036400}, // no midnight
	{"America/Sao_Paulo", 1487469600}, // midnight happens, then 23:00 again
	{"America/Havana", 1288501200},    // midnight twice
	{"Atlantic/Azores", 1269738000},   // no midnight, 23:00 UTC-1
	{"Asia/Amman", 1459461600},        // no midnight on the first of a month
	{"Asia/Amman", 1288303200},        // midnight twice
	{"Pacific/Apia", 1325239200},      // no 30 December 2011
	{"Pacific/Kwajalein", 745934400},  // no 21 August 1993
	{"America/Asuncion", 1286078400},
	{"America/Santiago", 1304823600},
	{"Africa/Cairo", 1284069600},
	{"Europe/Berlin", 1301187600},
	{"America/New_York", 1289109600},
	{"Australia/Lord_Howe", 1301756400},
	{"Asia/Kathmandu", 1300000000},
}

// civil is the local date of an instant as a number like 20060102.
func civil(at int, loc *time.Location) int {
	y, m, d := time.Unix(int64(at), 0).In(loc).Date()
	return y*10000 + int(m)*100 + d
}

func zoneLabel(day int, res byte) string {
	y, m, d := i2s(day/10000), day/100%100, i2s(day%100)
	if len(d) < 2 {
		d = "0" + d
	}
	ms := i2s(m)
	if len(ms) < 2 {
		ms = "0" + ms
	}
	switch res {
	case 'y':
		return y
	case 'm':
		return "JanFebMarAprMayJunJulAugSepOctNovDec"[3*m-3:3*m] + " " + y
	}
	return y + "-" + ms + "-" + d
}

// histZone is the specified timeline in a time zone, found by looking at the
// calendar every few hours from the first commit to the end.
func histZone(cs []Cm, o Opt, end int, loc *time.Location) []*hbucket {
	lo, hi := atoi(cs[0].Date), 0
	for i := range cs {
		lo, hi = min(lo, atoi(cs[i].Date)), max(hi, atoi(cs[i].Date))
	}
	if end == 0 {
		end = hi
	}
	res, step := byte('d'), 3*3600
	if end-lo > 5*365*DAY {
		res, step = 'y', 20*DAY
	} else if end-lo > 60*DAY {
		res, step = 'm', 3*DAY
	}
	var bs []*hbucket
	see := func(at int) *hbucket {
		l := zoneLabel(civil(at, loc), res)
		for _, b := range bs {
			if b.label == l {
				return b
			}
		}
		b := &hbucket{label: l, start: at}
		bs = append(bs, b)
		return b
	}
	for at := lo; at < end; at += step {
		see(at)
	}
	see(end)
	for i := range cs {
		see(atoi(cs[i].Date)).add(&cs[i], o)
	}
	return bs
}

// h: property=C09 quick=150 thorough=240 reach=daily,monthly,yearly bound="15 clock changes in 13 time zones (midnight skipped, midnight twice, a date skipped, ordinary ones); 2 commits, the first 1 or 3 days, 4 months or 6 years before the change, the second at one of 14 moments from 25 hours before to 49 hours after; end at the last commit, or 0 or 2 days later; sequential by commits, parallel by lines"
func H_hist_zones() {
	z := zoneChanges[ndChoice("zone", len(zoneChanges))]
	loc := zone(z.zone)
	gap := ndPickInt("gap", 1, 3, 121, 2300)
	w := &World{}
	at := z.at + ndPickInt("moment", -25*3600, -86400, -7200, -3601, -3600, -1, 0, 1, 1800, 3599, 3600, 7200, 86400, 49*3600)
	w.addCommit(people[0], i2s(z.at-gap*DAY+100), Df{Add: "3", Del: "1", Path: "f"})
	w.addCommit(people[1], i2s(at), Df{Add: "1", Del: "1", Path: "f"})
	late := max(at, z.at-gap*DAY+100)
	args := []string{"hist"}
	mode := byte('C')
	ndProcs(1)
	if ndChoice("par", 2) == 1 {
		ndProcs(2)
		mode = 'l'
		args = append(args, "-l")
	}
	end := 0
	switch ndChoice("end", 3) {
	case 0:
		args = append(args, Hash(1))
		ndNow(int64(late + 3*DAY))
	case 1:
		end = late
		ndNow(int64(end))
	default:
		end = late + 2*DAY
		ndNow(int64(end))
	}
	vars := NoCache()
	vars["TZ"] = z.zone
	r := RunEnv(w, vars, args...)
	ok(r, "hist in "+z.zone)
	bs := histZone(w.Commits, Opt{Diff: mode == 'l'}, end, loc)
	ndReach([]string{"", "", "", "", "yearly", "", "", "", "monthly", "", "daily"}[len(bs[0].label)])
	checkHist(r.Out, bs, mode, false, "hist in "+z.zone)
	ndObserve(r.Out)
}
