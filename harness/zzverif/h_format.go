package zzverif

import "strings"

// digitsVal is the value of a string of digits.
func digitsVal(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func isDigits(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// checkNum asserts that got is the specified rendering of n.
func checkNum(got string, n int, what string) {
	switch {
	case got == ">99m":
		ndReach("huge")
		ndAssert(n >= 100000000, what+": only counts from a hundred million are >99m")
	case strings.HasSuffix(got, "m"):
		ndReach("millions")
		x, y, found := strings.Cut(got[:len(got)-1], ".")
		ndAssert(found && isDigits(x) && isDigits(y) && len(y) == 1, what+": millions have one decimal")
		ndAssert(len(x) == 1 || x[0] != '0', what+": no leading zero")
		t := digitsVal(x)*10 + digitsVal(y)
		ndAssert(n >= 1000000 && n < 100000000, what+": only counts from a million are in millions")
		d := n - t*100000
		// single precision may turn a near tie either way
		ndAssert(d <= 50008 && d >= -50008, what+": millions are rounded to one decimal")
	case strings.Contains(got, ","):
		ndReach("thousands")
		x, y, _ := strings.Cut(got, ",")
		ndAssert(isDigits(x) && isDigits(y) && len(y) == 3 && len(x) <= 3, what+": separator before the last three digits")
		ndAssert(x[0] != '0', what+": no leading zero")
		ndAssert(digitsVal(x)*1000+digitsVal(y) == n, what+": value")
	default:
		ndReach("small")
		ndAssert(isDigits(got) && len(got) <= 3, what+": plain digits below a thousand")
		ndAssert(len(got) == 1 || got[0] != '0', what+": no leading zero")
		ndAssert(digitsVal(got) == n, what+": value")
	}
}

// h: property=C21 quick=200 thorough=240 reach=small,thousands,millions,huge bound="every count from 0 to 999,999,999 as lines added or removed of one commit, in table and tree by lines; 11 counts at the boundaries in hist"
func H_numbers() {
	w := &World{Index: []string{"f"}}
	dg := 1 + ndChoice("digits", 9)
	// the leading digits of large counts are chosen path by path
	s := ""
	if dg >= 7 {
		s = i2s(1 + ndChoice("lead", 9))
		if dg == 8 {
			s += i2s(ndChoice("second", 10))
		}
	}
	s += ndDigits("n", dg-len(s))
	if dg > 1 {
		ndAssume(s[0] != '0')
	}
	n := digitsVal(s)
	cmd := ndPick("cmd", "table", "tree", "hist")
	if cmd == "hist" {
		// the scale of the bars follows the count, so it is not left open here
		s = ndPick("value", "0", "999", "1000", "1001", "45067", "999999", "1000000", "1060000", "99940000", "99999999", "100000000")
		n = digitsVal(s)
		ndAssume(dg == 1)
	}
	d := Df{Add: s, Del: "7", Path: "f"}
	removed := ndChoice("removed", 2) == 1
	if removed {
		d.Add, d.Del = d.Del, d.Add
	}
	w.addCommit(people[0], i2s(NOW-3600*5), d)
	ndProcs(1)
	r := RunEnv(w, NoCache(), cmd, "-l")
	ok(r, cmd)
	ls := lines(r.Out)
	var a, b string
	if cmd == "table" {
		ndAssert(len(ls) == 5, "one row")
		l := strip(ls[3])
		i := strings.Index(l, " / ")
		ndAssert(i >= 8 && len(l) >= i+10, "row layout")
		a, b = strings.TrimLeft(l[i-7:i], " "), strings.TrimLeft(l[i+3:i+10], " ")
		ndAssert(l[i+10:] == "│", "row layout")
	} else {
		ndAssert(len(ls) == 1, "one line")
		l := strip(ls[0])
		i, j := strings.LastIndexByte(l, '('), strings.LastIndex(l, " / ")
		ndAssert(i > 0 && j > i && l[len(l)-1] == ')', "metric")
		a, b = l[i+1:j], l[j+3:len(l)-1]
	}
	if removed {
		a, b = b, a
	}
	ndAssert(b == "7", "the other count")
	checkNum(a, n, cmd)
	ndObserve(r.Out)
}

// checkAgo asserts that got is the specified rendering of an age in seconds.
func checkAgo(got string, s int, what string) {
	num, unit, found := strings.Cut(got, " ")
	if got == ">99 yr. ago" {
		ndReach("ages")
		ndAssert(s >= 100*365*DAY, what+": only ages past 99 years")
		return
	}
	ndAssert(found && isDigits(num) && (len(num) == 1 || num[0] != '0'), what+": a number and a unit")
	n := digitsVal(num)
	size, next, one := 0, 0, ""
	many := ""
	switch unit {
	case "min. ago":
		size, next, one, many = 60, 3600, unit, unit
	case "hour ago", "hr. ago":
		size, next, one, many = 3600, DAY, "hour ago", "hr. ago"
	case "day ago", "days ago":
		size, next, one, many = DAY, 7*DAY, "day ago", "days ago"
	case "week ago", "weeks ago":
		size, next, one, many = 7*DAY, 30*DAY, "week ago", "weeks ago"
	case "month ago", "mon. ago":
		size, next, one, many = 30*DAY, 365*DAY, "month ago", "mon. ago"
	case "year ago", "yr. ago":
		size, next, one, many = 365*DAY, 100*365*DAY, "year ago", "yr. ago"
	}
	ndAssert(size > 0, what+": a known unit")
	ndReach(unit[:2])
	ndAssert(s < next, what+": the largest unit that fits")
	ndAssert(n > 0 || unit == "min. ago", what+": the largest unit that fits")
	ndAssert(n == s/size, what+": rounded down")
	if n == 1 {
		ndAssert(unit == one, what+": singular")
	} else {
		ndAssert(unit == many, what+": plural")
	}
}

// H_ago_quarters is H_ago where a fraction would be rounded, with few values at a
// time, which keeps floating-point arithmetic within reach of the solver.
//
// h: property=C22 quick=150 thorough=240 reach=ho,hr,da,we,mo,ye,yr bound="every age within 4 s of each quarter of 1, 2, 3, 4, 6, 11, 23 and 99 hours, days, weeks, months and years"
func H_ago_quarters() {
	size := []int{60, 3600, DAY, 7 * DAY, 30 * DAY, 365 * DAY}[ndChoice("unit", 6)]
	k := []int{1, 2, 3, 4, 6, 11, 23, 99}[ndChoice("count", 8)]
	age := k*size + ndChoice("quarter", 4)*size/4 - 4 + ndInt("off", 0, 7)
	w := &World{Index: []string{"f"}}
	ndNow(int64(T0 + age))
	w.addCommit(people[0], i2s(T0), Df{Add: "1", Del: "0", Path: "f"})
	ndProcs(1)
	r := RunEnv(w, NoCache(), "table", "-m")
	ok(r, "table")
	ls := lines(r.Out)
	ndAssert(len(ls) == 5, "one row")
	l := strip(ls[3])
	at := len("│") + 33 + 1
	ndAssert(len(l) == at+11+1+7+len("│"), "row layout")
	checkAgo(strings.TrimRight(l[at:at+11], " "), age, "age")
	ndObserve(r.Out)
}

// h: property=C22 quick=200 thorough=240 reach=mi,ho,hr,da,we,mo,ye,yr,ages bound="every age from 0 s to 126 years of a commit at two dates, as last and first edit in table and as metric of tree"
func H_ago() {
	w := &World{Index: []string{"f"}}
	cmd := ndPick("cmd", "table", "-m", "-c", "tree")
	age := ndInt("age", 0, 4000000000)
	date := ndPick("date", "0", "1600000000")
	ndNow(int64(atoi(date) + age))
	w.addCommit(people[0], date, Df{Add: "1", Del: "0", Path: "f"})
	args := []string{"table"}
	switch cmd {
	case "-m", "-c":
		args = append(args, cmd)
	case "tree":
		args = []string{"tree", "-m"}
	}
	ndProcs(1)
	r := RunEnv(w, NoCache(), args...)
	ok(r, cmd)
	ls := lines(r.Out)
	if cmd == "tree" {
		ndAssert(len(ls) == 1, "one line")
		l := strip(ls[0])
		i := strings.IndexByte(l, '(')
		ndAssert(i > 0 && l[len(l)-1] == ')', "metric")
		checkAgo(l[i+1:len(l)-1], age, cmd)
	} else {
		ndAssert(len(ls) == 5, "one row")
		l := strip(ls[3])
		at := len("│") + 33 + 1
		ndAssert(len(l) == at+11+1+7+len("│"), "row layout")
		checkAgo(strings.TrimRight(l[at:at+11], " "), age, cmd)
	}
	ndObserve(r.Out)
}
