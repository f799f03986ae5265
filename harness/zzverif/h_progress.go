package zzverif

import "strings"

// screen is what a terminal shows of s: one string per line, each cell with
// the colours set before it.
func screen(s string) []string {
	var out []string
	var row []string
	col, pre := 0, ""
	flush := func() {
		for len(row) > 0 && row[len(row)-1] == " " {
			row = row[:len(row)-1]
		}
		out = append(out, strings.Join(row, ""))
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\n':
			flush()
			row, col = nil, 0
		case c == '\r':
			col = 0
		case c == 0x1b && i+1 < len(s) && s[i+1] == '[':
			j := i + 2
			for j < len(s) && (s[j] < 0x40 || s[j] > 0x7e) {
				j++
			}
			if j == len(s) {
				break
			}
			switch {
			case s[j] == 'K' && s[i+2:j] == "2":
				for k := range row {
					row[k] = " "
				}
			case s[j] == 'K' && j == i+2, s[j] == 'K' && s[i+2:j] == "0":
				if col < len(row) {
					row = row[:col]
				}
			default:
				pre += s[i : j+1]
			}
			i = j
		default:
			for len(row) <= col {
				row = append(row, " ")
			}
			row[col] = pre + s[i:i+1]
			pre = ""
			col++
		}
	}
	flush()
	return out
}

// progressOf is the progress reports in s of the form "33% (2/4 commits)":
// percentages, commits done, and totals. Nothing is asserted about the numbers
// in reports of another form.
func progressOf(s string) (rows [][3]int) {
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		a := i
		for a > 0 && s[a-1] >= '0' && s[a-1] <= '9' {
			a--
		}
		if a == i || !strings.HasPrefix(s[i:], "% (") {
			continue
		}
		p := strings.SplitN(s[i+3:], "/", 2)
		if len(p) != 2 {
			continue
		}
		q := strings.SplitN(p[1], " ", 2)
		if len(q) != 2 || !strings.HasPrefix(q[1], "commits)") {
			continue
		}
		rows = append(rows, [3]int{atoi(s[a:i]), atoi(p[0]), atoi(q[0])})
	}
	return
}

var progressCmds = [][]string{{"table", "-l"}, {"table", "-f", "--csv"}, {"tree"}, {"hist", "-l"}, {"table"}, {"tree", "-l", "--", "g"}, {"table", "-l", "--author", "nobody"}}

// h: property=C28 quick=150 thorough=500 reach=bar,nobar,cached,empty bound="2 to 8 commits (units of 2 by one to three workers), one symbolic one-digit count, 7 commands, no cache or one that holds the first 2 commits; standard output a terminal or not; every schedule with one deviation (thorough 2) on 5 commits, the default one otherwise"
func H_progress() {
	n := 2 + ndChoice("n", 7)
	w := cacheWorldK(n, 1)
	cmd := ndChoice("cmd", 7)
	args := progressCmds[cmd]
	p := ndChoice("procs", 3)
	cached := ndChoice("cached", 2) == 1
	ndNow(T0 + 9*DAY + 60)
	ndProcs(1 + p)
	want := RunEnv(w, NoCache(), args...)
	ok(want, "run into a pipe")
	env := NoCache()
	if cached {
		ndAssume(n > 2)
		env = nil
		all := w.Commits
		w.Commits = all[:2]
		ok(Run(w, args...), "warm-up")
		w.Commits = all
		ndReach("cached")
	}
	if n == 5 {
		ndSchedule(1 + b2i(ndDeep() && cmd%3 == 0))
	}
	got := RunEnv(w, OnTerminal(env), args...)
	ndSchedule(0)
	checkProgress(got, want)
	if len(progressOf(got.Out)) > 0 {
		ndReach("bar")
	} else {
		ndReach("nobar")
	}
	if n > 3 && want.Out == "" {
		ndReach("empty")
	}
	ndObserve(got.Out)
}

func checkProgress(got, want Result) {
	ok(got, "run on a terminal")
	ndAssert(!strings.Contains(want.Out, "\r") && !strings.Contains(want.Out, "\x1b[2K") && len(progressOf(want.Out)) == 0, "nothing but the result goes into a pipe")
	ndAssert(got.Err == "" && want.Err == "", "nothing on standard error")
	a, b := screen(got.Out), screen(want.Out)
	ndAssert(len(a) == len(b), "the terminal shows as many lines as the pipe got")
	for i := range a {
		if i < len(b) {
			ndAssert(a[i] == b[i], "the terminal shows what the pipe got")
		}
	}
	last := [3]int{}
	for _, r := range progressOf(got.Out) {
		ndAssert(r[0] >= last[0] && r[1] >= last[1] && (last[2] == 0 || r[2] == last[2]), "progress does not go backwards")
		ndAssert(r[0] <= 100 && r[1] <= r[2], "progress does not exceed the total")
		last = r
	}
}
