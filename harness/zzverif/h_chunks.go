package zzverif

import "strings"

func chunkWorld() *World {
	w := &World{Index: []string{"d/f", "g"}}
	w.addCommit(people[0], i2s(T0), Df{Add: ndDigits("added", 2), Del: "2", Path: "g"})
	w.addCommit(people[1], i2s(T0+DAY), Df{Add: "4", Del: "0", Old: "g", Path: "d/f"}, Df{Add: "-", Del: "-", Path: "g"})
	c := w.addCommit(people[0], i2s(T0+2*DAY))
	c.Name = ""
	return w
}

// h: property=C02 quick=150 thorough=120 reach=split,twice bound="3 commits (rename, binary file, no diff, empty name); git's output (about 330 bytes) delivered in two pieces cut at any byte, byte by byte, or with a second cut up to 64 bytes later"
func H_chunk_split() {
	w := chunkWorld()
	args := strings.Split(ndPick("cmd", "parse", "tree -l", "table --csv -f", "dump"), " ")
	ndProcs(1)
	want := RunEnv(w, NoCache(), args...)
	ok(want, "whole")
	cut := 1 + ndChoice("cut", 340)
	w.Chunk = []int{cut, 4096}
	if ndDeep() || args[0] == "parse" {
		if d := ndChoice("second", 8); d > 0 {
			w.Chunk = []int{cut, d * d, 4096}
			ndReach("twice")
		}
	}
	if cut == 1 {
		w.Chunk = []int{1}
	}
	ndReach("split")
	r := RunEnv(w, NoCache(), args...)
	ndAssert(r.Code == want.Code && r.Out == want.Out, "the way git's output is cut into reads must not matter")
	ndObserve(r.Out)
}

// h: property=C02 quick=150 thorough=120 reach=boundary,long,over bound="field lengths placing every separator at each offset from 4090 to 4102, and one field of 30000, 63000, 65535, 65537 or 140000 bytes"
func H_chunk_buffer() {
	w := &World{}
	n := 4
	switch ndChoice("size", 6) {
	case 0:
		n = 4000 + ndChoice("pad", 40)
		ndReach("boundary")
	case 1:
		n = 30000
	case 2:
		n = 65535
	case 3:
		n = 65537
	case 4:
		n = 140000
	default:
		n = 63000
		ndReach("long")
	}
	name := strings.Repeat("n", n-3) + ndStr("tail", 2, 1, 126)
	notNul(name)
	w.addCommit(Person{name, "a@x"}, i2s(T0), Df{Add: "1", Del: "2", Path: "d/" + ndStr("path", 2, 33, 126)})
	w.addCommit(people[1], i2s(T0+1), Df{Add: "5", Del: "6", Path: "g"})
	r := Run(w, "parse")
	ndAssert(r.Panic == "", "long fields: no panic")
	if n > 65530 && r.Code != 0 {
		ndReach("over") // too long to read, and said to be
		ndAssert(r.Err != "", "a field that is too long: stderr says so")
		return
	}
	ok(r, "parse")
	ndAssert(r.Out == parseRef(w.Commits, false, nil, false), "long fields are read whole")
	ndObserve(r.Out)
}
