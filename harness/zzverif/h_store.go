package zzverif

import (
	"iter"
	"slices"
	"time"

	"github.com/sinclairtarget/git-who/internal/cache/backends"
	"github.com/sinclairtarget/git-who/internal/git"
)

// store is what the cache's backends have in common.
type store interface {
	Open() error
	Close() error
	Get(revs []string) (iter.Seq[git.Commit], func() error)
	Add(commits []git.Commit) error
	Clear() error
}

const (
	storeDir  = "/gob/repo-1"
	storeFile = "commits.gobs"
)

func newStore(json bool) store {
	d := CacheHome() + storeDir
	if json {
		return backends.JSONBackend{Path: d + "/" + storeFile}
	}
	return &backends.GobBackend{Dir: d, Path: d + "/" + storeFile}
}

// storeCommits are n commits, the parts of which differ in every way that
// matters to an encoding: empty and zero parts come after others.
func storeCommits(n int) []git.Commit {
	var cs []git.Commit
	for i := 0; i < n; i++ {
		c := git.Commit{Hash: Hash(i), ShortHash: ShortOf(Hash(i)), AuthorName: people[i%3].Name, AuthorEmail: people[i%3].Email, Date: time.Unix(int64(T0+i*DAY), 0)}
		switch i {
		case 0:
			c.FileDiffs = []git.FileDiff{{Path: "d/f", LinesAdded: 3, LinesRemoved: 1}, {Path: "g h", LinesAdded: 1}}
		case 1:
			c.IsMerge = true
			c.AuthorEmail = ""
		case 2:
			c.FileDiffs = []git.FileDiff{{Path: "x"}}
		case 3:
			c.AuthorName = ""
			c.FileDiffs = []git.FileDiff{{Path: "d/f"}, {Path: "y", LinesRemoved: 7}}
		}
		cs = append(cs, c)
	}
	return cs
}

func sameCommit(a, b git.Commit) bool {
	if a.Hash != b.Hash || a.ShortHash != b.ShortHash || a.IsMerge != b.IsMerge || a.AuthorName != b.AuthorName || a.AuthorEmail != b.AuthorEmail || !a.Date.Equal(b.Date) || len(a.FileDiffs) != len(b.FileDiffs) {
		return false
	}
	for i := range a.FileDiffs {
		if a.FileDiffs[i] != b.FileDiffs[i] {
			return false
		}
	}
	return true
}

// collect gets the asked commits and compares with what should be there.
func collect(s store, cs []git.Commit, stored, asked func(i int) bool, what string) {
	revs := []string{}
	var want []int
	for i := range cs {
		if asked(i) {
			revs = append(revs, cs[i].Hash)
			if stored(i) {
				want = append(want, i)
			}
		}
	}
	seq, finish := s.Get(revs)
	got := slices.Collect(seq)
	ndAssert(finish() == nil, what+": no error")
	ndAssert(len(got) == len(want), what+": every commit asked for that was stored, and no other, comes back")
	used := make([]bool, len(got))
	for _, i := range want {
		n := -1
		for j := range got {
			if got[j].Hash == cs[i].Hash && !used[j] {
				n = j
				break
			}
		}
		ndAssert(n >= 0, what+": each comes back once")
		used[n] = true
		ndAssert(sameCommit(got[n], cs[i]), what+": it comes back as it was stored")
	}
}

// h: property=C25 quick=60 thorough=300 reach=json,sessions,cleared,none bound="4 commits; any subset stored, in up to 4 batches with the cache closed and opened again between any of them; any subset asked for (32-bit counts, a 2-byte name, path and date symbolic); asked again in two later sessions; then emptied, and one stored anew; both stores; reads returning as little as 3 bytes at a time"
func H_store() {
	json := ndChoice("json", 2) == 1
	cs := storeCommits(4)
	add, del := ndInt("added", 0, 1<<31-1), ndInt("removed", 0, 1<<31-1)
	cs[0].FileDiffs[0].LinesAdded = add
	cs[3].FileDiffs[1].LinesRemoved = del
	hi := byte(255)
	if json {
		ndReach("json")
		hi = 127 // JSON is text
	}
	cs[2].AuthorName = ndStr("name", 2, 1, hi)
	cs[2].FileDiffs[0].Path = ndStr("path", 2, 1, hi)
	cs[1].Date = time.Unix(int64(ndInt("date", T0-1000000, T0+1000000)), 0)
	stored := ndChoice("stored", 15) + 1
	asked := ndChoice("asked", 16)
	split := ndChoice("split", 3) // one batch, one each, one each and a session each
	again := ndChoice("again", 2) == 1
	MakeDir(CacheHome() + storeDir)
	if ndDeep() {
		ShortReads(3)
	}
	st := func(i int) bool { return stored>>i&1 == 1 }
	ask := func(i int) bool { return asked>>i&1 == 1 }
	s := newStore(json)
	ndAssert(s.Open() == nil, "opens")
	var batch []git.Commit
	for i := range cs {
		if !st(i) {
			continue
		}
		batch = append(batch, cs[i])
		if split == 0 {
			continue
		}
		ndAssert(s.Add(batch) == nil, "adds")
		batch = batch[:0]
		if split == 2 {
			ndReach("sessions")
			ndAssert(s.Close() == nil, "closes")
			s = newStore(json)
			ndAssert(s.Open() == nil, "opens again")
		}
	}
	if split == 0 {
		ndAssert(s.Add(batch) == nil, "adds")
	}
	if asked == 0 {
		ndReach("none")
	}
	collect(s, cs, st, ask, "in the session")
	if again {
		ndAssert(s.Close() == nil, "closes")
		s = newStore(json)
		ndAssert(s.Open() == nil, "opens again")
		collect(s, cs, st, ask, "in a later session")
		ndAssert(s.Close() == nil, "closes")
		s = newStore(json)
		ndAssert(s.Open() == nil, "opens once more")
		collect(s, cs, st, ask, "in a third session")
		collect(s, cs, st, ask, "asked again")
		if asked == 15 && split == 0 {
			ndReach("cleared")
			ndAssert(s.Clear() == nil, "is emptied")
			collect(s, cs, func(int) bool { return false }, ask, "after it was emptied")
			ndAssert(s.Add(cs[1:2]) == nil, "adds after it was emptied")
			collect(s, cs, func(i int) bool { return i == 1 }, ask, "after it was filled again")
			ndAssert(s.Close() == nil, "closes")
			s = newStore(json)
			ndAssert(s.Open() == nil, "opens again")
			collect(s, cs, func(i int) bool { return i == 1 }, ask, "after it was filled again and reopened")
		}
	}
	ndAssert(s.Close() == nil, "closes")
	RemoveTree(CacheHome())
	ndObserve("done")
}

// h: property=C25 quick=60 thorough=300 reach=dup,cut,changed,yielded bound="3 commits in one, two or three batches; one of them stored twice; or the stored file, compressed or not, cut short at any byte; or any one byte of the compressed file changed to any value; all commits asked for"
func H_store_damage() {
	kind := ndChoice("kind", 4)
	json := kind < 2 && ndChoice("json", 2) == 1
	split := ndChoice("split", 3)
	cs := storeCommits(3)
	MakeDir(CacheHome() + storeDir)
	file := CacheHome() + storeDir + "/" + storeFile
	s := newStore(json)
	ndAssert(s.Open() == nil, "opens")
	var ends []int // sizes of the file between batches
	add := func(b []git.Commit) {
		data, _ := ReadFile(file)
		ends = append(ends, len(data))
		ndAssert(s.Add(b) == nil, "adds")
	}
	switch split {
	case 0:
		add(cs)
	case 1:
		add(cs[:2])
		add(cs[2:])
	case 2:
		add(cs[:1])
		add(cs[1:2])
		add(cs[2:])
	}
	at := -1
	switch kind {
	case 0: // a commit is there twice
		ndReach("dup")
		i := ndChoice("twice", 3)
		if ndChoice("reopen", 2) == 1 {
			ndAssert(s.Close() == nil, "closes")
			s = newStore(json)
			ndAssert(s.Open() == nil, "opens again")
		}
		add(cs[i : i+1])
	case 1: // the file that is in use is cut short
		ndReach("cut")
		ndAssume(split == 2 || !json)
		data, _ := ReadFile(file)
		ends = append(ends, len(data))
		at = bytePos("cut", len(data))
		WriteFile(file, data[:at])
	case 2, 3:
		ndAssert(s.Close() == nil, "closes")
		z := file + ".gz"
		data, there := ReadFile(z)
		ndAssert(there, "the compressed file is there")
		n := bytePos("at", len(data))
		if ndNative() && kind == 3 && n < 10 {
			n += 10 // not into the gzip header, which holds a date and the like
		}
		if kind == 2 {
			WriteFile(z, data[:n])
		} else {
			ndReach("changed")
			b := []byte(data)
			v := ndByte("value", 0, 255)
			ndAssume(v != b[n])
			b[n] = v
			WriteFile(z, string(b))
		}
		s = newStore(json)
		if err := s.Open(); err != nil {
			return
		}
	}
	seq, finish := s.Get([]string{cs[0].Hash, cs[1].Hash, cs[2].Hash})
	got := slices.Collect(seq)
	err := finish()
	for i := range got {
		n := 0
		for n < 3 && !sameCommit(got[i], cs[n]) {
			n++
		}
		ndAssert(n < 3, "what comes back from before the damage is what was stored")
		for j := 0; j < i; j++ {
			ndAssert(got[j].Hash != got[i].Hash, "no commit comes back twice")
		}
	}
	if len(got) > 0 {
		ndReach("yielded")
	}
	ndObserve(i2s(b2i(err == nil)) + i2s(len(got)))
	if err == nil {
		// only a file that ends where a batch ends cannot be told from one with fewer
		whole := false
		for _, e := range ends {
			whole = whole || at == e || json && at == e-1
		}
		ndAssert(kind == 1 && whole, "the damage is reported")
	}
}

// bytePos is a position in something of size n.
func bytePos(name string, n int) int {
	i := ndChoice(name, cutMax)
	if ndNative() {
		return i % n
	}
	ndAssert(n <= cutMax, "bound")
	ndAssume(i < n)
	return i
}
