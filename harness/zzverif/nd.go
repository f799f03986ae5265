// Package zzverif holds verification harnesses. It exists only in an overlay.
package zzverif

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

// ---- nondeterminism API -----------------------------------------------------
// The symbolic engine replaces every nd* function; the bodies below replay one
// concrete assignment natively.

var (
	inputs         = map[string]int64{}
	inSeen         = map[string]int{}
	registry       = map[string]func(){}
	natNow   int64 = 1700000000
	natProcs int
)

func natIn(name string, def int64) int64 {
	inSeen[name]++
	if n := inSeen[name]; n > 1 {
		name = name + "#" + strconv.Itoa(n)
	}
	if v, ok := inputs[name]; ok {
		return v
	}
	return def
}

func ndInt(name string, lo, hi int) int    { return int(natIn(name, int64(lo))) }
func ndByte(name string, lo, hi byte) byte { return byte(natIn(name, int64(lo))) }
func ndBool(name string) bool              { return natIn(name, 0) != 0 }
func ndChoice(name string, n int) int {
	if n <= 1 {
		return int(natIn(name, 0))
	}
	return int(natIn(name, 0))
}
func ndConc(n int) int          { return n }
func ndConcStr(s string) string { return s }
func ndAssume(c bool) {
	if !c {
		fmt.Println("ZZASSUME violated")
		cleanScratch()
		os.Exit(4)
	}
}
func ndAssert(c bool, msg string) {
	if !c {
		fmt.Printf("ZZFAIL %s\n", msg)
		cleanScratch()
		os.Exit(3)
	}
}
func ndReach(tag string) {}
func ndDeep() bool       { return os.Getenv("ZZVERIF_TIER") == "thorough" }
func ndNative() bool     { return true }

// ndMapOrder lets dev loops of the program over maps with up to n entries run
// in any order, the others in the order of insertion or the reverse of it.
func ndMapOrder(n, dev int, rev bool) {}

func ndSchedule(n int) {}

// ndStalls lets a goroutine that is preempted also wait until no other can run.
func ndStalls(on bool) {}

// ndYield is a point where another goroutine may run first.
func ndYield() {}

// ndRaces looks for data races from here on (in the model only).
func ndRaces(on bool)    {}
func ndProcs(n int)      { natProcs = n }
func ndNow(sec int64)    { natNow = sec }
func ndSteps(n int)      {}
func ndModelOnly()       {}
func ndKnown(id string)  {}
func ndObserve(s string) { fmt.Printf("ZZOBS %s\n", strconv.Quote(s)) }
func ndTrace(s string)   {}

// ndSpawn and ndSwitch: other processes (engine only).
func ndSpawn(f func()) int { panic("native ndSpawn") }
func ndSwitch(to int)      { panic("native ndSwitch") }

// ndCatch runs f as a process would: 0 returned, 1 exited with code, 2 panicked.
func ndCatch(f func()) (kind, code int, msg string) { panic("native ndCatch") }

func ndEncode(v any) []byte                  { panic("native") }
func ndDecode(b []byte, p any) (int, string) { panic("native") }
func ndJSON(on bool)                         {}
func ndTypeName(v any) string                { return fmt.Sprintf("%T", v) }
func ndTZData(name string) []byte {
	b, _ := os.ReadFile("/usr/share/zoneinfo/" + name)
	return b
}

// ndStr is a string of exactly n symbolic bytes in [lo,hi].
func ndStr(name string, n int, lo, hi byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ndByte(name+"."+strconv.Itoa(i), lo, hi)
	}
	return string(b)
}

// ndPick chooses one of the given strings.
func ndPick(name string, ss ...string) string { return ss[ndChoice(name, len(ss))] }

// Native runs one harness with the inputs named in the environment.
func Native() {
	if f := os.Getenv("ZZVERIF_INPUTS"); f != "" {
		b, err := os.ReadFile(f)
		if err == nil {
			json.Unmarshal(b, &inputs)
		}
	}
	h := registry[os.Getenv("ZZVERIF_HARNESS")]
	if h == nil {
		fmt.Println("ZZFAIL no such harness")
		os.Exit(5)
	}
	h()
	cleanScratch()
	fmt.Println("ZZDONE")
	os.Exit(0)
}

func cleanScratch() {}
