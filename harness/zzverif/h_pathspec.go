package zzverif

import (
	"strings"

	"github.com/sinclairtarget/git-who/internal/git"
)

// h: property=C16 quick=150 thorough=300 reach=match,below,wild,no bound="every path of 1 to 5 bytes (thorough 6) and every pattern of 1 to 4 bytes (thorough 5) over the letters a, b, dot, slash, * and ? (patterns with * or ? neither ending in a slash nor with **)"
func H_pathspec() {
	np, ns := 5, 4
	if ndDeep() {
		np, ns = 6, 5
	}
	path := symPath("path", 1+ndChoice("plen", np), false)
	spec := symPath("spec", 1+ndChoice("slen", ns), true)
	if strings.ContainsAny(spec, "*?") {
		ndAssume(spec[len(spec)-1] != '/' && !strings.Contains(spec, "**"))
	}
	got := git.PathspecMatch(spec, path)
	want := specMatch(spec, path)
	if want != compMatch(spec, path) {
		ndKnown("wildcard-slash")
	}
	ndAssert(got == want, "path selected as by git")
	switch {
	case want && spec == path:
		ndReach("match")
	case want && strings.ContainsAny(spec, "*?"):
		ndReach("wild")
	case want:
		ndReach("below")
	default:
		ndReach("no")
	}
}
