package zzverif

import (
	"path"
	"regexp"
	"slices"
	"strconv"
	"strings"
)

// World is the repository a run sees, and how git behaves.
type World struct {
	Root    string
	Cwd     string // directory of the process, "" for Root
	Link    string // symlink to Root through which the process got there, if any
	Commits []Cm   // oldest first
	Head    string // "" for the last commit
	Index   []string
	Mailmap string // value of git config mailmap.file
	Faults  []Fault
	Refs    map[string]string // branch name -> hash
	Paths   []string          // paths that exist on disk (rev-parse accepts them)
	All     bool              // every earlier commit is reachable, whatever the parents say
	NoGit   bool              // git is not installed
	Chunk   []int             // successive read sizes of git's stdout; the last one repeats

	idx  map[string]int // hash and short hash -> index
	idxN int
	idxH string

	literal bool // pathspecs are not patterns
}

func (w *World) index() map[string]int {
	last := ""
	if n := len(w.Commits); n > 0 {
		last = w.Commits[n-1].Hash
	}
	if w.idx == nil || w.idxN != len(w.Commits) || w.idxH != last {
		w.idx, w.idxN, w.idxH = map[string]int{}, len(w.Commits), last
		for i := range w.Commits {
			c := &w.Commits[i]
			w.idx[c.Hash] = i
			if c.Short != "" {
				w.idx[c.Short] = i
			}
		}
	}
	return w.idx
}

// Cm is one commit. Dates are decimal epoch seconds.
type Cm struct {
	Hash, Short, Parents string
	Name, Email          string
	MName, MEmail        string // as rewritten by the mailmap; empty means unchanged
	Date                 string
	Diffs                []Df
}

type Df struct {
	Add, Del string
	Old      string // non-empty for renames
	Path     string
	Len      string // for renames: lines of the old file, where it matters
}

// Fault makes a git invocation fail.
type Fault struct {
	Cmd   string // subcommand
	Match string // applies when argv or stdin contains this text
	Code  int    // -1 when killed by a signal
	Keep  int    // bytes of output kept; -1 all
	Msg   string
}

// Call records one git invocation.
type Call struct {
	Args  []string
	Stdin string
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// gitKind is the subcommand; a log that lists nothing but hashes counts as rev-list.
func gitKind(args []string) string {
	for len(args) > 1 && strings.HasPrefix(args[0], "-") {
		if args[0] == "-c" || args[0] == "-C" {
			args = args[1:]
		}
		args = args[1:]
	}
	if len(args) == 0 {
		return ""
	}
	if args[0] == "log" {
		for _, a := range args {
			if (strings.HasPrefix(a, "--pretty=") || strings.HasPrefix(a, "--format=")) && strings.HasSuffix(a, "%H") {
				return "rev-list"
			}
		}
	}
	return args[0]
}

// gitExec is a model of the git commands git-who relies on.
// It runs in directory dir.
func gitExec(w *World, dir string, args []string, stdin string) (out string, errs string, code int) {
	out, errs, code = gitExec0(w.in(dir), args, stdin)
	for _, f := range w.Faults {
		if gitKind(args) == f.Cmd {
			if f.Match == "" || strings.Contains(stdin, f.Match) || containsSub(args, f.Match) {
				if f.Keep >= 0 && f.Keep < len(out) {
					out = out[:f.Keep]
				}
				return out, f.Msg, f.Code
			}
		}
	}
	return
}

// in is the world as seen from a directory.
func (w *World) in(dir string) *World {
	if dir == w.Cwd || w.Cwd == "" && dir == w.Root {
		return w
	}
	v := *w
	v.Cwd = dir
	return &v
}

// quoteSpecs keeps the pathspecs after "--" from being patterns.
func quoteSpecs(args []string) []string {
	var out []string
	dash := false
	for _, a := range args {
		if dash {
			q := ""
			for i := 0; i < len(a); i++ {
				if strings.IndexByte("*?[\\", a[i]) >= 0 {
					q += "\\"
				}
				q += a[i : i+1]
			}
			if strings.HasPrefix(a, ":") {
				q = "\\" + q
			}
			a = q
		}
		dash = dash || a == "--"
		out = append(out, a)
	}
	return out
}

func containsSub(ss []string, m string) bool {
	for _, s := range ss {
		if strings.Contains(s, m) {
			return true
		}
	}
	return false
}

func usage(msg string) (string, string, int) { return "", "fatal: " + msg + "\n", 128 }

func gitExec0(w *World, args []string, stdin string) (string, string, int) {
	// global options
	for len(args) > 0 && strings.HasPrefix(args[0], "-") {
		switch {
		case args[0] == "-c" || args[0] == "-C":
			if len(args) < 2 {
				return usage("bad option")
			}
			if args[0] == "-C" && args[1] != "" {
				d := w.Cwd
				if d == "" {
					d = w.Root
				}
				if args[1][0] == '/' {
					d = args[1]
					if w.Link != "" && (d == w.Link || strings.HasPrefix(d, w.Link+"/")) {
						d = w.Root + d[len(w.Link):]
					}
				} else {
					d += "/" + args[1]
				}
				w = w.in(path.Clean(d))
			}
			args = args[2:]
		case args[0] == "--no-pager":
			args = args[1:]
		case args[0] == "--literal-pathspecs":
			v := *w
			v.literal = true
			w = &v
			args = args[1:]
		default:
			return usage("unknown option: " + args[0])
		}
	}
	if len(args) == 0 {
		return usage("no command")
	}
	if w.Cwd != "" && w.Cwd != w.Root && !strings.HasPrefix(w.Cwd, w.Root+"/") {
		if args[0] == "config" {
			return "", "", 1
		}
		return usage("not a git repository (or any of the parent directories): .git")
	}
	if w.literal {
		args = quoteSpecs(args)
	}
	switch args[0] {
	case "log":
		return gitLog(w, args[1:], stdin, false)
	case "rev-list":
		return gitLog(w, args[1:], stdin, true)
	case "rev-parse":
		return gitRevParse(w, args[1:])
	case "ls-files":
		return gitLsFiles(w, args[1:])
	case "config":
		for _, a := range args[1:] {
			if a == "mailmap.file" {
				if w.Mailmap == "" {
					return "", "", 1
				}
				return w.Mailmap + "\n", "", 0
			}
		}
		return "", "", 1
	}
	return usage("'" + args[0] + "' is not a git command")
}

func isHex40(s string) bool {
	if len(s) != 40 {
		return false
	}
	for i := 0; i < 40; i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f') {
			return false
		}
	}
	return true
}

func (w *World) find(hash string) int {
	if i, ok := w.index()[hash]; ok {
		return i
	}
	return -1
}

func (w *World) head() string {
	if w.Head != "" {
		return w.Head
	}
	if len(w.Commits) == 0 {
		return ""
	}
	return w.Commits[len(w.Commits)-1].Hash
}

// resolve maps a revision name to a full hash.
func (w *World) resolve(r string) (string, bool) {
	if r == "HEAD" {
		h := w.head()
		return h, h != ""
	}
	if h, ok := w.Refs[r]; ok {
		return h, true
	}
	if i, ok := w.index()[r]; ok {
		return w.Commits[i].Hash, true
	}
	return "", false
}

func gitRevParse(w *World, args []string) (string, string, int) {
	if contains(args, "--show-toplevel") {
		return w.Root + "\n", "", 0
	}
	if contains(args, "--git-dir") || contains(args, "--absolute-git-dir") {
		return w.Root + "/.git\n", "", 0
	}
	if contains(args, "--show-prefix") {
		return w.prefix() + "\n", "", 0
	}
	out := ""
	noFlags := false
	asPath := false
	dash := contains(args, "--")
	for _, a := range args {
		if asPath {
			out += a + "\n"
			if !dash && !w.pathArg(a) {
				return out, "fatal: " + a + ": no such path in the working tree.\n", 128
			}
			continue
		}
		switch {
		case a == "--no-flags":
			noFlags = true
			continue
		case a == "--":
			asPath = true
			out += "--\n"
			continue
		case strings.HasPrefix(a, "-"):
			if !noFlags {
				out += a + "\n"
			}
			continue
		}
		if i := strings.Index(a, ".."); i >= 0 && a != ".." {
			l, r := a[:i], a[i+2:]
			if l == "" {
				l = "HEAD"
			}
			if r == "" {
				r = "HEAD"
			}
			lh, ok1 := w.resolve(l)
			rh, ok2 := w.resolve(r)
			if ok1 && ok2 {
				out += rh + "\n^" + lh + "\n"
				continue
			}
		}
		if strings.HasPrefix(a, "^") {
			if h, ok := w.resolve(a[1:]); ok {
				out += "^" + h + "\n"
				continue
			}
		}
		if h, ok := w.resolve(a); ok {
			out += h + "\n"
			continue
		}
		if dash {
			return out, "fatal: bad revision '" + a + "'\n", 128
		}
		ok := w.pathArg(a)
		if !ok {
			return out + a + "\n", "fatal: ambiguous argument '" + a + "': unknown revision or path not in the working tree.\n", 128
		}
		// everything from here on is a path
		asPath = true
		out += a + "\n"
	}
	return out, "", 0
}

// pathArg tells whether git takes a for a path where it could be a revision too.
func (w *World) pathArg(a string) bool {
	for i := 0; i < len(a); i++ { // patterns need match nothing
		if a[i] == '\\' {
			i++
		} else if strings.IndexByte("*?[", a[i]) >= 0 {
			return true
		}
	}
	switch {
	case a == "" || strings.HasPrefix(a, ":("):
		return a != ""
	case strings.HasPrefix(a, ":!") || strings.HasPrefix(a, ":^"):
		if a = a[2:]; a == "" {
			return true
		}
	case strings.HasPrefix(a, ":/"):
		if a = a[2:]; a == "" {
			return true
		}
	}
	c := path.Clean(a)
	if c == "." || c == ".." {
		return true
	}
	for _, p := range w.Paths {
		if p == c && !strings.HasSuffix(a, "/") || strings.HasPrefix(p, c+"/") {
			return true
		}
	}
	return false
}

// globMatch is git's wildmatch without WM_PATHNAME: '*' also crosses '/'.
func globMatch(p, s string) bool {
	if p == "" {
		return s == ""
	}
	switch p[0] {
	case '*':
		for len(p) > 0 && p[0] == '*' {
			p = p[1:]
		}
		for i := 0; i <= len(s); i++ {
			if globMatch(p, s[i:]) {
				return true
			}
		}
		return false
	case '?':
		return s != "" && globMatch(p[1:], s[1:])
	case '\\':
		if len(p) > 1 {
			p = p[1:]
		}
	}
	return s != "" && s[0] == p[0] && globMatch(p[1:], s[1:])
}

// specMatch is git's pathspec matching for one stripped pattern.
func specMatch(spec, path string) bool {
	if spec == "." || spec == "" {
		return true
	}
	s := spec
	for len(s) > 0 && s[len(s)-1] == '/' {
		s = s[:len(s)-1]
	}
	if len(s) == len(spec) && path == s {
		return true
	}
	if strings.HasPrefix(path, s+"/") {
		return true
	}
	if strings.ContainsAny(spec, "*?\\") {
		return globMatch(spec, path)
	}
	return false
}

// splitSpec strips exclude magic.
func splitSpec(p string) (pat string, exclude bool) {
	switch {
	case strings.HasPrefix(p, ":(exclude)"):
		return p[len(":(exclude)"):], true
	case strings.HasPrefix(p, ":!:") || strings.HasPrefix(p, ":^:"):
		return p[3:], true
	case strings.HasPrefix(p, ":!") || strings.HasPrefix(p, ":^"):
		return p[2:], true
	}
	return p, false
}

// prefix is the working directory relative to the root, "" or ending in '/'.
func (w *World) prefix() string {
	if w.Cwd == "" || w.Cwd == w.Root {
		return ""
	}
	return strings.TrimPrefix(w.Cwd, w.Root+"/") + "/"
}

// under resolves a pathspec given in directory pre.
func under(pre, spec string) string {
	r := path.Clean(pre + spec)
	if r == "." {
		return ""
	}
	if strings.HasSuffix(spec, "/") {
		r += "/"
	}
	return r
}

// outside returns a pathspec that is not below the root, or "".
func outside(pre string, specs []string) string {
	for _, p := range specs {
		if p, _ = splitSpec(p); strings.HasPrefix(under(pre, p)+"/", "../") {
			return p
		}
	}
	return ""
}

func specsMatch(pre string, specs []string, path string) bool {
	inc, anyInc := false, false
	for _, s := range specs {
		p, ex := splitSpec(s)
		p = under(pre, p)
		if ex {
			if specMatch(p, path) {
				return false
			}
			continue
		}
		anyInc = true
		if specMatch(p, path) {
			inc = true
		}
	}
	return inc || !anyInc
}

func gitLsFiles(w *World, args []string) (string, string, int) {
	z := false
	var specs []string
	dash := false
	for _, a := range args {
		if !dash {
			switch {
			case a == "--":
				dash = true
				continue
			case a == "-z":
				z = true
				continue
			case a == "--exclude-standard" || a == "--cached" || a == "-c":
				continue
			case strings.HasPrefix(a, "-"):
				return "", "error: unknown switch `" + strings.TrimLeft(a, "-") + "'\n", 129
			}
		}
		specs = append(specs, a)
	}
	sep := "\n"
	if z {
		sep = "\x00"
	}
	out := ""
	pre := w.prefix()
	if p := outside(pre, specs); p != "" {
		return usage(p + ": '" + p + "' is outside repository")
	}
	inc := false // any but exclusions
	for _, p := range specs {
		_, ex := splitSpec(p)
		inc = inc || !ex
	}
	for _, p := range w.Index {
		if !inc && !strings.HasPrefix(p, pre) || len(specs) > 0 && !specsMatch(pre, specs, p) {
			continue
		}
		// paths are shown relative to the working directory
		up, q := "", pre
		for !strings.HasPrefix(p, q) {
			q = q[:strings.LastIndexByte(q[:len(q)-1], '/')+1]
			up += "../"
		}
		name := up + p[len(q):]
		if !z {
			name = quoted(name)
		}
		out += name + sep
	}
	return out, "", 0
}

type logOpts struct {
	format         string
	term           bool // records are terminated, not separated
	z, numstat     bool
	reverse, stdin bool
	noWalk, noMail bool
	since, until   string
	authors        []string
	perl           bool
	revs, specs    []string
	dateUnix       bool
	count          bool
	noMerges       bool
	noRenames      bool
	bottom         []int  // commits excluded by name
	all            bool   // merges under pathspecs are not modelled
	pre            string // directory pathspecs are relative to
}

func gitLog(w *World, args []string, stdin string, list bool) (string, string, int) {
	o := logOpts{pre: w.prefix(), noMail: list} // rev-list compares recorded identities
	dash := false
	for i := 0; i < len(args); i++ {
		a := args[i]
		if dash {
			o.specs = append(o.specs, a)
			continue
		}
		val := func(name string) (string, bool) {
			if strings.HasPrefix(a, name+"=") {
				return a[len(name)+1:], true
			}
			if a == name && i+1 < len(args) {
				i++
				return args[i], true
			}
			return "", false
		}
		if !strings.HasPrefix(a, "-") {
			o.revs = append(o.revs, a)
			if !contains(args[i:], "--") && contains(w.Paths, a) {
				return "", "fatal: ambiguous argument '" + a + "': both revision and filename\n", 128
			}
			continue
		}
		switch {
		case a == "--":
			dash = true
			continue
		case a == "-z":
			o.z = true
			continue
		case a == "--numstat":
			o.numstat = true
			continue
		case a == "--reverse":
			o.reverse = true
			continue
		case a == "--no-show-signature" || a == "-M" || a == "--find-renames" || a == "--no-decorate" || a == "--decorate=no" || a == "--color=never" || a == "--no-ext-diff" || a == "--no-relative" || a == "--root" || a == "--topo-order" || a == "--no-color" || a == "--date-order" || a == "--no-notes" || a == "--mailmap" || a == "--use-mailmap":
			continue
		case a == "--stdin":
			o.stdin = true
			continue
		case a == "--no-walk" || a == "--no-walk=sorted" || a == "--no-walk=unsorted":
			o.noWalk = true
			continue
		case a == "--no-mailmap" || a == "--no-use-mailmap":
			o.noMail = true
			continue
		case a == "--perl-regexp" || a == "-P":
			o.perl = true
			continue
		case a == "--count":
			o.count = true
			continue
		case a == "--no-merges" || a == "--max-parents=1":
			o.noMerges = true
			continue
		case a == "--no-renames":
			o.noRenames = true
			continue
		}
		if v, ok := val("--pretty"); ok {
			o.format = v
			o.term = !strings.HasPrefix(v, "format:")
			continue
		}
		if v, ok := val("--format"); ok {
			o.format = v
			o.term = !strings.HasPrefix(v, "format:")
			continue
		}
		if v, ok := val("--date"); ok {
			o.dateUnix = v == "unix"
			continue
		}
		if v, ok := val("--since"); ok {
			o.since = v
			continue
		}
		if v, ok := val("--after"); ok {
			o.since = v
			continue
		}
		if v, ok := val("--until"); ok {
			o.until = v
			continue
		}
		if v, ok := val("--before"); ok {
			o.until = v
			continue
		}
		if v, ok := val("--author"); ok {
			o.authors = append(o.authors, v)
			continue
		}
		return "", "fatal: unrecognized argument: " + a + "\n", 128
	}
	if o.stdin {
		for _, l := range strings.Split(stdin, "\n") {
			if l == "" {
				continue
			}
			if l == "--" {
				break
			}
			o.revs = append(o.revs, l)
		}
	}
	if len(o.revs) == 0 && !o.stdin {
		if list {
			return "", "usage: git rev-list [<options>] <commit>... [--] [<path>...]\n", 129
		}
		o.revs = []string{"HEAD"}
	}
	if p := outside(o.pre, o.specs); p != "" {
		return usage(p + ": '" + p + "' is outside repository")
	}
	// selection
	sel := make([]bool, len(w.Commits))
	for _, r := range o.revs {
		neg := strings.HasPrefix(r, "^")
		name := r
		if neg {
			name = r[1:]
		}
		h, ok := w.resolve(name)
		if !ok {
			return "", "fatal: bad revision '" + r + "'\n", 128
		}
		i := w.find(h)
		if neg {
			continue
		}
		if o.noWalk {
			sel[i] = true
			if ps := strings.Split(w.Commits[i].Parents, " "); len(ps) > 1 && len(o.specs) > 0 && !w.All {
				_, sel[i] = o.mergeParents(w, i, ps, make([]bool, len(w.Commits)))
			}
			continue
		}
		w.walk(i, sel)
	}
	if !o.noWalk {
		ex := make([]bool, len(w.Commits))
		for _, r := range o.revs {
			if strings.HasPrefix(r, "^") {
				h, _ := w.resolve(r[1:])
				w.walk(w.find(h), ex)
			}
		}
		if len(o.specs) > 0 && !w.All {
			for _, r := range o.revs {
				if strings.HasPrefix(r, "^") {
					h, _ := w.resolve(r[1:])
					o.bottom = append(o.bottom, w.find(h))
				}
			}
			o.simplify(w, sel, ex)
		}
		for i := range sel {
			sel[i] = sel[i] && !ex[i]
		}
	}
	o.all = w.All
	var recs []string
	for k := range w.Commits {
		i := k
		if !o.reverse {
			i = len(w.Commits) - 1 - k
		}
		if !sel[i] {
			continue
		}
		c := &w.Commits[i]
		if !o.keep(c) {
			continue
		}
		if list && o.format == "" {
			recs = append(recs, c.Hash)
			continue
		}
		recs = append(recs, o.render(c))
	}
	if o.count {
		return strconv.Itoa(len(recs)) + "\n", "", 0
	}
	if list {
		out := ""
		for _, r := range recs {
			out += r + "\n"
		}
		return out, "", 0
	}
	sep := "\n"
	if o.z {
		sep = "\x00"
	}
	var b strings.Builder
	for i, r := range recs {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(r)
	}
	if o.term && len(recs) > 0 {
		b.WriteString(sep)
	}
	return b.String(), "", 0
}

func (w *World) walk(i int, sel []bool) {
	if w.All {
		for k := 0; k <= i; k++ {
			sel[k] = true
		}
		return
	}
	todo := []int{i}
	for len(todo) > 0 {
		i := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if i < 0 || sel[i] {
			continue
		}
		sel[i] = true
		if w.Commits[i].Parents == "" {
			continue
		}
		for _, p := range strings.Split(w.Commits[i].Parents, " ") {
			todo = append(todo, w.find(p))
		}
	}
}

// simplify leaves the commits that git's history simplification keeps under the
// pathspecs: a merge that changes nothing against one parent is replaced by it.
func (o *logOpts) simplify(w *World, sel, ex []bool) {
	merges := false
	for i := range w.Commits {
		merges = merges || strings.Contains(w.Commits[i].Parents, " ")
	}
	if !merges {
		return
	}
	tips := make([]bool, len(sel))
	for _, r := range o.revs {
		if !strings.HasPrefix(r, "^") {
			h, _ := w.resolve(r)
			tips[w.find(h)] = true
		}
	}
	for i := range sel {
		sel[i] = false
	}
	for i := len(sel) - 1; i >= 0; i-- { // parents come before their children
		if !tips[i] || ex[i] {
			continue
		}
		sel[i] = true
		c := &w.Commits[i]
		if c.Parents == "" {
			continue
		}
		ps := strings.Split(c.Parents, " ")
		if len(ps) == 1 {
			tips[w.find(ps[0])] = true
			continue
		}
		ps, sel[i] = o.mergeParents(w, i, ps, ex)
		for _, p := range ps {
			tips[w.find(p)] = true
		}
	}
}

// mergeParents is which parents of a merge git follows under the pathspecs, and
// whether it shows the merge.
func (o *logOpts) mergeParents(w *World, i int, ps []string, ex []bool) ([]string, bool) {
	all := make([]bool, len(ex))
	w.walk(i, all)
	relevant, change, other := 0, false, false
	for k, p := range ps {
		pi := w.find(p)
		had := make([]bool, len(ex))
		w.walk(pi, had)
		same := true
		for j := range all {
			if all[j] && !had[j] && len(o.diffsFor(&w.Commits[j])) > 0 {
				same = false
			}
		}
		if !ex[pi] || slices.Contains(o.bottom, pi) {
			if same {
				return ps[k : k+1], false
			}
			relevant++
			change = true
		} else if !same {
			other = true
		}
	}
	return ps, change || relevant == 0 && other
}

// diffsFor lists the numstat entries of c under the pathspecs.
func (o *logOpts) diffsFor(c *Cm) []Df {
	if len(o.specs) == 0 && !o.noRenames {
		return c.Diffs
	}
	in := func(path string) bool { return len(o.specs) == 0 || specsMatch(o.pre, o.specs, path) }
	var ds []Df
	split := false
	for _, d := range c.Diffs {
		is := in(d.Path)
		if d.Old == "" {
			if is {
				ds = append(ds, d)
			}
			continue
		}
		was := in(d.Old)
		if is && was && !o.noRenames {
			ds = append(ds, d)
			continue
		}
		// one side is outside the limit: the other is shown as added or deleted
		if is {
			e := d
			e.Old = ""
			if d.Len != "" {
				e.Add, e.Del = grown(d), "0"
				if d.Len == "-" {
					e.Del = "-"
				}
			}
			ds = append(ds, e)
		}
		if was {
			e := Df{Add: "0", Del: d.Len, Path: d.Old}
			if d.Len == "" {
				e.Del = "1"
			} else if d.Len == "-" {
				e.Add = "-"
			}
			ds = append(ds, e)
		}
		split = split || was
	}
	for i := 1; split && i < len(ds); i++ {
		for k := i; k > 0 && ds[k].Path < ds[k-1].Path; k-- {
			ds[k], ds[k-1] = ds[k-1], ds[k]
		}
	}
	return ds
}

// grown is the number of lines of the file after the rename.
func grown(d Df) string {
	if d.Len == "-" {
		return "-"
	}
	return strconv.Itoa(atoi(d.Len) + atoi(d.Add) - atoi(d.Del))
}

// quoted is how git shows a path where names are not ended by a null byte.
func quoted(p string) string {
	plain := true
	for i := 0; i < len(p); i++ {
		if c := p[i]; c < 32 || c == '"' || c == '\\' || c > 126 {
			plain = false
		}
	}
	if plain {
		return p
	}
	out := "\""
	for i := 0; i < len(p); i++ {
		switch c := p[i]; {
		case c == '"' || c == '\\':
			out += "\\" + string(rune(c))
		case c == '\t':
			out += "\\t"
		case c == '\n':
			out += "\\n"
		case c < 32 || c > 126:
			out += "\\" + string(rune('0'+c>>6)) + string(rune('0'+c>>3&7)) + string(rune('0'+c&7))
		default:
			out += string(rune(c))
		}
	}
	return out + "\""
}

func (o *logOpts) keep(c *Cm) bool {
	merge := strings.Contains(c.Parents, " ")
	if merge && o.noMerges {
		return false
	}
	if len(o.specs) > 0 && len(o.diffsFor(c)) == 0 && (!merge || o.all) {
		return false
	}
	if o.since != "" || o.until != "" {
		d, err := strconv.Atoi(c.Date)
		if err != nil {
			return false
		}
		if o.since != "" {
			if s, ok := epoch(o.since); ok && d < s {
				return false
			}
		}
		if o.until != "" {
			if s, ok := epoch(o.until); ok && d > s {
				return false
			}
		}
	}
	if len(o.authors) == 0 {
		return true
	}
	// git greps the (mailmapped) author line; several --author options are ORed
	line := o.name(c) + " <" + o.email(c) + ">"
	for _, a := range o.authors {
		if authorMatch(a, line, o.perl) {
			return true
		}
	}
	return false
}

func epoch(s string) (int, bool) {
	s = strings.TrimPrefix(s, "@")
	n, err := strconv.Atoi(s)
	return n, err == nil
}

// authorMatch evaluates the regular expressions git-who builds. Negative
// lookaheads are evaluated structurally.
func authorMatch(pat, line string, perl bool) bool {
	if perl && strings.Contains(pat, "(?!") || strings.Contains(pat, "(?=") {
		return perlMatch(pat, line)
	}
	return regexp.MustCompile(pat).MatchString(line)
}

// perlMatch handles ^ ( (?!X) (?=Y) ... .* ) $ : a sequence of lookaheads anchored at the start.
func perlMatch(pat, line string) bool {
	p := pat
	if !strings.HasPrefix(p, "^") {
		panic("ZZ unsupported author pattern " + pat)
	}
	p = p[1:]
	p = strings.TrimSuffix(p, "$")
	for strings.HasPrefix(p, "((?") {
		p = p[1 : len(p)-1]
	}
	for strings.HasPrefix(p, "(?!") || strings.HasPrefix(p, "(?=") {
		neg := p[2] == '!'
		d, j := 0, 0
		for j = 0; j < len(p); j++ {
			if p[j] == '(' {
				d++
			} else if p[j] == ')' {
				d--
				if d == 0 {
					break
				}
			}
		}
		inner := p[3:j]
		p = p[j+1:]
		if regexp.MustCompile("^(?:"+inner+")").MatchString(line) == neg {
			return false
		}
	}
	if p != ".*" && p != "" {
		return regexp.MustCompile("^(?:" + p + ")$").MatchString(line)
	}
	return true
}

func (o *logOpts) name(c *Cm) string {
	if !o.noMail && c.MName != "" {
		return c.MName
	}
	return c.Name
}

func (o *logOpts) email(c *Cm) string {
	if !o.noMail && c.MEmail != "" {
		return c.MEmail
	}
	return c.Email
}

func mapped(m, raw string) string {
	if m != "" {
		return m
	}
	return raw
}

func (o *logOpts) render(c *Cm) string {
	f := o.format
	switch {
	case strings.HasPrefix(f, "format:"):
		f = f[len("format:"):]
	case strings.HasPrefix(f, "tformat:"):
		f = f[len("tformat:"):]
	}
	var b strings.Builder
	for i := 0; i < len(f); i++ {
		if f[i] != '%' || i+1 >= len(f) {
			b.WriteByte(f[i])
			continue
		}
		r := f[i+1:]
		switch {
		case strings.HasPrefix(r, "H"):
			b.WriteString(c.Hash)
			i++
		case strings.HasPrefix(r, "h"):
			b.WriteString(c.Short)
			i++
		case strings.HasPrefix(r, "p"), strings.HasPrefix(r, "P"):
			b.WriteString(c.Parents)
			i++
		case strings.HasPrefix(r, "an"):
			b.WriteString(c.Name)
			i += 2
		case strings.HasPrefix(r, "ae"):
			b.WriteString(c.Email)
			i += 2
		case strings.HasPrefix(r, "aN"):
			b.WriteString(mapped(c.MName, c.Name))
			i += 2
		case strings.HasPrefix(r, "aE"):
			b.WriteString(mapped(c.MEmail, c.Email))
			i += 2
		case strings.HasPrefix(r, "at"):
			b.WriteString(c.Date)
			i += 2
		case strings.HasPrefix(r, "ad"):
			if o.dateUnix {
				b.WriteString(c.Date)
			} else {
				b.WriteString("Thu Jan 1 00:00:00 1970 +0000")
			}
			i += 2
		case strings.HasPrefix(r, "x00"):
			b.WriteByte(0)
			i += 3
		case strings.HasPrefix(r, "n"):
			b.WriteByte('\n')
			i++
		case strings.HasPrefix(r, "%"):
			b.WriteByte('%')
			i++
		default:
			b.WriteByte('%')
		}
	}
	if o.numstat {
		ds := o.diffsFor(c)
		if len(ds) > 0 {
			b.WriteByte('\n')
			for _, d := range ds {
				b.WriteString(d.Add)
				b.WriteByte('\t')
				b.WriteString(d.Del)
				b.WriteByte('\t')
				if d.Old != "" {
					if o.z {
						b.WriteByte(0)
						b.WriteString(d.Old)
						b.WriteByte(0)
					} else {
						b.WriteString(quoted(d.Old) + " => ")
					}
				}
				if o.z {
					b.WriteString(d.Path)
					b.WriteByte(0)
				} else {
					b.WriteString(quoted(d.Path) + "\n")
				}
			}
		}
	}
	return b.String()
}
