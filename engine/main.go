package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HarnessInfo struct {
	Name     string
	Property string
	Quick    float64
	Thorough float64
	Reach    []string
	Bound    string
	Stubs    string
	Files    string
	fn       *ssa.Function
}

var repoDir = "/repo"
var verifDir = "/verif"

func parseHarness(name, text string) *HarnessInfo {
	h := &HarnessInfo{Name: name, Quick: 20, Thorough: 200}
	re := regexp.MustCompile(`(\w+)=("[^"]*"|\S+)`)
	for _, kv := range re.FindAllStringSubmatch(text, -1) {
		v := strings.Trim(kv[2], `"`)
		switch kv[1] {
		case "property":
			h.Property = v
		case "quick":
			h.Quick, _ = strconv.ParseFloat(v, 64)
		case "thorough":
			h.Thorough, _ = strconv.ParseFloat(v, 64)
		case "reach":
			h.Reach = strings.Split(v, ",")
		case "bound":
			h.Bound = v
		}
	}
	return h
}

func (p *Program) harnesses(docs map[string]*ast.FuncDecl) []*HarnessInfo {
	var hs []*HarnessInfo
	for n, fd := range docs {
		for _, c := range fd.Doc.List {
			if s, ok := directive(c.Text, "h:"); ok {
				h := parseHarness(n, s)
				h.fn = p.harness.Func(n)
				hs = append(hs, h)
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	return hs
}

// ---- native replay ----------------------------------------------------------

type native struct {
	p    *Program
	dir  string
	bin  string
	err  error
	done bool
}

func (n *native) build() error {
	if n.done {
		return n.err
	}
	n.done = true
	n.dir, n.err = os.MkdirTemp("", "gosym-native")
	if n.err != nil {
		return n.err
	}
	rep := map[string]string{}
	i := 0
	for path, b := range nativeClock(repoDir, n.p.overlay) {
		f := filepath.Join(n.dir, fmt.Sprintf("ov%d.go", i))
		i++
		os.WriteFile(f, b, 0o644)
		rep[path] = f
	}
	// files dropped from the harness stay out of the native build too
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(n.dir, "overlay.json")
	os.WriteFile(ov, j, 0o644)
	n.bin = filepath.Join(n.dir, "git-who")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", n.bin, ".")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, out)
	}
	return n.err
}

func (n *native) clean() {
	if n.dir != "" && strings.Contains(n.dir, "gosym-native") {
		os.RemoveAll(n.dir)
	}
}

type nativeResult struct {
	failed  bool
	timeout bool
	out     string
	obs     []string
	assume  bool
}

// run executes a harness natively with concrete inputs.
func (n *native) run(h string, inputs map[string]int64, tier string, procs int, timeout time.Duration) nativeResult {
	if err := n.build(); err != nil {
		return nativeResult{out: err.Error()}
	}
	scratch, err := os.MkdirTemp("", "gosym-run")
	if err != nil {
		return nativeResult{out: err.Error()}
	}
	defer os.RemoveAll(scratch)
	f := filepath.Join(scratch, "inputs.json")
	b, _ := json.Marshal(inputs)
	os.WriteFile(f, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 12000000; exec \"$0\"", n.bin)
	cmd.Dir = scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 2 * time.Second
	cmd.Env = append(os.Environ(), "ZZVERIF_MODE=harness", "ZZVERIF_HARNESS="+h, "ZZVERIF_INPUTS="+f, "ZZVERIF_SCRATCH="+scratch,
		"ZZVERIF_TIER="+tier, "TZ=UTC", "LC_ALL=C", "LANG=C")
	if procs > 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("GOMAXPROCS=%d", procs))
	}
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err = cmd.Run()
	r := nativeResult{out: out.String()}
	for _, l := range strings.Split(r.out, "\n") {
		if s, ok := strings.CutPrefix(l, "ZZOBS "); ok {
			u, _ := strconv.Unquote(s)
			r.obs = append(r.obs, u)
		}
		if strings.HasPrefix(l, "ZZASSUME") {
			r.assume = true
		}
	}
	if ctx.Err() != nil {
		r.timeout = true
		return r
	}
	if r.assume {
		return r
	}
	r.failed = strings.Contains(r.out, "ZZFAIL ") || err != nil
	return r
}

// confirm replays a violation against the real code.
func (n *native) confirm(v *Violation, tier string, e *Explorer) (bool, string) {
	tries := 1
	if v.Sched && v.Kind != "race" {
		tries = 40
	}
	var last nativeResult
	for i := 0; i < tries; i++ {
		last = n.run(v.Harness, v.Inputs, tier, 0, 20*time.Second)
		if last.failed {
			return true, "native: " + tail(last.out, 1500)
		}
		if last.timeout {
			if v.Kind == "nontermination" || v.Kind == "deadlock" {
				return true, "native: did not terminate within 20s"
			}
			if i > 2 {
				break
			}
		}
	}
	if v.Sched {
		// the schedule (or map order) is part of the counterexample: replay it on
		// the interpreter of the same SSA with every choice fixed
		if e.replayDecs(v) {
			return true, "controlled schedule: reproduced by the interpreter under the recorded decisions; " + tail(last.out, 300)
		}
	}
	return false, tail(last.out, 800)
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// replayDecs re-executes one fully concrete run: inputs fixed, decisions fixed.
func (e *Explorer) replayDecs(v *Violation) bool {
	e2 := newExplorer(e.P, e.fn, 60*time.Second, e.tier)
	m := e.P.newMachine(0, e2)
	defer m.sol.Close()
	e2.stacks = [][]*pending{nil}
	model := map[string]uint64{}
	m.runPath(&pending{decs: v.Decs, model: model})
	for _, w := range e2.viol {
		if w.Kind == v.Kind {
			return true
		}
	}
	return false
}

// ---- known findings ---------------------------------------------------------

func knownFindings() map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' || strings.HasPrefix(l, "fixed:") {
			continue
		}
		// finding: property=Cnn id=name text
		if s, ok := strings.CutPrefix(l, "finding: "); ok {
			f := strings.SplitN(s, " ", 3)
			if len(f) == 3 {
				r[strings.TrimPrefix(f[1], "id=")] = strings.TrimPrefix(f[0], "property=") + " " + f[2]
			}
		}
	}
	return r
}

// ---- check ------------------------------------------------------------------

type HarnessReport struct {
	Name       string           `json:"harness"`
	Bound      string           `json:"bounds"`
	Paths      int64            `json:"paths"`
	Ended      map[string]int64 `json:"path_ends"`
	Blocks     int64            `json:"basic_blocks_executed"`
	Branches   int64            `json:"symbolic_branches"`
	Merges     int64            `json:"merged_regions"`
	Asserts    int64            `json:"assertions_decided"`
	AssertsC   int64            `json:"assertions_concrete_on_path"`
	Queries    int64            `json:"solver_queries"`
	Sat        int64            `json:"sat"`
	Unsat      int64            `json:"unsat"`
	Unknown    int64            `json:"unknown"`
	Certified  int              `json:"simplifications_certified_by_solver"`
	SolverS    float64          `json:"solver_seconds"`
	MaxQueryS  float64          `json:"longest_query_seconds"`
	Reached    map[string]int64 `json:"reachability_witnesses"`
	Missing    []string         `json:"witnesses_not_reached,omitempty"`
	Complete   bool             `json:"exhausted_within_bounds"`
	Incomplete map[string]int   `json:"incomplete_because,omitempty"`
	Notes      map[string]int   `json:"notes,omitempty"`
	Validated  int              `json:"paths_replayed_natively"`
	Diverged   []string         `json:"native_divergences,omitempty"`
	WallS      float64          `json:"wall_s"`
	Unconf     []*Violation     `json:"unconfirmed_counterexamples,omitempty"`
}

func main() {
	debug.SetGCPercent(1200)
	debug.SetMemoryLimit(10 << 30)
	if f := os.Getenv("GOSYM_HEAP"); f != "" {
		go func() {
			time.Sleep(12 * time.Second)
			w, _ := os.Create(f)
			pprof.WriteHeapProfile(w)
			w.Close()
		}()
	}
	cmd := "check"
	args := os.Args[1:]
	if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		cmd = args[0]
		args = args[1:]
	}
	fs := flag.NewFlagSet("gosym", flag.ExitOnError)
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", "", "quick or thorough")
	only := fs.String("harness", "", "only this harness")
	hdir := fs.String("hdir", "", "harness dir")
	workers := fs.Int("j", runtime.NumCPU(), "workers")
	secs := fs.Float64("secs", 0, "override time budget")
	prof := fs.String("cpuprofile", "", "profile")
	verbose := fs.Bool("v", false, "verbose")
	noNative := fs.Bool("nonative", false, "skip native replay")
	fs.StringVar(&repoDir, "repo", "/repo", "repository")
	fs.StringVar(&verifDir, "verif", "/verif", "verif dir")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	if *hdir == "" {
		*hdir = filepath.Join(verifDir, "harness")
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	p, err := Load(repoDir, *hdir)
	if err != nil {
		// a tree that does not load decides nothing
		fmt.Println("gosym: cannot load:", err)
		if cmd == "check" && *prop != "" {
			writeEvidence(*prop, *tier, nil, p, time.Since(t0), 0, []string{"the tree could not be encoded: " + err.Error()}, nil)
			os.Exit(0)
		}
		os.Exit(2)
	}
	switch cmd {
	case "list":
		for _, h := range p.hinfo {
			fmt.Println(h.Property, h.Name, h.Bound)
		}
		return
	case "replay":
		// gosym replay FILE
		os.Exit(replayFile(p, fs.Arg(0)))
	}
	var hs []*HarnessInfo
	for _, h := range p.hinfo {
		if (*prop == "" || h.Property == *prop) && (*only == "" || h.Name == *only) {
			hs = append(hs, h)
		}
	}
	known := knownFindings()
	nat := &native{p: p}
	defer nat.clean()
	var ms []*Machine
	for i := 0; i < *workers; i++ {
		ms = append(ms, p.newMachine(i, nil))
	}
	var reps []*HarnessReport
	fns := map[string]bool{}
	exit := 0
	nviol := 0
	knownSeen := map[string]bool{}
	var samples []any
	for _, h := range hs {
		b := h.Quick
		if *tier == "thorough" {
			b = h.Thorough
		}
		if *secs > 0 {
			b = *secs
		}
		e := newExplorer(p, h.fn, time.Duration(b*float64(time.Second)), *tier)
		e.Run(ms)
		r := e.report(h)
		reps = append(reps, r)
		for c := range e.fns {
			if c.inRepo {
				fns[c.name] = true
			}
		}
		// violations
		for _, k := range sortedKeys(e.viol) {
			v := e.viol[k]
			if v.Known != "" {
				if txt, ok := known[v.Known]; ok {
					knownSeen[v.Known] = true
					_ = txt
					continue
				}
			}
			if *noNative {
				fmt.Printf("UNCONFIRMED %s: %s: %s\n  inputs %v\n  at %s\n  trace %s\n", h.Name, v.Kind, v.Msg, v.Inputs, v.Where, strings.Join(v.Trace, "\n    "))
				continue
			}
			ok, how := nat.confirm(v, *tier, e)
			if !ok {
				r.Unconf = append(r.Unconf, v)
				fmt.Fprintf(os.Stderr, "gosym: counterexample of %s not reproduced natively (not reported): %s: %s %v\n%s\n", h.Name, v.Kind, v.Msg, v.Inputs, how)
				if *verbose {
					fmt.Println("  where:", v.Where, "\n  trace:", strings.Join(v.Trace, "\n   "))
				}
				continue
			}
			nviol++
			exit = 1
			dir := filepath.Join(verifDir, "evidence", "replay")
			os.MkdirAll(dir, 0o755)
			f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", h.Property, h.Name, nviol))
			j, _ := json.MarshalIndent(map[string]any{"property": h.Property, "harness": v.Harness, "kind": v.Kind, "message": v.Msg, "inputs": v.Inputs,
				"decisions": v.Decs, "schedule_dependent": v.Sched, "confirmed": how, "where": v.Where, "trace": v.Trace,
				"rerun": "/verif/bin/gosym replay " + f}, "", " ")
			os.WriteFile(f, j, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", h.Property, f)
			fmt.Printf("  %s: %s: %s\n  inputs: %s\n", h.Name, v.Kind, v.Msg, fmtInputs(v.Inputs))
			if nviol >= 3 {
				break
			}
		}
		// sampled paths are replayed natively to validate the encoding
		if !*noNative && len(e.viol) == 0 {
			ns := 3
			if *tier == "thorough" {
				ns = 12
			}
			ss := e.samples
			if len(ss) > ns {
				ss = ss[len(ss)-ns:]
			}
			for _, s := range ss {
				nr := nat.run(h.Name, s.Inputs, *tier, 0, 20*time.Second)
				if nr.failed || nr.timeout || nr.assume || !sameObs(nr.obs, s.Obs) {
					d := fmt.Sprintf("inputs %v: engine %q native %q (%s)", s.Inputs, s.Obs, nr.obs, tail(nr.out, 400))
					r.Diverged = append(r.Diverged, d)
					if *verbose {
						fmt.Println("  DIVERGED:", d)
					}
					continue
				}
				r.Validated++
			}
		}
		for _, s := range e.samples {
			if len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": h.Name, "inputs": s.Inputs, "observed": s.Obs})
			}
		}
		if *verbose || os.Getenv("GOSYM_V") != "" {
			j, _ := json.Marshal(r)
			fmt.Println(string(j))
		} else {
			fmt.Printf("%s: %d paths, %d queries (%.1fs solver), %.1fs, exhausted=%v %v\n", h.Name, r.Paths, r.Queries, r.SolverS, r.WallS, r.Complete, r.Incomplete)
		}
		if nviol >= 3 {
			break
		}
	}
	for _, k := range sortedKeys(knownSeen) {
		f := strings.SplitN(known[k], " ", 2)
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", f[0], f[1])
	}
	for _, m := range ms {
		m.sol.Close()
	}
	if *prop != "" {
		writeEvidence(*prop, *tier, reps, p, time.Since(t0), nviol, p.dropped, map[string]any{"functions": fns, "samples": samples, "known": sortedKeys(knownSeen)})
	}
	nat.clean()
	if *prof != "" {
		printFnProf()
		pprof.StopCPUProfile()
	}
	os.Exit(exit)
}

func fmtInputs(in map[string]int64) string {
	var b strings.Builder
	for _, k := range sortedKeys(in) {
		fmt.Fprintf(&b, "%s=%d ", k, in[k])
	}
	return b.String()
}

func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Explorer) report(h *HarnessInfo) *HarnessReport {
	r := &HarnessReport{Name: h.Name, Bound: h.Bound, Paths: e.paths, Ended: e.ended, Blocks: e.steps, Branches: e.branches, Merges: e.merges,
		Asserts: e.asserts, AssertsC: e.assertsC, Queries: e.st.queries, Sat: e.st.sat, Unsat: e.st.unsat, Unknown: e.st.unknown, Certified: e.certified,
		SolverS: float64(e.st.solverNs) / 1e9, MaxQueryS: float64(e.st.maxNs) / 1e9, Reached: e.reached, Incomplete: e.why, Notes: e.notes,
		WallS: e.elapsed.Seconds()}
	if e.badRewrite {
		e.why["a simplification did not hold"]++
	}
	r.Complete = len(e.why) == 0
	for _, w := range h.Reach {
		if e.reached[w] == 0 {
			r.Missing = append(r.Missing, w)
			if r.Incomplete == nil {
				r.Incomplete = map[string]int{}
			}
			r.Incomplete["reachability witness not reached: "+w]++
			r.Complete = false
		}
	}
	return r
}

func writeEvidence(prop, tier string, reps []*HarnessReport, p *Program, wall time.Duration, nviol int, dropped []string, extra map[string]any) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var states, trans, val, q, unsat, asserts, cert int64
	var solver float64
	exhaustive := len(reps) > 0
	var bounds []string
	for _, r := range reps {
		states += r.Paths
		trans += r.Blocks
		val += int64(r.Validated)
		q += r.Queries
		unsat += r.Unsat
		cert += int64(r.Certified)
		asserts += r.Asserts
		solver += r.SolverS
		exhaustive = exhaustive && r.Complete
		bounds = append(bounds, r.Name+": "+r.Bound)
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": val,
		"states_meaning":      "symbolic paths executed to their end; each stands for every input satisfying its path condition",
		"transitions_meaning": "SSA basic blocks executed symbolically",
		"solver_queries":      q, "queries_unsat": unsat, "assertions_decided": asserts, "simplifications_certified_by_solver": cert, "solver_seconds": solver,
		"exhaustive": exhaustive, "harnesses": reps, "bounds": bounds, "solver": solverBin,
	}
	if p != nil {
		cov["bound_rewrites"] = p.bounds
	}
	if len(dropped) > 0 {
		cov["harness_files_not_applicable_to_this_tree"] = dropped
	}
	if extra != nil {
		fn := extra["functions"].(map[string]bool)
		cov["functions_encoded"] = sortedKeys(fn)
		cov["samples"] = extra["samples"]
		cov["known_findings_observed"] = extra["known"]
	} else {
		cov["samples"] = []any{}
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": []string{
			"git, the file system, the clock, gzip and gob are replaced at the standard-library boundary by models in /verif/harness; inputs outside the stated bounds are not covered",
			"go/ssa and the symbolic interpreter in /verif/engine are trusted; sampled paths are replayed against the compiled program",
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644)
}

func replayFile(p *Program, f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	var x struct {
		Message string   `json:"message"`
		Decs    []uint64 `json:"decisions"`
	}
	json.Unmarshal(b, &v)
	json.Unmarshal(b, &x)
	v.Msg = x.Message
	nat := &native{p: p}
	defer nat.clean()
	fn := p.harness.Func(v.Harness)
	if fn == nil {
		fmt.Println("no harness", v.Harness)
		return 2
	}
	e := newExplorer(p, fn, time.Minute, "quick")
	ok, how := nat.confirm(&v, "quick", e)
	fmt.Println("reproduced:", ok)
	fmt.Println(how)
	if ok {
		return 1
	}
	return 0
}
