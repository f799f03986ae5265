package zzverif

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// MainFunc is the program's main function, set by package main's overlay.
var MainFunc func()

// Result is what a run of the program did.
type Result struct {
	Out, Err string
	Code     int
	Panic    string
	Calls    []Call
}

// current process state inside the engine
var (
	curWorld *World
	curEnv   map[string]string
	curOut   []byte
	curErr   []byte
	curCalls []Call
	curCwd   string
	curLink  string
	curTTY   bool
)

// nativeRoot is where the world's directories live natively.
var nativeRoot = ""

func scratch() string {
	if nativeRoot == "" {
		nativeRoot = os.Getenv("ZZVERIF_SCRATCH")
	}
	return nativeRoot
}

// RootDir is the repository's root directory for worlds.
func RootDir() string {
	if ndNative() {
		return scratch() + "/repo"
	}
	return "/w/repo"
}

func CacheHome() string {
	if ndNative() {
		return scratch() + "/cache"
	}
	return "/w/cache"
}

func envFor(extra map[string]string) map[string]string {
	home := "/w/home"
	if ndNative() {
		home = scratch() + "/home"
	}
	e := map[string]string{"HOME": home, "XDG_CACHE_HOME": CacheHome(), "LC_ALL": "C", "LANG": "C", "TZ": "UTC", "PATH": "/usr/bin"}
	for k, v := range extra {
		e[k] = v
	}
	return e
}

// zone loads a time zone.
func zone(name string) *time.Location {
	l, err := time.LoadLocationFromTZData(name, ndTZData(name))
	if err != nil {
		panic(err)
	}
	return l
}

// Run runs the program: git who <args> in the world.
func Run(w *World, args ...string) Result { return RunEnv(w, nil, args...) }

// OnTerminal makes the standard output of a run a terminal.
func OnTerminal(vars map[string]string) map[string]string {
	e := map[string]string{"ZZ_TTY": "1"}
	for k, v := range vars {
		e[k] = v
	}
	return e
}

// terminal connects the command's output to a pseudo-terminal whose contents
// go to out. The first function returned waits for the last of it, the second
// closes the parent's copy of the command's end.
func terminal(cmd *exec.Cmd, out *bytes.Buffer) (func(), func()) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	ctl := func(f *os.File, op uintptr, arg unsafe.Pointer) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), op, uintptr(arg)); e != 0 {
			panic(e)
		}
	}
	var n, unlock int32
	ctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n))
	ctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock))
	t, err := os.OpenFile("/dev/pts/"+strconv.Itoa(int(n)), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	var ts syscall.Termios
	ctl(t, syscall.TCGETS, unsafe.Pointer(&ts))
	ts.Oflag &^= syscall.OPOST
	ctl(t, syscall.TCSETS, unsafe.Pointer(&ts))
	cmd.Stdout = t
	done := make(chan bool)
	go func() {
		io.Copy(out, m) // ends with an error once nobody has the other end
		close(done)
	}()
	return func() {
			<-done
			m.Close()
		}, func() {
			t.Close()
		}
}

// NoCache disables the on-disk cache.
func NoCache() map[string]string { return map[string]string{"GIT_WHO_DISABLE_CACHE": "1"} }

func RunEnv(w *World, vars map[string]string, args ...string) Result {
	if w.Root == "" {
		w.Root = RootDir()
	}
	if ndNative() {
		return runNative(w, envFor(vars), args)
	}
	ensureDir(w.Root)
	curWorld, curEnv = w, envFor(vars)
	curTTY = curEnv["ZZ_TTY"] != ""
	delete(curEnv, "ZZ_TTY")
	curOut, curErr, curCalls = nil, nil, nil
	curCwd = w.Root
	if w.Cwd != "" {
		curCwd = w.Cwd
		ensureDir(w.Cwd)
	}
	curLink = w.Link
	if pwd, _ := mGetwd(); pwd != "" {
		curEnv["PWD"] = pwd
	}
	resetProcs()
	os.Args = append([]string{"git-who"}, args...)
	fsOps = 0
	logReset()
	time.Local = time.UTC
	if z := curEnv["TZ"]; z != "UTC" {
		time.Local = zone(z)
	}
	kind, code, msg := ndCatch(MainFunc)
	time.Local = time.UTC
	curLink = ""
	crashAt, spaceLeft, outRoom = -1, -1, -1
	r := Result{Out: string(curOut), Err: string(curErr), Code: code, Calls: curCalls}
	if kind == 2 {
		r.Panic = msg
		if r.Panic == "" {
			r.Panic = "panic"
		}
		ndTrace("panic: " + msg)
	}
	ndTrace("run " + strings.Join(args, " ") + " -> " + strconv.Itoa(r.Code))
	return r
}

// ---- native -----------------------------------------------------------------

func runNative(w *World, env map[string]string, args []string) Result {
	s := scratch()
	self, _ := os.Executable()
	bin := s + "/bin"
	os.MkdirAll(bin, 0o755)
	os.MkdirAll(w.Root, 0o755)
	os.MkdirAll(env["HOME"], 0o755)
	if _, err := os.Lstat(bin + "/git"); err != nil {
		os.Symlink(self, bin+"/git")
	}
	j, _ := json.Marshal(toRaw(w))
	os.WriteFile(s+"/world.json", j, 0o644)
	os.Remove(s + "/calls.jsonl")
	cmd := exec.Command(self, args...)
	cmd.Dir = w.Root
	if w.Cwd != "" {
		os.MkdirAll(w.Cwd, 0o755)
		cmd.Dir = w.Cwd
	}
	if w.Link != "" {
		os.Symlink(w.Root, w.Link)
		cmd.Dir = w.Link + strings.TrimPrefix(cmd.Dir, w.Root)
	}
	env["PWD"] = cmd.Dir
	for k, v := range env {
		if k == "ZZ_TTY" {
			continue
		}
		if k == "PATH" {
			v = bin + ":" + v
			if w.NoGit {
				v = s + "/none"
			}
		}
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	cmd.Env = append(cmd.Env, "ZZVERIF_GIT="+s)
	if natNow != 0 {
		cmd.Env = append(cmd.Env, "ZZVERIF_NOW="+strconv.FormatInt(natNow, 10))
	}
	p := natProcs
	if p == 0 {
		p = 4
	}
	if g := os.Getenv("GOMAXPROCS"); g != "" {
		cmd.Env = append(cmd.Env, "GOMAXPROCS="+g)
	} else {
		cmd.Env = append(cmd.Env, "GOMAXPROCS="+strconv.Itoa(p))
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	tty, shut := func() {}, func() {}
	if env["ZZ_TTY"] != "" {
		tty, shut = terminal(cmd, &out)
	}
	err := cmd.Start()
	shut()
	late := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	if err == nil {
		err = cmd.Wait()
	}
	tty()
	ended := late.Stop()
	r := Result{Out: out.String(), Err: errb.String()}
	if err != nil {
		r.Code = cmd.ProcessState.ExitCode()
		if strings.Contains(r.Err, "goroutine ") && (strings.Contains(r.Err, "panic: ") || strings.Contains(r.Err, "fatal error: ")) {
			r.Panic = r.Err
		}
	}
	if !ended {
		r.Panic = "still running after a minute"
	}
	if os.Getenv("ZZVERIF_VERBOSE") != "" {
		fmt.Printf("ZZRUN %q code=%d\n%s---\n%s===\n", args, r.Code, r.Out, r.Err)
	}
	if b, err := os.ReadFile(s + "/calls.jsonl"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			var c Call
			if l != "" && json.Unmarshal([]byte(l), &c) == nil {
				r.Calls = append(r.Calls, c)
			}
		}
	}
	return r
}

// rawWorld carries arbitrary bytes through JSON.
type rawWorld struct {
	W *World
	B [][][]byte
}

func toRaw(w *World) *rawWorld {
	r := &rawWorld{W: w}
	for _, c := range w.Commits {
		var bs [][]byte
		for _, s := range []string{c.Hash, c.Short, c.Parents, c.Name, c.Email, c.MName, c.MEmail, c.Date} {
			bs = append(bs, []byte(s))
		}
		for _, d := range c.Diffs {
			bs = append(bs, []byte(d.Add), []byte(d.Del), []byte(d.Old), []byte(d.Path))
		}
		r.B = append(r.B, bs)
	}
	var idx [][]byte
	for _, p := range w.Index {
		idx = append(idx, []byte(p))
	}
	r.B = append(r.B, idx)
	return r
}

func (r *rawWorld) world() *World {
	w := r.W
	for i := range w.Commits {
		c := &w.Commits[i]
		b := r.B[i]
		for k, p := range []*string{&c.Hash, &c.Short, &c.Parents, &c.Name, &c.Email, &c.MName, &c.MEmail, &c.Date} {
			*p = string(b[k])
		}
		b = b[8:]
		for j := range c.Diffs {
			d := &c.Diffs[j]
			d.Add, d.Del, d.Old, d.Path = string(b[0]), string(b[1]), string(b[2]), string(b[3])
			b = b[4:]
		}
	}
	idx := r.B[len(w.Commits)]
	for i := range w.Index {
		w.Index[i] = string(idx[i])
	}
	return w
}

// FakeGit is the native fake git process.
func FakeGit() {
	s := os.Getenv("ZZVERIF_GIT")
	var r rawWorld
	b, err := os.ReadFile(s + "/world.json")
	if err != nil || json.Unmarshal(b, &r) != nil {
		fmt.Fprintln(os.Stderr, "fatal: no world")
		os.Exit(128)
	}
	w := r.world()
	args := os.Args[1:]
	stdin := ""
	if contains(args, "--stdin") {
		var sb bytes.Buffer
		sb.ReadFrom(os.Stdin)
		stdin = sb.String()
	}
	if f, err := os.OpenFile(s+"/calls.jsonl", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
		j, _ := json.Marshal(Call{Args: args, Stdin: stdin})
		f.Write(append(j, '\n'))
		f.Close()
	}
	dir, _ := os.Getwd()
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	if d, err := filepath.EvalSymlinks(w.Root); err == nil && (dir == d || strings.HasPrefix(dir, d+"/")) {
		dir = w.Root + dir[len(d):]
	}
	out, errs, code := gitExec(w, dir, args, stdin)
	for k := 0; len(w.Chunk) > 0 && out != ""; k++ {
		n := w.Chunk[min(k, len(w.Chunk)-1)]
		if n <= 0 || n >= len(out) {
			break
		}
		os.Stdout.WriteString(out[:n])
		out = out[n:]
		if len(w.Chunk) > 1 {
			time.Sleep(20 * time.Millisecond)
		} else {
			time.Sleep(2 * time.Millisecond)
		}
	}
	os.Stdout.WriteString(out)
	os.Stderr.WriteString(errs)
	if code == -1 {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
	}
	os.Exit(code)
}

// ---- files, in both worlds --------------------------------------------------

func WriteFile(path, data string) {
	if ndNative() {
		os.MkdirAll(filepath.Dir(path), 0o755)
		os.WriteFile(path, []byte(data), 0o644)
		return
	}
	ensureDir(dirOf(path))
	fsys[path] = &fnode{data: []byte(data)}
}

// wrongSum replaces text in compressed data, and keeps the checksum of before.
func wrongSum(data, old, now string) string {
	if !ndNative() {
		return strings.Replace(data, old, now, 1)
	}
	zr, err := gzip.NewReader(strings.NewReader(data))
	if err != nil {
		return data
	}
	b, _ := io.ReadAll(zr)
	var out bytes.Buffer
	zw := gzip.NewWriter(&out)
	zw.Write(bytes.Replace(b, []byte(old), []byte(now), 1))
	zw.Close()
	return out.String()[:out.Len()-8] + data[len(data)-8:]
}

func MakeDir(path string) {
	if ndNative() {
		os.MkdirAll(path, 0o755)
		return
	}
	ensureDir(path)
}

func ReadFile(path string) (string, bool) {
	if ndNative() {
		b, err := os.ReadFile(path)
		return string(b), err == nil
	}
	n := fsys[path]
	if n == nil || n.dir {
		return "", false
	}
	return string(n.data), true
}

// Files lists regular files under dir, sorted.
func Files(dir string) []string {
	var r []string
	if ndNative() {
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				r = append(r, p)
			}
			return nil
		})
		return r
	}
	for p, n := range fsys {
		if !n.dir && strings.HasPrefix(p, dir+"/") {
			r = append(r, p)
		}
	}
	sortStrings(r)
	return r
}

// CrashAt kills the next run at its n-th change of the file system (engine only).
func CrashAt(n, quarters int) {
	ndModelOnly()
	crashAt, crashPart, crashed = n, quarters, false
}

// Together makes another process run while the next one does (engine only).
// The two take turns, n of which end before any operation on files; whoever is
// left at the end runs on alone.
func Together(n int, do func()) {
	ndModelOnly()
	turns, turnsLeft, fileOps, atOther = n, 0, 0, false
	otherPid = ndSpawn(func() {
		do()
		turnsLeft += turns
		turns, otherPid, atOther = 0, 0, false
		ndSwitch(0)
	})
}

// Joined waits for the other process, if it has not ended; it tells whether
// it ran at the same time, and all turns were used.
func Joined() bool {
	turnsLeft += turns
	turns = 0
	if otherPid != 0 {
		atOther = true
		switchTo(otherPid)
	}
	return turnsLeft == 0
}

// Crashed tells whether the kill happened.
func Crashed() bool { crashAt = -1; return crashed }

// DiskFull makes writes to files fail after n bytes in the next run (engine only).
func DiskFull(n int) {
	ndModelOnly()
	spaceLeft = n
}

// outRoom is how much may be written to the standard output, or -1.
var outRoom = -1

// OutputFull lets the next run write n bytes to its standard output (engine only).
func OutputFull(n int) {
	ndModelOnly()
	outRoom = n
}

// ShortReads limits how much one read of a file returns (engine only).
func ShortReads(n int) {
	ndModelOnly()
	readMax = n
}

func RemoveFile(path string) {
	if ndNative() {
		if strings.HasPrefix(path, scratch()+"/") {
			os.Remove(path)
		}
		return
	}
	delete(fsys, path)
}

// RemoveTree removes everything below dir (inside the scratch world only).
func RemoveTree(dir string) {
	if ndNative() {
		if strings.HasPrefix(dir, scratch()+"/") {
			os.RemoveAll(dir)
		}
		return
	}
	for _, p := range sortedPaths() {
		if p == dir || strings.HasPrefix(p, dir+"/") {
			delete(fsys, p)
		}
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func dirOf(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	return ""
}
