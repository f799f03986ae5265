package zzverif

// Models of the standard library's outside world, used by the engine only.

import (
	"compress/gzip"
	"context"
	"encoding/gob"
	"encoding/json"
	"errors"
	"flag"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"os/user"
	"path"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// ---- file system ------------------------------------------------------------

type fnode struct {
	dir  bool
	data []byte
	mode fs.FileMode
}

var fsys = map[string]*fnode{}

// Interruption: the process is killed at the n-th change of the file system,
// 0 meaning before the first; a write may have been done in part.
var (
	crashAt   = -1
	crashPart int // quarters of the interrupted write that reach the file
	crashed   bool
	fsOps     int
	spaceLeft = -1 // bytes that can still be written before the disk is full, -1 for any
	readMax   int  // largest number of bytes one read of a file returns, 0 for any
)

// Two processes at once: the one at hand (0) and another one take turns. Each
// turn ends before any operation on files (reads included).
var (
	turns     int // still to be ended
	turnsLeft int // that were not used
	fileOps   int
	otherPid  int // 0 if there is no other process
	atOther   bool
)

// pausePoint is called at the start of every operation on files.
func pausePoint() {
	if turns == 0 {
		return
	}
	fileOps++
	if ndChoice("switch"+strconv.Itoa(fileOps), 2) == 0 {
		return
	}
	turns--
	atOther = !atOther
	if atOther {
		switchTo(otherPid)
	} else {
		switchTo(0)
	}
}

func switchTo(p int) {
	w, e, out, errb, calls, cwd, link, tty := curWorld, curEnv, curOut, curErr, curCalls, curCwd, curLink, curTTY
	ps, pc, args, n, zone := procs, psCode, os.Args, fsOps, time.Local
	ndSwitch(p)
	curWorld, curEnv, curOut, curErr, curCalls, curCwd, curLink, curTTY = w, e, out, errb, calls, cwd, link, tty
	procs, psCode, os.Args, fsOps, time.Local = ps, pc, args, n, zone
}

func crashPoint(part func(quarters int)) {
	fsOps++
	if crashAt < 0 {
		return
	}
	if crashAt == 0 {
		crashAt, crashed = -1, true
		if part != nil {
			part(crashPart)
		}
		os.Exit(137)
	}
	crashAt--
}

type ofile struct {
	path   string
	node   *fnode
	pos    int
	write  bool
	read   bool
	app    bool
	closed bool
	std    int
	ents   []string
	listed bool
}

var files = map[*os.File]*ofile{}

func sortedPaths() []string {
	var r []string
	for p := range fsys {
		r = append(r, p)
	}
	sortStrings(r)
	return r
}

func ensureDir(p string) {
	if p == "" || p == "/" {
		return
	}
	ensureDir(dirOf(p))
	if fsys[p] == nil {
		fsys[p] = &fnode{dir: true}
	}
}

// abs cleans a path against the current directory.
func abs(p string) string {
	if p == "" {
		return ""
	}
	if p[0] != '/' {
		p = curCwd + "/" + p
	}
	if curLink != "" && (p == curLink || strings.HasPrefix(p, curLink+"/")) {
		p = curWorld.Root + p[len(curLink):]
	}
	var out []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return "/" + strings.Join(out, "/")
}

func perr(op, path string, e error) error { return &fs.PathError{Op: op, Path: path, Err: e} }

func lookup(p string) *fnode {
	a := abs(p)
	if a == "/" {
		return &fnode{dir: true}
	}
	if a == "" {
		return nil
	}
	return fsys[a]
}

// missing tells ENOENT from ENOTDIR.
func missing(p string) error {
	a := abs(p)
	for d := dirOf(a); d != ""; d = dirOf(d) {
		if n := fsys[d]; n != nil && !n.dir {
			return syscall.ENOTDIR
		}
	}
	return syscall.ENOENT
}

// model: (*flag.FlagSet).PrintDefaults
func mPrintDefaults(f *flag.FlagSet) {
	f.VisitAll(func(x *flag.Flag) { io.WriteString(f.Output(), "  -"+x.Name+" \n    \t"+x.Usage+"\n") })
}

// model: os.NewFile
func mNewFile(fd uintptr, name string) *os.File {
	f := new(os.File)
	files[f] = &ofile{path: name, std: int(fd) + 1, read: true, write: true}
	return f
}

// model: os.OpenFile
func mOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	pausePoint()
	n := lookup(name)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, missing(name))
		}
		d := dirOf(abs(name))
		if d != "" && (fsys[d] == nil || !fsys[d].dir) {
			return nil, perr("open", name, missing(name))
		}
		crashPoint(nil)
		n = &fnode{mode: perm}
		fsys[abs(name)] = n
	} else if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
		return nil, perr("open", name, syscall.EEXIST)
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if n.dir && acc != os.O_RDONLY {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 && len(n.data) > 0 {
		crashPoint(nil)
		n.data = nil
	}
	f := new(os.File)
	files[f] = &ofile{path: name, node: n, write: acc != os.O_RDONLY, read: acc != os.O_WRONLY, app: flag&os.O_APPEND != 0}
	return f, nil
}

// model: os.Open
func mOpen(name string) (*os.File, error) { return mOpenFile(name, os.O_RDONLY, 0) }

// model: os.Create
func mCreate(name string) (*os.File, error) {
	return mOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func of(f *os.File, op string) (*ofile, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	o := files[f]
	if o == nil {
		panic("unknown file handle")
	}
	if o.closed {
		return nil, perr(op, o.path, os.ErrClosed)
	}
	return o, nil
}

// model: (*os.File).Read
func mFileRead(f *os.File, b []byte) (int, error) {
	pausePoint()
	o, err := of(f, "read")
	if err != nil {
		return 0, err
	}
	if o.std > 0 {
		return 0, io.EOF
	}
	if !o.read {
		return 0, perr("read", o.path, syscall.EBADF)
	}
	if o.node.dir {
		return 0, perr("read", o.path, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if o.pos >= len(o.node.data) {
		return 0, io.EOF
	}
	if readMax > 0 && len(b) > readMax {
		b = b[:readMax]
	}
	n := copy(b, o.node.data[o.pos:])
	o.pos += n
	return n, nil
}

// model: (*os.File).ReadAt
func mFileReadAt(f *os.File, b []byte, off int64) (int, error) {
	o, err := of(f, "read")
	if err != nil {
		return 0, err
	}
	if int(off) >= len(o.node.data) {
		return 0, io.EOF
	}
	n := copy(b, o.node.data[int(off):])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// model: (*os.File).Write
func mFileWrite(f *os.File, b []byte) (int, error) {
	if o := files[f]; o != nil && o.std == 0 {
		pausePoint()
	}
	o, err := of(f, "write")
	if err != nil {
		return 0, err
	}
	switch o.std {
	case 2:
		if outRoom >= 0 && len(curOut)+len(b) > outRoom {
			n := max(0, outRoom-len(curOut))
			curOut = append(curOut, b[:n]...)
			return n, perr("write", o.path, syscall.ENOSPC)
		}
		curOut = append(curOut, b...)
		return len(b), nil
	case 3:
		curErr = append(curErr, b...)
		return len(b), nil
	}
	if !o.write {
		return 0, perr("write", o.path, syscall.EBADF)
	}
	crashPoint(func(q int) { o.put(b[:len(b)*q/4]) })
	if spaceLeft >= 0 {
		if len(b) > spaceLeft {
			n := spaceLeft
			o.put(b[:n])
			spaceLeft = 0
			return n, perr("write", o.path, syscall.ENOSPC)
		}
		spaceLeft -= len(b)
	}
	o.put(b)
	return len(b), nil
}

func (o *ofile) put(b []byte) {
	if o.app {
		o.pos = len(o.node.data)
	}
	d := o.node.data
	nd := make([]byte, 0, o.pos+len(b))
	if o.pos <= len(d) {
		nd = append(nd, d[:o.pos]...)
	} else {
		nd = append(nd, d...)
		for len(nd) < o.pos {
			nd = append(nd, 0)
		}
	}
	nd = append(nd, b...)
	if o.pos+len(b) < len(d) {
		nd = append(nd, d[o.pos+len(b):]...)
	}
	o.node.data = nd
	o.pos += len(b)
}

// model: (*os.File).WriteString
func mFileWriteString(f *os.File, s string) (int, error) { return mFileWrite(f, []byte(s)) }

// model: (*os.File).ReadFrom
func mFileReadFrom(f *os.File, r io.Reader) (n int64, err error) {
	buf := make([]byte, 512)
	for {
		k, e := r.Read(buf)
		if k > 0 {
			if _, we := mFileWrite(f, buf[:k]); we != nil {
				return n, we
			}
			n += int64(k)
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

// model: (*os.File).WriteTo
func mFileWriteTo(f *os.File, w io.Writer) (n int64, err error) {
	buf := make([]byte, 512)
	for {
		k, e := mFileRead(f, buf)
		if k > 0 {
			if _, we := w.Write(buf[:k]); we != nil {
				return n, we
			}
			n += int64(k)
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

// model: (*os.File).Close
func mFileClose(f *os.File) error {
	o, err := of(f, "close")
	if err != nil {
		return err
	}
	if o.std == 0 {
		o.closed = true
	}
	return nil
}

// model: (*os.File).Sync
func mFileSync(f *os.File) error { return nil }

// model: (*os.File).Name
func mFileName(f *os.File) string {
	if o := files[f]; o != nil {
		return o.path
	}
	return ""
}

// model: (*os.File).Fd
func mFileFd(f *os.File) uintptr {
	if o := files[f]; o != nil && o.std > 0 {
		return uintptr(o.std - 1)
	}
	return 99
}

// model: (*os.File).Seek
func mFileSeek(f *os.File, off int64, whence int) (int64, error) {
	o, err := of(f, "seek")
	if err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		o.pos = int(off)
	case io.SeekCurrent:
		o.pos += int(off)
	case io.SeekEnd:
		o.pos = len(o.node.data) + int(off)
	}
	return int64(o.pos), nil
}

// model: (*os.File).Truncate
func mFileTruncate(f *os.File, n int64) error {
	pausePoint()
	o, err := of(f, "truncate")
	if err != nil {
		return err
	}
	crashPoint(nil)
	for len(o.node.data) < int(n) {
		o.node.data = append(o.node.data, 0)
	}
	o.node.data = o.node.data[:int(n)]
	return nil
}

type finfo struct {
	name string
	n    *fnode
}

func (i *finfo) Name() string { return i.name }
func (i *finfo) Size() int64  { return int64(len(i.n.data)) }
func (i *finfo) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i *finfo) ModTime() time.Time         { return time.Time{} }
func (i *finfo) IsDir() bool                { return i.n.dir }
func (i *finfo) Sys() any                   { return nil }
func (i *finfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i *finfo) Info() (fs.FileInfo, error) { return i, nil }

func baseOf(p string) string { return p[len(dirOf(p))+1:] }

// model: os.Stat
func mStat(name string) (os.FileInfo, error) {
	pausePoint()
	n := lookup(name)
	if n == nil {
		return nil, perr("stat", name, missing(name))
	}
	return &finfo{baseOf(abs(name)), n}, nil
}

// model: os.Lstat
func mLstat(name string) (os.FileInfo, error) {
	pausePoint()
	n := lookup(name)
	if n == nil {
		return nil, perr("lstat", name, missing(name))
	}
	return &finfo{baseOf(abs(name)), n}, nil
}

// model: (*os.File).Stat
func mFileStat(f *os.File) (os.FileInfo, error) {
	pausePoint()
	o, err := of(f, "stat")
	if err != nil {
		return nil, err
	}
	return &finfo{baseOf(abs(o.path)), o.node}, nil
}

func children(dir string) []string {
	var r []string
	for _, p := range sortedPaths() {
		if dirOf(p) == dir {
			r = append(r, baseOf(p))
		}
	}
	return r
}

// model: os.ReadDir
func mReadDir(name string) ([]os.DirEntry, error) {
	pausePoint()
	n := lookup(name)
	if n == nil {
		return nil, perr("open", name, missing(name))
	}
	if !n.dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var r []os.DirEntry
	d := abs(name)
	for _, c := range children(d) {
		r = append(r, &finfo{c, fsys[d+"/"+c]})
	}
	return r, nil
}

// model: (*os.File).Readdirnames
func mReaddirnames(f *os.File, n int) ([]string, error) {
	o, err := of(f, "readdir")
	if err != nil {
		return nil, err
	}
	if !o.node.dir {
		return nil, perr("readdirent", o.path, syscall.ENOTDIR)
	}
	return children(abs(o.path)), nil
}

// model: (*os.File).ReadDir
func mFileReadDir(f *os.File, n int) ([]os.DirEntry, error) {
	o, err := of(f, "readdir")
	if err != nil {
		return nil, err
	}
	return mReadDir(o.path)
}

// model: os.ReadFile
func mReadFile(name string) ([]byte, error) {
	pausePoint()
	n := lookup(name)
	if n == nil {
		return nil, perr("open", name, missing(name))
	}
	if n.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, n.data...), nil
}

// model: os.WriteFile
func mWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := mOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = mFileWrite(f, data)
	mFileClose(f)
	return err
}

// model: os.Mkdir
func mMkdir(name string, perm os.FileMode) error {
	pausePoint()
	a := abs(name)
	if fsys[a] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if d := dirOf(a); d != "" && (fsys[d] == nil || !fsys[d].dir) {
		return perr("mkdir", name, missing(name))
	}
	crashPoint(nil)
	fsys[a] = &fnode{dir: true}
	return nil
}

// model: os.MkdirAll
func mMkdirAll(name string, perm os.FileMode) error {
	pausePoint()
	a := abs(name)
	for d := a; d != ""; d = dirOf(d) {
		if n := fsys[d]; n != nil && !n.dir {
			return perr("mkdir", name, syscall.ENOTDIR)
		}
	}
	if fsys[a] == nil {
		crashPoint(nil)
	}
	ensureDir(a)
	return nil
}

// model: os.Remove
func mRemove(name string) error {
	pausePoint()
	a := abs(name)
	n := fsys[a]
	if n == nil {
		return perr("remove", name, missing(name))
	}
	if n.dir && len(children(a)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	crashPoint(nil)
	delete(fsys, a)
	return nil
}

// model: os.RemoveAll
func mRemoveAll(name string) error {
	if name == "" {
		return nil
	}
	a := abs(name)
	pausePoint()
	for again := true; again; {
		again = false
		for _, p := range sortedPaths() {
			if p != a && strings.HasPrefix(p, a+"/") && fsys[p] != nil && !fsys[p].dir {
				crashPoint(nil)
				delete(fsys, p)
				pausePoint()
				again = true // more may have come up meanwhile
			}
		}
	}
	if fsys[a] != nil {
		crashPoint(nil)
	}
	RemoveTree(abs(name))
	return nil
}

// model: os.Rename
func mRename(from, to string) error {
	pausePoint()
	a, b := abs(from), abs(to)
	n := fsys[a]
	if n == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: missing(from)}
	}
	if d := dirOf(b); d != "" && (fsys[d] == nil || !fsys[d].dir) {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: missing(to)}
	}
	if o := fsys[b]; o != nil && o.dir != n.dir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EISDIR}
	}
	crashPoint(nil)
	for _, p := range sortedPaths() {
		if strings.HasPrefix(p, a+"/") {
			fsys[b+p[len(a):]] = fsys[p]
			delete(fsys, p)
		}
	}
	fsys[b] = n
	delete(fsys, a)
	return nil
}

// model: os.Truncate
func mTruncate(name string, size int64) error {
	pausePoint()
	n := lookup(name)
	if n == nil {
		return perr("truncate", name, missing(name))
	}
	for len(n.data) < int(size) {
		n.data = append(n.data, 0)
	}
	n.data = n.data[:int(size)]
	return nil
}

var tempSeq int

// model: os.CreateTemp
func mCreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
		ensureDir(dir)
	}
	tempSeq++
	s := strconv.Itoa(1000 + tempSeq)
	name := pattern + s
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		name = pattern[:i] + s + pattern[i+1:]
	}
	return mOpenFile(dir+"/"+name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

// model: os.MkdirTemp
func mMkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
		ensureDir(dir)
	}
	tempSeq++
	name := dir + "/" + strings.ReplaceAll(pattern, "*", "") + strconv.Itoa(1000+tempSeq)
	return name, mMkdir(name, 0o700)
}

// model: os.Getwd
func mGetwd() (string, error) {
	if curLink != "" && (curCwd == curWorld.Root || strings.HasPrefix(curCwd, curWorld.Root+"/")) {
		return curLink + curCwd[len(curWorld.Root):], nil
	}
	return curCwd, nil
}

// model: path/filepath.EvalSymlinks
func mEvalSymlinks(p string) (string, error) {
	if lookup(p) == nil {
		return "", perr("lstat", p, missing(p))
	}
	if p[0] == '/' {
		return abs(p), nil
	}
	return path.Clean(p), nil
}

// model: os.Chdir
func mChdir(d string) error {
	n := lookup(d)
	if n == nil || !n.dir {
		return perr("chdir", d, syscall.ENOENT)
	}
	curCwd = abs(d)
	return nil
}

// model: os.Getenv
func mGetenv(k string) string { return curEnv[k] }

// model: os.LookupEnv
func mLookupEnv(k string) (string, bool) { v, ok := curEnv[k]; return v, ok }

// model: syscall.Getenv
func mSysGetenv(k string) (string, bool) { v, ok := curEnv[k]; return v, ok }

// model: os.Environ
func mEnviron() []string {
	var r []string
	for k, v := range curEnv {
		r = append(r, k+"="+v)
	}
	sortStrings(r)
	return r
}

// model: os.UserHomeDir
func mUserHomeDir() (string, error) { return curEnv["HOME"], nil }

// model: os.UserCacheDir
func mUserCacheDir() (string, error) {
	if c := curEnv["XDG_CACHE_HOME"]; c != "" {
		return c, nil
	}
	return curEnv["HOME"] + "/.cache", nil
}

// model: os.Hostname
func mHostname() (string, error) { return "host", nil }

// model: os.Getpid
func mGetpid() int { return 4242 }

// model: os.Executable
func mExecutable() (string, error) { return "/usr/bin/git-who", nil }

// model: os/user.Current
func mUserCurrent() (*user.User, error) {
	return &user.User{Uid: "1000", Gid: "1000", Username: "u", Name: "u", HomeDir: curEnv["HOME"]}, nil
}

// model: golang.org/x/term.IsTerminal
func mIsTerminal(fd int) bool { return curTTY && fd == 1 }

// model: golang.org/x/term.GetSize
func mGetSize(fd int) (int, int, error) { return 80, 24, nil }

// ---- processes --------------------------------------------------------------

type proc struct {
	ctx     context.Context
	in      []byte
	inDone  chan bool
	hasIn   bool
	inShut  bool
	out     []byte
	pos     int
	errs    []byte
	epos    int
	code    int
	ran     bool
	started bool
	waited  bool
	reads   int
	piped   bool
	epiped  bool
	oFree   chan bool // closed when the rest of stdout fits the pipe
	eFree   chan bool // the same for stderr
}

const pipeSize = 65536

var procs = map[*exec.Cmd]*proc{}
var psCode = map[*os.ProcessState]int{}

func resetProcs() {
	procs = map[*exec.Cmd]*proc{}
	psCode = map[*os.ProcessState]int{}
}

// model: os/exec.Command
func mCommand(name string, arg ...string) *exec.Cmd {
	c := &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
	procs[c] = &proc{}
	return c
}

// model: os/exec.CommandContext
func mCommandContext(ctx context.Context, name string, arg ...string) *exec.Cmd {
	c := mCommand(name, arg...)
	procs[c].ctx = ctx
	return c
}

// model: os/exec.LookPath
func mLookPath(f string) (string, error) { return "/usr/bin/" + f, nil }

type outPipe struct {
	c   *exec.Cmd
	p   *proc
	err bool
}

// exec runs the process to completion once its input is complete.
// procDir is where a process runs.
func procDir(c *exec.Cmd) string {
	if c.Dir != "" {
		return abs(c.Dir)
	}
	return curCwd
}

func (p *proc) exec(c *exec.Cmd) {
	if p.ran {
		return
	}
	if p.hasIn && !p.inShut {
		<-p.inDone
	}
	if p.ran {
		return
	}
	p.ran = true
	in := string(p.in)
	if c.Stdin != nil {
		b, _ := io.ReadAll(c.Stdin)
		in = string(b)
	}
	curCalls = append(curCalls, Call{Args: append([]string{}, c.Args[1:]...), Stdin: in})
	o, e, code := gitExec(curWorld, procDir(c), c.Args[1:], in)
	p.out, p.errs, p.code = []byte(o), []byte(e), code
	if p.epiped && len(p.errs) > pipeSize {
		p.eFree = make(chan bool)
	}
	if p.piped && len(p.out) > pipeSize {
		p.oFree = make(chan bool)
	}
}

// held waits until the process gets on; false when it was killed.
func (p *proc) held(free chan bool) bool {
	if free == nil {
		return true
	}
	if p.ctx == nil {
		<-free
		return true
	}
	select {
	case <-free:
		return true
	case <-p.ctx.Done():
		return false
	}
}

func (o *outPipe) Read(b []byte) (int, error) {
	p := o.p
	if p.waited {
		return 0, perr("read", "|0", os.ErrClosed)
	}
	if p.ctx != nil && p.ctx.Err() != nil && !p.ran {
		// the process was killed before it produced anything
		return 0, io.EOF
	}
	p.exec(o.c)
	data, pos := p.out, p.pos
	if o.err {
		data, pos = p.errs, p.epos
	}
	// The process writes its output, and then its warnings, and then exits: neither
	// pipe ends, and no warning comes, while it is held up by a full pipe.
	if o.err {
		if !p.held(p.oFree) {
			return 0, io.EOF
		}
	}
	if pos >= len(data) {
		if !o.err {
			p.held(p.eFree)
		}
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if !o.err && len(curWorld.Chunk) > 0 {
		k := p.reads
		if k >= len(curWorld.Chunk) {
			k = len(curWorld.Chunk) - 1
		}
		if c := curWorld.Chunk[k]; c > 0 && c < n {
			n = c
		}
	}
	p.reads++
	n = copy(b[:n], data[pos:])
	if o.err {
		p.epos += n
		if p.eFree != nil && len(p.errs)-p.epos <= pipeSize && len(p.errs)-p.epos+n > pipeSize {
			close(p.eFree)
		}
	} else {
		p.pos += n
		if p.oFree != nil && len(p.out)-p.pos <= pipeSize && len(p.out)-p.pos+n > pipeSize {
			close(p.oFree)
		}
	}
	return n, nil
}

func (o *outPipe) Close() error { return nil }

type inPipe struct{ p *proc }

func (i *inPipe) Write(b []byte) (int, error) {
	if i.p.inShut {
		return 0, perr("write", "|1", os.ErrClosed)
	}
	i.p.in = append(i.p.in, b...)
	return len(b), nil
}

func (i *inPipe) Close() error {
	if i.p.inShut {
		return perr("close", "|1", os.ErrClosed)
	}
	i.p.inShut = true
	close(i.p.inDone)
	return nil
}

// model: (*os/exec.Cmd).StdoutPipe
func mStdoutPipe(c *exec.Cmd) (io.ReadCloser, error) {
	procs[c].piped = true
	return &outPipe{c: c, p: procs[c]}, nil
}

// model: (*os/exec.Cmd).StderrPipe
func mStderrPipe(c *exec.Cmd) (io.ReadCloser, error) {
	procs[c].epiped = true
	return &outPipe{c: c, p: procs[c], err: true}, nil
}

// model: (*os/exec.Cmd).StdinPipe
func mStdinPipe(c *exec.Cmd) (io.WriteCloser, error) {
	p := procs[c]
	p.hasIn = true
	p.inDone = make(chan bool)
	return &inPipe{p}, nil
}

// model: (*os/exec.Cmd).Start
func mStart(c *exec.Cmd) error {
	ndYield()
	p := procs[c]
	if p.started {
		return errors.New("exec: already started")
	}
	if p.ctx != nil {
		if err := p.ctx.Err(); err != nil {
			return err
		}
	}
	if curWorld.NoGit {
		return &exec.Error{Name: c.Path, Err: errors.New("executable file not found in $PATH")}
	}
	p.started = true
	return nil
}

// model: (*os/exec.Cmd).Wait
func mWait(c *exec.Cmd) error {
	p := procs[c]
	if !p.started {
		return errors.New("exec: not started")
	}
	if p.waited {
		return errors.New("exec: Wait was already called")
	}
	ps := new(os.ProcessState)
	c.ProcessState = ps
	if p.ctx != nil && p.ctx.Err() != nil && (!p.ran || p.pos < len(p.out)) {
		// killed by the context
		p.waited = true
		psCode[ps] = -1
		return p.ctx.Err()
	}
	if p.hasIn && !p.inShut && !p.ran {
		// Wait closes our end of the pipe only after the process has exited
		<-p.inDone
	}
	p.exec(c)
	if !p.held(p.oFree) || !p.held(p.eFree) {
		p.waited = true
		psCode[ps] = -1
		return p.ctx.Err()
	}
	if c.Stdout != nil && !p.piped {
		c.Stdout.Write(p.out)
	}
	if c.Stderr != nil && !p.epiped {
		c.Stderr.Write(p.errs)
	}
	p.waited = true
	psCode[ps] = p.code
	if p.code != 0 {
		return &exec.ExitError{ProcessState: ps}
	}
	return nil
}

// model: (*os/exec.Cmd).Run
func mRun(c *exec.Cmd) error {
	if err := mStart(c); err != nil {
		return err
	}
	return mWait(c)
}

// model: (*os/exec.Cmd).Output
func mOutput(c *exec.Cmd) ([]byte, error) {
	err := mRun(c)
	if ee, ok := err.(*exec.ExitError); ok {
		ee.Stderr = procs[c].errs
	}
	return procs[c].out, err
}

// model: (*os/exec.Cmd).CombinedOutput
func mCombined(c *exec.Cmd) ([]byte, error) {
	err := mRun(c)
	return append(append([]byte{}, procs[c].out...), procs[c].errs...), err
}

// model: (*os/exec.Cmd).String
func mCmdString(c *exec.Cmd) string { return strings.Join(c.Args, " ") }

// model: (*os.ProcessState).ExitCode
func mExitCode(ps *os.ProcessState) int {
	if ps == nil {
		return -1
	}
	return psCode[ps]
}

// model: (*os.ProcessState).Success
func mSuccess(ps *os.ProcessState) bool { return psCode[ps] == 0 }

// model: (*os.ProcessState).String
func mPsString(ps *os.ProcessState) string {
	if psCode[ps] == -1 {
		return "signal: killed"
	}
	return "exit status " + strconv.Itoa(psCode[ps])
}

// ---- gzip: header, payload, trailer -----------------------------------------

type gzState struct {
	w      io.Writer
	r      io.Reader
	buf    []byte
	pos    int
	err    error
	opened bool
	closed bool
}

var gzWriters = map[*gzip.Writer]*gzState{}
var gzReaders = map[*gzip.Reader]*gzState{}

// model: compress/gzip.NewWriter
func mGzNewWriter(w io.Writer) *gzip.Writer {
	z := new(gzip.Writer)
	gzWriters[z] = &gzState{w: w}
	return z
}

// model: compress/gzip.NewWriterLevel
func mGzNewWriterLevel(w io.Writer, level int) (*gzip.Writer, error) {
	if level < -2 || level > 9 {
		return nil, errors.New("gzip: invalid compression level")
	}
	return mGzNewWriter(w), nil
}

func (s *gzState) head() error {
	if s.opened {
		return nil
	}
	s.opened = true
	_, err := s.w.Write([]byte{0x1f, 0x8b})
	return err
}

// model: (*compress/gzip.Writer).Write
func mGzWrite(z *gzip.Writer, b []byte) (int, error) {
	s := gzWriters[z]
	if err := s.head(); err != nil {
		return 0, err
	}
	s.buf = append(s.buf, b...)
	return len(b), nil
}

// model: (*compress/gzip.Writer).Flush
func mGzFlush(z *gzip.Writer) error { return nil }

// model: (*compress/gzip.Writer).Close
func mGzClose(z *gzip.Writer) error {
	s := gzWriters[z]
	if s.closed {
		return nil
	}
	s.closed = true
	if err := s.head(); err != nil {
		return err
	}
	// length, its complement, payload, checksum
	n := len(s.buf)
	l := []byte{byte(n), byte(n >> 8), byte(n >> 16)}
	out := append(l, ^l[0], ^l[1], ^l[2])
	out = append(out, s.buf...)
	out = append(out, sumOf(s.buf))
	_, err := s.w.Write(out)
	return err
}

// model: compress/gzip.NewReader
func mGzNewReader(r io.Reader) (*gzip.Reader, error) {
	h := make([]byte, 2)
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	if h[0] != 0x1f || h[1] != 0x8b {
		return nil, errGzHead
	}
	s := &gzState{r: r}
	s.load()
	z := new(gzip.Reader)
	gzReaders[z] = s
	return z, nil
}

// sumOf stands for the CRC: any one changed byte changes it.
func sumOf(b []byte) byte {
	s := byte(7)
	for _, c := range b {
		s += c
	}
	return s
}

// load decodes as much as there is; err is what follows it.
func (s *gzState) load() {
	data, _ := io.ReadAll(s.r)
	for {
		if len(data) < 6 {
			s.err = io.ErrUnexpectedEOF
			return
		}
		if data[0] != ^data[3] || data[1] != ^data[4] || data[2] != ^data[5] {
			s.err = errGzSum
			return
		}
		n := int(data[0]) | int(data[1])<<8 | int(data[2])<<16
		data = data[6:]
		if n >= len(data) {
			s.buf = append(s.buf, data...)
			s.err = io.ErrUnexpectedEOF
			return
		}
		s.buf = append(s.buf, data[:n]...)
		if data[n] != sumOf(data[:n]) {
			s.err = errGzSum
			return
		}
		data = data[n+1:]
		if len(data) == 0 {
			s.err = io.EOF
			return
		}
		// trailing data must be another member
		if len(data) < 2 || data[0] != 0x1f || data[1] != 0x8b {
			s.err = errGzHead
			return
		}
		data = data[2:]
	}
}

// model: (*compress/gzip.Reader).Read
func mGzRead(z *gzip.Reader, b []byte) (int, error) {
	s := gzReaders[z]
	if s.pos >= len(s.buf) {
		return 0, s.err
	}
	n := copy(b, s.buf[s.pos:])
	s.pos += n
	return n, nil
}

// model: (*compress/gzip.Reader).Close
func mGzReaderClose(z *gzip.Reader) error {
	if s := gzReaders[z]; s.err != nil && s.err != io.EOF {
		return s.err
	}
	return nil
}

// ---- gob: framed structural encoding ----------------------------------------

var gobW = map[*gob.Encoder]io.Writer{}
var gobR = map[*gob.Decoder]io.Reader{}

// model: encoding/gob.NewEncoder
func mGobNewEncoder(w io.Writer) *gob.Encoder {
	e := new(gob.Encoder)
	gobW[e] = w
	return e
}

// model: encoding/gob.NewDecoder
func mGobNewDecoder(r io.Reader) *gob.Decoder {
	d := new(gob.Decoder)
	gobR[d] = r
	return d
}

// model: (*encoding/gob.Encoder).Encode
func mGobEncode(e *gob.Encoder, v any) error {
	b := ndEncode(v)
	n := len(b)
	if _, err := gobW[e].Write([]byte{0x47, byte(n), byte(n >> 8), byte(n >> 16)}); err != nil {
		return err
	}
	_, err := gobW[e].Write(b)
	return err
}

// model: (*encoding/gob.Decoder).Decode
func mGobDecode(d *gob.Decoder, p any) error {
	h := make([]byte, 4)
	if _, err := io.ReadFull(gobR[d], h); err != nil {
		return err
	}
	if h[0] != 0x47 {
		return errors.New("gob: bad message")
	}
	b := make([]byte, int(h[1])|int(h[2])<<8|int(h[3])<<16)
	if _, err := io.ReadFull(gobR[d], b); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return err
	}
	_, msg := ndDecodePtr(b, p)
	if msg != "" {
		return errors.New("gob: " + msg)
	}
	return nil
}

// ndDecodePtr strips the leading pointer marker an encoded pointer carries.
func ndDecodePtr(b []byte, p any) (int, string) {
	if len(b) > 0 && b[0] == 1 {
		return ndDecode(b[1:], p)
	}
	return ndDecode(b, p)
}

// ---- json: one structural record per line -----------------------------------

var jsonW = map[*json.Encoder]io.Writer{}
var jsonR = map[*json.Decoder]io.Reader{}

// model: encoding/json.Marshal
func mJSONMarshal(v any) ([]byte, error) {
	ndJSON(true)
	b := ndEncode(v)
	ndJSON(false)
	n := len(b)
	return append([]byte{'{', byte(n), byte(n >> 8), byte(n >> 16)}, b...), nil
}

// model: encoding/json.Unmarshal
func mJSONUnmarshal(b []byte, p any) error {
	if len(b) < 4 || b[0] != '{' {
		return errJSON
	}
	b = b[4:]
	ndJSON(true)
	rest, msg := ndDecodePtr(b, p)
	ndJSON(false)
	if msg != "" || rest > 1 || rest == 1 && b[len(b)-1] != '\n' {
		return errJSON
	}
	return nil
}

// model: encoding/json.NewEncoder
func mJSONNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	jsonW[e] = w
	return e
}

// model: (*encoding/json.Encoder).Encode
func mJSONEncode(e *json.Encoder, v any) error {
	b, _ := mJSONMarshal(v)
	_, err := jsonW[e].Write(append(b, '\n'))
	return err
}

// model: encoding/json.NewDecoder
func mJSONNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	jsonR[d] = r
	return d
}

// model: (*encoding/json.Decoder).Decode
func mJSONDecode(d *json.Decoder, p any) error {
	h := make([]byte, 4)
	for {
		if _, err := io.ReadFull(jsonR[d], h[:1]); err != nil {
			return err
		}
		if h[0] != '\n' {
			break
		}
	}
	if h[0] != '{' {
		return errJSON
	}
	if _, err := io.ReadFull(jsonR[d], h[1:]); err != nil {
		return io.ErrUnexpectedEOF
	}
	b := make([]byte, 4+(int(h[1])|int(h[2])<<8|int(h[3])<<16))
	copy(b, h)
	if _, err := io.ReadFull(jsonR[d], b[4:]); err != nil {
		return io.ErrUnexpectedEOF
	}
	return mJSONUnmarshal(b, p)
}

// model: (*encoding/json.Decoder).More
func mJSONMore(d *json.Decoder) bool {
	br, is := jsonR[d].(*jsonPeek)
	if !is {
		br = &jsonPeek{r: jsonR[d]}
		jsonR[d] = br
	}
	for {
		if !br.has {
			if _, err := io.ReadFull(br.r, br.b[:]); err != nil {
				return false
			}
			br.has = true
		}
		if br.b[0] != '\n' {
			return true
		}
		br.has = false
	}
}

type jsonPeek struct {
	r   io.Reader
	b   [1]byte
	has bool
}

func (j *jsonPeek) Read(p []byte) (int, error) {
	if j.has && len(p) > 0 {
		p[0] = j.b[0]
		j.has = false
		return 1, nil
	}
	return j.r.Read(p)
}

var (
	errJSON   = errors.New("invalid character in JSON")
	errGzSum  = gzip.ErrChecksum
	errGzHead = gzip.ErrHeader
)
