package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const harnessPkg = "internal/zzverif"

// Program is the SSA form of /repo plus harnesses, shared by all workers.
type Program struct {
	prog      *ssa.Program
	fset      *token.FileSet
	modPath   string
	mainPkg   *ssa.Package
	harness   *ssa.Package
	repoPkgs  []*ssa.Package
	fns       sync.Map
	pure      sync.Map
	methods   sync.Map
	impls     sync.Map
	byName    sync.Map
	rtErrType types.Type
	skipInit  map[string]bool
	gidx      map[*ssa.Global]int
	globals   []*ssa.Global
	models    map[string]*ssa.Function
	overlay   map[string][]byte
	dropped   []string
	notes     []string
	initOf    map[*ssa.Function]*ssa.Package
	pkgs      map[string]*ssa.Package
	bounds    map[string]string
	hinfo     []*HarnessInfo
}

func (p *Program) isRepoPkg(path string) bool {
	return (path == p.modPath || strings.HasPrefix(path, p.modPath+"/")) && !strings.HasSuffix(path, harnessPkg)
}

func (p *Program) globalIdx(g *ssa.Global) int {
	i, ok := p.gidx[g]
	if !ok {
		panic("unknown global " + g.String())
	}
	return i
}

func (p *Program) implements(t types.Type, it *types.Interface) bool {
	type key struct {
		t types.Type
		i *types.Interface
	}
	k := key{t, it}
	if v, ok := p.impls.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	p.impls.Store(k, r)
	return r
}

// findMethod looks up an exported method by name, or nil.
func (p *Program) findMethod(t types.Type, name string) *ssa.Function {
	type key struct {
		t types.Type
		n string
	}
	k := key{t, name}
	if v, ok := p.methods.Load(k); ok {
		return v.(*ssa.Function)
	}
	var fn *ssa.Function
	if sel := p.prog.MethodSets.MethodSet(t).Lookup(nil, name); sel != nil {
		fn = p.prog.MethodValue(sel)
	}
	p.methods.Store(k, fn)
	return fn
}

func (p *Program) pkg(path string) *ssa.Package { return p.pkgs[path] }

// fnByName resolves "pkg/path.Func".
func (p *Program) fnByName(name string) *cfn {
	if v, ok := p.byName.Load(name); ok {
		return v.(*cfn)
	}
	i := strings.LastIndexByte(name, '.')
	pk := p.pkg(name[:i])
	if pk == nil || pk.Func(name[i+1:]) == nil {
		panic("no function " + name)
	}
	c := p.cfn(pk.Func(name[i+1:]))
	p.byName.Store(name, c)
	return c
}

func (p *Program) namedType(pkg, name string) types.Type {
	pk := p.pkg(pkg)
	if pk == nil {
		panic("package not loaded: " + pkg)
	}
	return pk.Type(name).Type()
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (p *Program) modelFor(fn *ssa.Function) *ssa.Function {
	return p.models[fnName(fn)]
}

// ---- loading ----------------------------------------------------------------

// LoadOverlay builds the overlay: harness files plus bound-reducing constant rewrites.
func buildOverlay(repo, hdir string, skip map[string]bool) (map[string][]byte, map[string]string, error) {
	ov := map[string][]byte{}
	bounds := map[string]string{}
	add := func(dir, dst string) error {
		ents, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || skip[e.Name()] {
				continue
			}
			b, err := os.ReadFile(filepath.Join(dir, e.Name()))
			if err != nil {
				return err
			}
			ov[filepath.Join(dst, e.Name())] = b
		}
		return nil
	}
	if err := add(filepath.Join(hdir, "zzverif"), filepath.Join(repo, harnessPkg)); err != nil {
		return nil, nil, err
	}
	if err := add(filepath.Join(hdir, "zzmain"), repo); err != nil {
		return nil, nil, err
	}
	rewriteConst(repo, "chunkSize", "2", ov, bounds)
	ov[filepath.Join(repo, harnessPkg, "zz_registry.go")] = registrySrc(ov)
	return ov, bounds, nil
}

// registrySrc lists the harness functions for the native build.
func registrySrc(ov map[string][]byte) []byte {
	var names []string
	for path, src := range ov {
		if !strings.HasPrefix(filepath.Base(path), "h_") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, src, parser.ParseComments)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil && fd.Recv == nil {
				for _, c := range fd.Doc.List {
					if _, ok := directive(c.Text, "h:"); ok {
						names = append(names, fd.Name.Name)
					}
				}
			}
		}
	}
	sort.Strings(names)
	var b bytes.Buffer
	b.WriteString("package zzverif\n\nfunc init() {\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\tregistry[%q] = %s\n", n, n)
	}
	b.WriteString("}\n")
	return b.Bytes()
}

// nativeClock rewrites time.Now() in repository code to read the clock of the harness.
func nativeClock(repo string, ov map[string][]byte) map[string][]byte {
	r := map[string][]byte{}
	for k, v := range ov {
		r[k] = v
	}
	dirs := map[string]string{}
	filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || strings.Contains(path, harnessPkg) {
			return nil
		}
		src, ok := ov[path]
		if !ok {
			if src, err = os.ReadFile(path); err != nil {
				return nil
			}
		}
		if !bytes.Contains(src, []byte("time.Now()")) {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, src, parser.PackageClauseOnly)
		if err != nil {
			return nil
		}
		src = bytes.ReplaceAll(src, []byte("time.Now()"), []byte("zzNow()"))
		r[path] = append(src, []byte("\nvar _ = time.Now\n")...)
		dirs[filepath.Dir(path)] = f.Name.Name
		return nil
	})
	for d, n := range dirs {
		r[filepath.Join(d, "zz_now.go")] = []byte("package " + n + `

import (
	"os"
	"strconv"
	"time"
)

func zzNow() time.Time {
	if s := os.Getenv("ZZVERIF_NOW"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return time.Unix(n, 0)
		}
	}
	return time.Now()
}
`)
	}
	return r
}

// rewriteConst replaces the literal value of a package-level int constant everywhere it is declared.
func rewriteConst(repo, name, val string, ov map[string][]byte, bounds map[string]string) {
	filepath.Walk(filepath.Join(repo, "internal"), func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil || !bytes.Contains(src, []byte(name)) {
			return nil
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
		if err != nil {
			return nil
		}
		done := false
		ast.Inspect(f, func(n ast.Node) bool {
			gd, ok := n.(*ast.GenDecl)
			if !ok || (gd.Tok != token.CONST && gd.Tok != token.VAR) {
				return true
			}
			for _, s := range gd.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, id := range vs.Names {
					if id.Name == name && i < len(vs.Values) {
						if lit, ok := vs.Values[i].(*ast.BasicLit); ok && lit.Kind == token.INT {
							bounds[name] = fmt.Sprintf("%s (%s) reduced from %s to %s", name, strings.TrimPrefix(path, repo+"/"), lit.Value, val)
							lit.Value = val
							done = true
						}
					}
				}
			}
			return true
		})
		if done {
			var b bytes.Buffer
			if format.Node(&b, fs, f) == nil {
				ov[path] = b.Bytes()
			}
		}
		return nil
	})
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
}

// Load type-checks /repo with the harness overlay and builds SSA. Harness files
// that do not type-check against the tree are dropped and reported.
func Load(repo, hdir string) (*Program, error) {
	skip := map[string]bool{}
	var dropped []string
	for try := 0; try < 12; try++ {
		ov, bounds, err := buildOverlay(repo, hdir, skip)
		if err != nil {
			return nil, err
		}
		cfg := &packages.Config{
			Mode:    packages.LoadAllSyntax | packages.NeedModule,
			Dir:     repo,
			Overlay: ov,
			Env:     goEnv(),
		}
		pk, err := packages.Load(cfg, ".", "./"+harnessPkg)
		if err != nil {
			return nil, err
		}
		var bad []string
		var other []string
		packages.Visit(pk, nil, func(q *packages.Package) {
			for _, e := range q.Errors {
				f := e.Pos
				if i := strings.IndexByte(f, ':'); i > 0 {
					f = f[:i]
				}
				if strings.Contains(f, "/"+harnessPkg+"/h_") {
					bad = append(bad, filepath.Base(f)+": "+e.Msg)
				} else {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) > 0 {
			for _, b := range bad {
				f := b[:strings.IndexByte(b, ':')]
				if !skip[f] {
					dropped = append(dropped, b)
				}
				skip[f] = true
			}
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("loading: %s", strings.Join(append(other, dropped...), "\n"))
		}
		p, err := newProgram(pk)
		if err != nil {
			return nil, err
		}
		p.overlay, p.bounds, p.dropped = ov, bounds, dropped
		return p, nil
	}
	return nil, fmt.Errorf("harness does not type-check: %v", dropped)
}

var noInit = []string{
	"runtime", "reflect", "log", "net", "testing", "unique", "weak", "internal/reflectlite", "internal/godebug",
	"encoding/gob", "internal/poll", "internal/syscall/unix", "golang.org/x/sys/unix", "internal/testlog", "vendor/golang.org/x/sys/cpu",
	"embed", "html", "plugin", "internal/abi", "internal/cpu", "internal/godebugs", "internal/sysinfo", "maps", "internal/sync",
}

func newProgram(pk []*packages.Package) (*Program, error) {
	prog, pkgs := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fset: prog.Fset, gidx: map[*ssa.Global]int{}, models: map[string]*ssa.Function{},
		skipInit: map[string]bool{}, initOf: map[*ssa.Function]*ssa.Package{}, pkgs: map[string]*ssa.Package{}}
	for i, q := range pk {
		if strings.HasSuffix(q.PkgPath, harnessPkg) {
			p.harness = pkgs[i]
		} else if q.Name == "main" {
			p.mainPkg = pkgs[i]
			p.modPath = q.Module.Path
		}
	}
	if p.harness == nil || p.mainPkg == nil {
		return nil, fmt.Errorf("main or harness package missing")
	}
	for _, q := range prog.AllPackages() {
		path := q.Pkg.Path()
		p.pkgs[path] = q
		if f := q.Func("init"); f != nil {
			p.initOf[f] = q
		}
		var names []string
		for n := range q.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := q.Members[n].(*ssa.Global); ok {
				p.gidx[g] = len(p.globals)
				p.globals = append(p.globals, g)
			}
		}
		for _, s := range noInit {
			if path == s {
				p.skipInit[path] = true
			}
		}
		for _, pre := range []string{"internal/runtime/", "log/", "crypto", "net/", "compress/", "reflect/", "testing/", "internal/testlog", "hash/crc", "vendor/"} {
			if strings.HasPrefix(path, pre) && path != "compress/gzip" { // for its errors
				p.skipInit[path] = true
			}
		}
		if p.isRepoPkg(path) {
			p.repoPkgs = append(p.repoPkgs, q)
		}
	}
	sort.Slice(p.repoPkgs, func(i, j int) bool { return p.repoPkgs[i].Pkg.Path() < p.repoPkgs[j].Pkg.Path() })
	p.rtErrType = p.namedType("runtime", "errorString")
	// model directives
	docs := map[string]*ast.FuncDecl{}
	for _, q := range pk {
		if !strings.HasSuffix(q.PkgPath, harnessPkg) {
			continue
		}
		for _, f := range q.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				docs[fd.Name.Name] = fd
				for _, c := range fd.Doc.List {
					if s, ok := directive(c.Text, "model:"); ok {
						fn := p.harness.Func(fd.Name.Name)
						if fn == nil {
							return nil, fmt.Errorf("model %s missing", fd.Name.Name)
						}
						p.models[strings.TrimSpace(s)] = fn
					}
				}
			}
		}
	}
	p.hinfo = p.harnesses(docs)
	return p, nil
}

// directive recognises "//name:" comments, with or without gofmt's space.
func directive(text, name string) (string, bool) {
	s, ok := strings.CutPrefix(text, "//")
	if !ok {
		return "", false
	}
	return strings.CutPrefix(strings.TrimLeft(s, " "), name)
}

// newMachine creates a worker's machine.
func (p *Program) newMachine(id int, ex *Explorer) *Machine {
	m := &Machine{id: id, P: p, ex: ex, tc: NewTermCtx(), maxStep: 1 << 40,
		pkgInit: map[*ssa.Package]int{}, pcSet: map[*Term]bool{}, notes: map[string]bool{},
		reached: map[string]bool{}, mcache: map[mkey]*cfn{}, side: map[any]any{}, fnSeen: map[*cfn]bool{}}
	m.sol = NewSolver(m.tc, &m.st)
	m.globals = make([]V, len(p.globals))
	for i, g := range p.globals {
		m.globals[i] = zero(g.Type().(*types.Pointer).Elem())
	}
	return m
}
