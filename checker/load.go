package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/c2FmZQ/tlsproxy"

var repoDir = "/repo"

// Variant is one build configuration of the repository.
type Variant struct {
	Name   string
	Tags   string
	GOOS   string
	GOARCH string
}

var (
	vDefault = Variant{Name: "default", GOOS: "linux", GOARCH: "amd64"}
	vNoQuic  = Variant{Name: "noquic,pprof", Tags: "noquic,pprof", GOOS: "linux", GOARCH: "amd64"}
	vWasm    = Variant{Name: "js/wasm", GOOS: "js", GOARCH: "wasm"}
	vWindows = Variant{Name: "windows", GOOS: "windows", GOARCH: "amd64"}
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	DepOnly    bool
	Module     *struct{ Path, GoVersion string }
	Error      *struct{ Err string }
}

// Prog is the type-checked program of one variant; the module's own packages
// have syntax and SSA bodies, the dependencies only types.
type Prog struct {
	Variant Variant
	Fset    *token.FileSet
	Pkgs    map[string]*types.Package
	Infos   map[string]*types.Info
	Files   map[string][]*ast.File
	ModPkgs []string
	SSA     *ssa.Program
	SPkgs   map[string]*ssa.Package
	Funcs   []*ssa.Function // every function with a body in the module, incl. closures
	fnSet   map[*ssa.Function]bool
	idx     *index
	tags    map[*types.Var]string
}

func goBin() (bin, goroot string) {
	if _, err := os.Stat("/opt/veriftools/go1.24.13/bin/go"); err == nil {
		return "/opt/veriftools/go1.24.13/bin/go", "/opt/veriftools/go1.24.13"
	}
	p, _ := exec.LookPath("go")
	return p, ""
}

func listPackages(v Variant) ([]*listPkg, error) {
	bin, goroot := goBin()
	args := []string{"list", "-e", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Imports,ImportMap,Standard,DepOnly,Module,Error"}
	if v.Tags != "" {
		args = append(args, "-tags", v.Tags)
	}
	if v.GOOS == "js" {
		args = append(args, "./proxy/internal/pki/clientwasm/...", "./proxy/internal/pki/keys/...")
	} else {
		args = append(args, "./...")
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = repoDir
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOOS", "GOARCH", "GOROOT", "GOTOOLCHAIN", "GOPROXY", "CGO_ENABLED", "GOWORK", "GOEXPERIMENT":
		default:
			env = append(env, e)
		}
	}
	env = append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOOS="+v.GOOS, "GOARCH="+v.GOARCH, "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off")
	if goroot != "" {
		env = append(env, "GOROOT="+goroot)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	cmd.Env = env
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list (%s): %v\n%s", v.Name, err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var res []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		res = append(res, &p)
	}
	return res, nil
}

// Load type-checks and builds SSA for one variant of the repository.
func Load(v Variant) (*Prog, error) {
	list, err := listPackages(v)
	if err != nil {
		return nil, err
	}
	p := &Prog{
		Variant: v,
		Fset:    token.NewFileSet(),
		Pkgs:    map[string]*types.Package{"unsafe": types.Unsafe},
		Infos:   map[string]*types.Info{},
		Files:   map[string][]*ast.File{},
		SPkgs:   map[string]*ssa.Package{},
	}
	byPath := map[string]*listPkg{}
	for _, lp := range list {
		byPath[lp.ImportPath] = lp
	}
	type node struct {
		lp   *listPkg
		deps []*node
		done chan struct{}
		err  error
	}
	nodes := map[string]*node{}
	for _, lp := range list {
		if lp.ImportPath == "unsafe" || lp.ImportPath == "C" {
			continue
		}
		nodes[lp.ImportPath] = &node{lp: lp, done: make(chan struct{})}
	}
	resolve := func(lp *listPkg, imp string) string {
		if m, ok := lp.ImportMap[imp]; ok {
			return m
		}
		return imp
	}
	for _, n := range nodes {
		for _, i := range n.lp.Imports {
			if d := nodes[resolve(n.lp, i)]; d != nil {
				n.deps = append(n.deps, d)
			}
		}
	}
	var mu sync.Mutex
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	sizes := types.SizesFor("gc", v.GOARCH)
	for _, n := range nodes {
		wg.Add(1)
		go func(n *node) {
			defer wg.Done()
			defer close(n.done)
			for _, d := range n.deps {
				<-d.done
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			inMod := isModPath(n.lp.ImportPath)
			if inMod && n.lp.Error != nil && !strings.Contains(n.lp.Error.Err, "no matching files found") {
				n.err = fmt.Errorf("%s: %s", n.lp.ImportPath, n.lp.Error.Err)
				return
			}
			var files []*ast.File
			for _, f := range n.lp.GoFiles {
				mode := parser.SkipObjectResolution
				if inMod {
					mode |= parser.ParseComments
				}
				af, err := parser.ParseFile(p.Fset, filepath.Join(n.lp.Dir, f), nil, mode)
				if err != nil {
					n.err = err
					return
				}
				files = append(files, af)
			}
			info := &types.Info{}
			if inMod {
				info = &types.Info{
					Types:        map[ast.Expr]types.TypeAndValue{},
					Defs:         map[*ast.Ident]types.Object{},
					Uses:         map[*ast.Ident]types.Object{},
					Implicits:    map[ast.Node]types.Object{},
					Instances:    map[*ast.Ident]types.Instance{},
					Scopes:       map[ast.Node]*types.Scope{},
					Selections:   map[*ast.SelectorExpr]*types.Selection{},
					FileVersions: map[*ast.File]string{},
				}
			}
			var errs []error
			goVer := ""
			if n.lp.Module != nil && n.lp.Module.GoVersion != "" {
				goVer = "go" + n.lp.Module.GoVersion
			}
			conf := types.Config{
				IgnoreFuncBodies: !inMod,
				FakeImportC:      true,
				Sizes:            sizes,
				GoVersion:        goVer,
				Error:            func(e error) { errs = append(errs, e) },
				Importer: importerFunc(func(path string) (*types.Package, error) {
					path = resolve(n.lp, path)
					mu.Lock()
					defer mu.Unlock()
					if tp := p.Pkgs[path]; tp != nil {
						return tp, nil
					}
					return nil, fmt.Errorf("package %q not loaded", path)
				}),
			}
			tp, _ := conf.Check(n.lp.ImportPath, p.Fset, files, info)
			if inMod && len(errs) > 0 {
				n.err = fmt.Errorf("type-check %s: %v", n.lp.ImportPath, errs[0])
			}
			mu.Lock()
			p.Pkgs[n.lp.ImportPath] = tp
			if inMod {
				p.Infos[n.lp.ImportPath] = info
				p.Files[n.lp.ImportPath] = files
				p.ModPkgs = append(p.ModPkgs, n.lp.ImportPath)
			}
			mu.Unlock()
		}(n)
	}
	wg.Wait()
	for _, n := range nodes {
		if n.err != nil {
			return nil, n.err
		}
	}
	sort.Strings(p.ModPkgs)
	if len(p.ModPkgs) == 0 {
		return nil, fmt.Errorf("no packages of %s found in %s", modPath, repoDir)
	}
	p.SSA = ssa.NewProgram(p.Fset, ssa.InstantiateGenerics)
	var paths []string
	for path := range p.Pkgs {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		tp := p.Pkgs[path]
		if path == "unsafe" || tp == nil {
			continue
		}
		if isModPath(path) {
			p.SPkgs[path] = p.SSA.CreatePackage(tp, p.Files[path], p.Infos[path], true)
		} else {
			p.SSA.CreatePackage(tp, nil, nil, true)
		}
	}
	for _, path := range p.ModPkgs {
		p.SPkgs[path].Build()
	}
	p.collectFuncs()
	p.idx = buildIndex(p)
	return p, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

func isModPath(path string) bool {
	return (path == modPath || strings.HasPrefix(path, modPath+"/")) && !strings.HasPrefix(path, modPath+"/examples/")
}

// inModule reports whether the function has source in the module.
func inModule(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Pkg != nil {
		return isModPath(fn.Pkg.Pkg.Path())
	}
	if fn.Parent() != nil {
		return inModule(fn.Parent())
	}
	if o := fn.Origin(); o != nil && o != fn {
		return inModule(o)
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return isModPath(fn.Object().Pkg().Path())
	}
	return false
}

func (p *Prog) collectFuncs() {
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil || !inModule(fn) {
			return
		}
		seen[fn] = true
		p.Funcs = append(p.Funcs, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
		// instantiated generics and synthetic wrappers reached from here
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
					}
				}
			}
		}
	}
	for _, path := range p.ModPkgs {
		sp := p.SPkgs[path]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				named, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				if named.TypeParams().Len() > 0 {
					continue
				}
				for _, t := range []types.Type{named, types.NewPointer(named)} {
					ms := p.SSA.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if mobj, ok := ms.At(i).Obj().(*types.Func); ok && mobj.Pkg() != nil && mobj.Pkg() == sp.Pkg {
							add(p.SSA.FuncValue(mobj))
						}
					}
				}
			}
		}
	}
	p.fnSet = seen
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// Pkg finds a module package by its path suffix ("proxy", "proxy/internal/pki").
func (p *Prog) Pkg(suffix string) *types.Package {
	if suffix == "" {
		return p.Pkgs[modPath]
	}
	return p.Pkgs[modPath+"/"+suffix]
}
