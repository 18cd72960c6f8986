package main

// Loading: every package of /repo that is needed is parsed and type checked from its current
// source, standard-library packages come from compiler export data, and the whole is lowered
// by golang.org/x/tools/go/ssa in naive form (no lifting, no optimisation).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/vipally/gx"

type Loader struct {
	Fset   *token.FileSet
	Prog   *ssa.Program
	Pkgs   map[string]*types.Package // source packages
	SSA    map[string]*ssa.Package
	Files  map[string][]*ast.File
	Infos  map[string]*types.Info
	export map[string]string
	list   map[string]*listPkg
	gc     types.Importer
}

type listPkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	CompiledGoFiles         []string
	CgoFiles                []string
	Standard                bool
	Imports                 []string
	Error                   *struct{ Err string }
}

func goCmd(gopath string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	dir := filepath.Join(gopath, "src", modPath)
	c.Dir = dir
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOPATH", "GO111MODULE", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOWORK", "PWD", "GOROOT":
			continue
		}
		env = append(env, e)
	}
	c.Env = append(env, "GOPATH="+gopath, "GO111MODULE=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOWORK=off", "PWD="+dir)
	return c
}

func Load(gopath string, pkgs []string) (*Loader, error) {
	ld := &Loader{Fset: token.NewFileSet(), Pkgs: map[string]*types.Package{}, SSA: map[string]*ssa.Package{},
		Files: map[string][]*ast.File{}, Infos: map[string]*types.Info{}, export: map[string]string{}, list: map[string]*listPkg{}}
	args := append([]string{"list", "-e", "-export", "-deps", "-compiled", "-json=ImportPath,Dir,Export,GoFiles,CompiledGoFiles,CgoFiles,Standard,Imports,Error"}, pkgs...)
	c := goCmd(gopath, args...)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Run(); err != nil && out.Len() == 0 {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	dec := json.NewDecoder(&out)
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		q := p
		ld.list[p.ImportPath] = &q
		if p.Standard {
			if _, err := os.Stat(filepath.Join(gopath, "src", modPath, p.ImportPath)); err == nil {
				stdTwins[p.ImportPath] = true
			}
		}
		if p.Export != "" {
			ld.export[p.ImportPath] = p.Export
		}
	}
	ld.gc = importer.ForCompiler(ld.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := ld.export[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	ld.Prog = ssa.NewProgram(ld.Fset, ssa.NaiveForm|ssa.GlobalDebug|ssa.InstantiateGenerics)
	var roots []string
	for _, p := range pkgs {
		roots = append(roots, p)
	}
	for _, p := range roots {
		if _, err := ld.Import(p); err != nil {
			return nil, err
		}
	}
	// SSA packages: imported std first (no bodies), then source packages
	created := map[*types.Package]bool{}
	var create func(tp *types.Package)
	create = func(tp *types.Package) {
		if created[tp] {
			return
		}
		created[tp] = true
		for _, q := range tp.Imports() {
			create(q)
		}
		if fs, ok := ld.Files[tp.Path()]; ok && ld.Pkgs[tp.Path()] == tp {
			ld.SSA[tp.Path()] = ld.Prog.CreatePackage(tp, fs, ld.Infos[tp.Path()], true)
		} else {
			ld.Prog.CreatePackage(tp, nil, nil, true)
		}
	}
	var names []string
	for n := range ld.Pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		create(ld.Pkgs[n])
	}
	for _, n := range names {
		ld.SSA[n].Build()
	}
	return ld, nil
}

func (ld *Loader) Import(path string) (*types.Package, error) {
	if p, ok := ld.Pkgs[path]; ok {
		return p, nil
	}
	lp := ld.list[path]
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if lp == nil || lp.Standard {
		return ld.gc.Import(path)
	}
	var files []*ast.File
	// a package using cgo: the Go files the cgo tool generates from its current source are what is compiled
	if len(lp.CgoFiles) > 0 {
		lp.GoFiles = lp.CompiledGoFiles
	}
	if len(lp.GoFiles) == 0 {
		return nil, fmt.Errorf("package %s: no Go files (%v)", path, lp.Error)
	}
	for _, f := range lp.GoFiles {
		fp := f
		if !filepath.IsAbs(fp) {
			fp = filepath.Join(lp.Dir, f)
		}
		af, err := parser.ParseFile(ld.Fset, fp, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	conf := types.Config{Importer: ld, Sizes: types.SizesFor("gc", "amd64")}
	tp, err := conf.Check(path, ld.Fset, files, info)
	if err != nil {
		return nil, err
	}
	ld.Pkgs[path] = tp
	ld.Files[path] = files
	ld.Infos[path] = info
	return tp, nil
}

// FindFunc finds a function by package and key "Name" or "Type.Name" (methods on T or *T).
func (ld *Loader) FindFunc(pkg, key string) *ssa.Function {
	sp := ld.SSA[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(key, '.'); i >= 0 {
		tn, mn := key[:i], key[i+1:]
		o := sp.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		nt, ok := o.Type().(*types.Named)
		if !ok {
			return nil
		}
		for i := 0; i < nt.NumMethods(); i++ {
			if m := nt.Method(i); m.Name() == mn {
				return ld.Prog.FuncValue(m)
			}
		}
		return nil
	}
	return sp.Func(key)
}

func funcKey(fn *ssa.Function) (pkg, key string) {
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pkg, n.Obj().Name() + "." + fn.Name()
		}
	}
	return pkg, fn.Name()
}

func namedMethods(ld *Loader, m *ssa.Type) []*ssa.Function {
	var out []*ssa.Function
	if n, ok := types.Unalias(m.Type()).(*types.Named); ok {
		for i := 0; i < n.NumMethods(); i++ {
			if f := ld.Prog.FuncValue(n.Method(i)); f != nil {
				out = append(out, f)
			}
		}
	}
	return out
}
