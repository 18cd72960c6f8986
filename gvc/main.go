package main

// gvc: contract-based deductive verifier for the Go code in /repo.
//
//	gvc verify -gopath DIR -contracts DIR -prop C01 -json out.json

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblOut struct {
	Fn     string            `json:"function"`
	Label  string            `json:"obligation"`
	Pos    string            `json:"pos,omitempty"`
	Path   string            `json:"path,omitempty"`
	Result string            `json:"result"`
	Solver string            `json:"solver,omitempty"`
	Secs   float64           `json:"secs"`
	Note   string            `json:"note,omitempty"`
	Model  map[string]string `json:"model,omitempty"`
	Dump   string            `json:"dump,omitempty"`
}

type Report struct {
	Prop        string             `json:"property"`
	OK          bool               `json:"ok"`
	Error       string             `json:"error,omitempty"`
	Functions   []string           `json:"functions"`
	Inlined     []string           `json:"inlined"`
	Lemmas      []string           `json:"lemmas"`
	Axioms      []string           `json:"axioms"`
	Externs     []string           `json:"externs"`
	Assumed     []string           `json:"assumed"`
	Notes       []string           `json:"notes"`
	Obligations int                `json:"obligations"`
	Discharged  int                `json:"discharged"`
	BySolver    map[string]int     `json:"by_solver"`
	SolverSecs  map[string]float64 `json:"solver_secs"`
	ByFunction  map[string]int     `json:"by_function"`
	Failed      []OblOut           `json:"failed"`
	Slowest     []OblOut           `json:"slowest"`
	Wall        float64            `json:"wall_s"`
}

type fnRun struct {
	c  *Contract
	fn *ssa.Function
	vm *VM
}

type Driver struct {
	fns     []fnRun
	spec    *Spec
	ld      *Loader
	obls    []*Obligation
	done    map[string]bool
	rep     *Report
	inl     map[string]bool
	lem     map[string]bool
	ext     map[string]bool
	asm     map[string]bool
	pkgs    map[string]bool
	notes   []string
	verbose bool
	prop    string
	run     *Runner
	dump    string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gvc verify|ssa ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		verifyMain(os.Args[2:])
	case "locals":
		localsMain(os.Args[2:])
	case "ssa":
		ssaMain(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func ssaMain(args []string) {
	fs := flag.NewFlagSet("ssa", flag.ExitOnError)
	gopath := fs.String("gopath", "", "")
	pkg := fs.String("pkg", "", "")
	fn := fs.String("fn", "", "")
	fs.Parse(args)
	ld, err := Load(*gopath, []string{*pkg})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f := ld.FindFunc(*pkg, *fn)
	if f == nil {
		fmt.Println("not found")
		return
	}
	f.WriteTo(os.Stdout)
}

func verifyMain(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	gopath := fs.String("gopath", "", "GOPATH whose src/"+modPath+" is the tree to verify")
	cdir := fs.String("contracts", "", "directory of .spec files")
	prop := fs.String("prop", "", "property id")
	only := fs.String("fn", "", "verify only this function")
	jsonOut := fs.String("json", "", "report file")
	quick := fs.Int("t1", 3, "first stage seconds")
	long := fs.Int("t2", 20, "second stage seconds")
	par := fs.Int("par", 8, "parallel solver processes")
	dump := fs.String("dump", "", "directory for the queries of failed obligations")
	seed := fs.Int("seed", 0, "solver seed")
	deadline := fs.Int("deadline", 0, "seconds after which what is left counts as not discharged")
	verbose := fs.Bool("v", false, "verbose")
	fs.Parse(args)
	t0 := time.Now()
	rep := &Report{Prop: *prop, BySolver: map[string]int{}, ByFunction: map[string]int{}}
	finish := func(code int) {
		rep.Wall = time.Since(t0).Seconds()
		b, _ := json.MarshalIndent(rep, "", " ")
		if *jsonOut != "" {
			os.WriteFile(*jsonOut, b, 0644)
		}
		os.Exit(code)
	}
	fail := func(err error) {
		rep.Error = err.Error()
		fmt.Fprintln(os.Stderr, "gvc:", err)
		finish(3)
	}
	spec := NewSpec()
	spec.Prop = *prop
	files, _ := filepath.Glob(filepath.Join(*cdir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := spec.ParseFile(f); err != nil {
			fail(err)
		}
	}
	spec.loadBaseline(*cdir)
	var targets []string
	pkgs := map[string]bool{}
	for _, id := range spec.Order {
		c := spec.Contracts[id]
		for _, p := range c.Props {
			if (*prop == "all" || p == *prop) && !c.Extern && !c.Iface {
				if *only == "" || c.Key == *only {
					targets = append(targets, id)
				}
				pkgs[c.Pkg] = true
			}
		}
	}
	for _, c := range spec.Checks {
		for _, p := range c.Props {
			if p == *prop {
				pkgs[c.Pkg] = true
			}
		}
	}
	var plist []string
	for p := range pkgs {
		plist = append(plist, p)
	}
	sort.Strings(plist)
	if len(plist) == 0 {
		fail(fmt.Errorf("no contract for property %s", *prop))
	}
	ld, err := Load(*gopath, plist)
	if err != nil {
		fail(err)
	}
	d := &Driver{prop: *prop, spec: spec, ld: ld, done: map[string]bool{}, rep: rep, inl: map[string]bool{}, lem: map[string]bool{}, ext: map[string]bool{}, asm: map[string]bool{}, pkgs: map[string]bool{}, verbose: *verbose}
	d.run = NewRunner(*par, *quick, *long)
	d.run.seed = *seed
	if *deadline > 0 {
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(*deadline)*time.Second)
		defer cancel()
		d.run.ctx = ctx
	}
	d.dump = *dump
	if *dump != "" {
		os.MkdirAll(*dump, 0755)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if se, ok := r.(specErr); ok {
					fail(fmt.Errorf("contracts: %s", se.msg))
				}
				panic(r)
			}
		}()
		d.adoptRenamed()
		d.verifyAll(targets, *only != "")
		d.lemmas()
		if *only == "" {
			d.globals()
			d.tables(*prop)
		}
		d.run.All(spec, d.obls, *dump)
		d.retry()
	}()
	d.report()
	rep.SolverSecs = map[string]float64{}
	for k, v := range d.run.secs {
		rep.SolverSecs[k] = v
	}
	if !rep.OK {
		for i := range rep.Failed {
			f := &rep.Failed[i]
			fmt.Printf("FAILED %s: %s at %s [%s] path %s %s %v\n", f.Fn, f.Label, f.Pos, f.Result, f.Path, f.Note, f.Model)
		}
		fmt.Printf("%s: %d of %d obligations discharged\n", *prop, rep.Discharged, rep.Obligations)
		finish(1)
	}
	fmt.Printf("%s: all %d obligations discharged over %d functions, %d lemmas (%.1fs)\n", *prop, rep.Obligations, len(rep.Functions), len(rep.Lemmas), time.Since(t0).Seconds())
	finish(0)
}

func (d *Driver) verifyAll(targets []string, noTrans bool) {
	work := append([]string(nil), targets...)
	for len(work) > 0 {
		id := work[0]
		work = work[1:]
		if d.done[id] {
			continue
		}
		d.done[id] = true
		c := d.spec.Contracts[id]
		if c.Extern || c.Iface {
			d.ext[strings.TrimPrefix(id, modPath+"/")] = true
			continue
		}
		fn := d.ld.FindFunc(c.Pkg, c.Key)
		if fn == nil {
			if !token.IsExported(c.Key[strings.LastIndexByte(c.Key, '.')+1:]) {
				d.notes = append(d.notes, "unexported function "+c.Key+" no longer exists; its callers are verified without it")
				continue
			}
			d.obls = append(d.obls, &Obligation{Fn: c.Key, Label: "contract-applies: function not found", Goal: False, Kind: "subset"})
			continue
		}
		d.pkgs[c.Pkg] = true
		vm := d.verifyFn(c, fn)
		if !noTrans {
			for _, u := range sortedKeys(vm.used) {
				work = append(work, u)
			}
		} else {
			for _, u := range sortedKeys(vm.used) {
				if d.spec.Contracts[u].Extern || d.spec.Contracts[u].Iface {
					work = append(work, u)
				}
			}
		}
	}
}

func (d *Driver) verifyFn(c *Contract, fn *ssa.Function) *VM {
	vm := NewVM(d.ld, d.spec, c, fn)
	vm.Run()
	d.take(vm, c)
	d.fns = append(d.fns, fnRun{c, fn, vm})
	d.rep.Functions = append(d.rep.Functions, strings.TrimPrefix(c.Pkg, modPath+"/")+"."+c.Key)
	return vm
}

func (d *Driver) take(vm *VM, c *Contract) {
	obls := vm.obls
	if len(vm.exitCover) > 0 {
		obls = append(obls, vm.exitCover...)
	}
	for n := range c.Loops {
		_ = n
	}
	d.obls = append(d.obls, obls...)
	for k := range vm.inlined {
		d.inl[k] = true
	}
	for k := range vm.assumed {
		d.asm[k] = true
	}
	for _, u := range c.Uses {
		d.lem[u] = true
	}
	for _, u := range c.applied() {
		d.lem[u] = true
	}
	d.rep.ByFunction[c.Key] += len(vm.obls)
}

// lemmas: prove every lemma relied upon.
func (d *Driver) lemmas() {
	done := map[string]bool{}
	ord := map[string]int{}
	for i, n := range d.spec.LemmaOrd {
		ord[n] = i
	}
	for {
		var next []string
		for n := range d.lem {
			if !done[n] {
				next = append(next, n)
			}
		}
		if len(next) == 0 {
			return
		}
		sort.Strings(next)
		for _, n := range next {
			done[n] = true
			l := d.spec.Lemmas[n]
			if l == nil {
				panic(specErr{"unknown lemma " + n})
			}
			for _, u := range append(append([]string(nil), l.Uses...), applied(l.Hints)...) {
				if d.spec.Lemmas[u] == nil {
					panic(specErr{"unknown lemma " + u})
				}
				if ord[u] >= ord[n] && !d.spec.Lemmas[u].Axiom {
					panic(specErr{"lemma " + n + " uses the later lemma " + u})
				}
				d.lem[u] = true
			}
			if l.Axiom {
				continue
			}
			d.rep.Lemmas = append(d.rep.Lemmas, n)
			d.lemma(l)
		}
	}
}

func (d *Driver) lemma(l *Lemma) {
	c := &Contract{Pkg: l.Pkg, Key: "lemma " + l.Name, Uses: l.Uses, Flags: map[string]bool{}, Opts: map[string]string{}, Loops: map[int]*LoopSpec{}}
	vm := NewVM(d.ld, d.spec, c, nil)
	vm.pkg = l.Pkg
	st := &State{lits: map[string]bool{}, heap: map[string]*Term{}, cells: map[int]Cell{}, alloc: Sym("alloc0", SInt)}
	names := map[string]TV{}
	e := &SEnv{vm: vm, st: st, heap: st.heap, alloc: st.alloc, names: names, pkg: l.Pkg, cells: st.cells}
	for _, v := range l.Vars {
		t := Sym("p:"+v.Name, v.T.sort())
		names[v.Name] = TV{V: VTerm{t}, T: e.typeOf(v.T, &Expr{}), S: v.T}
	}
	for _, r := range l.Requires {
		st.assume(e.boolE(r.E))
	}
	if l.Induct != "" {
		cur := names[l.Induct].V.(VTerm).T
		ihBody := func(env *SEnv) *Term {
			v := env.ident(&Expr{K: "id", Name: l.Induct}).V.(VTerm).T
			hy := And(Le(Num(0), v), Lt(v, cur))
			for _, r := range l.Requires {
				hy = And(hy, env.boolE(r.E))
			}
			var en []*Term
			for _, x := range l.Ensures {
				en = append(en, env.boolE(x.E))
			}
			return Implies(hy, And(en...))
		}
		if len(l.IHArgs) > 0 {
			for _, as := range l.IHArgs {
				if len(as) != len(l.Vars) {
					panic(specErr{"lemma " + l.Name + ": ih needs one argument per variable"})
				}
				env := *e
				env.bound = map[string]TV{}
				for i, v := range l.Vars {
					a := e.eval(as[i])
					a.S = v.T
					env.bound[v.Name] = a
				}
				st.assume(ihBody(&env))
			}
		} else {
			env := *e
			env.bound = map[string]TV{}
			var vs []*Term
			for _, v := range l.Vars {
				b := Bound(v.Name+"?ih", v.T.sort())
				vs = append(vs, b)
				env.bound[v.Name] = TV{V: VTerm{b}, T: e.typeOf(v.T, &Expr{}), S: v.T}
			}
			var pats [][]*Term
			for _, p := range l.Pats {
				var ts []*Term
				for _, x := range p {
					ts = append(ts, vm.flattenTV(env.eval(x))...)
				}
				pats = append(pats, ts)
			}
			st.assume(Forall(vs, pats, ihBody(&env)))
		}
	}
	vm.obls = append(vm.obls, &Obligation{Fn: c.Key, Label: "hypotheses-satisfiable", Facts: st.facts, Goal: False, Kind: "cover", Uses: l.Uses, Decls: vm})
	prove := func(st *State, tag string) {
		en := *e
		en.st, en.heap = st, st.heap
		for i, h := range l.Hints {
			vm.hint(st, &en, clLabel("hint", i, h)+tag, token.NoPos, h)
		}
		for i, x := range l.Ensures {
			vm.oblige(st, clLabel("ensures", i, x)+tag, token.NoPos, en.boolE(x.E))
		}
	}
	if len(l.Cases) > 0 {
		var cs []*Term
		for _, cexp := range l.Cases {
			cs = append(cs, e.boolE(cexp))
		}
		vm.oblige(st, "cases-exhaustive", token.NoPos, Or(cs...))
		for i, ct := range cs {
			s2 := st.clone()
			s2.assume(ct)
			prove(s2, fmt.Sprintf(" case %d", i+1))
		}
	} else {
		prove(st, "")
	}
	d.obls = append(d.obls, vm.obls...)
	d.rep.ByFunction[c.Key] += len(vm.obls)
}

// globals: package-level invariants hold after package initialisation, and only initialisation
// writes the variables they mention (checked by scanning every function of the package).
func (d *Driver) globals() {
	for _, n := range sortedKeys(d.spec.Regions) {
		r := d.spec.Regions[n]
		used := false
		for _, k := range d.spec.Order {
			c := d.spec.Contracts[k]
			if c.Region == n {
				for _, p := range c.Props {
					used = used || p == d.prop
				}
			}
		}
		if used {
			if w := d.regionWriters(r); w != "" {
				d.obls = append(d.obls, &Obligation{Fn: r.Pkg + "." + r.Type, Label: "only functions under the region's contract change its locations; also changed in " + w, Goal: False, Kind: "subset"})
			}
		}
	}
	byPkg := map[string][]Clause{}
	for _, g := range d.spec.GlobalInvs {
		if d.pkgs[g.Pkg] && (g.Prop == "" || g.Prop == d.spec.Prop) {
			byPkg[g.Pkg] = append(byPkg[g.Pkg], Clause{E: g.E})
		}
	}
	for _, p := range sortedKeys(byPkg) {
		c := &Contract{Pkg: p, Key: "init", Ensures: byPkg[p], Flags: map[string]bool{"noglobalinv": true, "noframe": true, "init": true}, Opts: map[string]string{}, Loops: map[int]*LoopSpec{}}
		fn := d.ld.SSA[p].Func("init")
		vm := d.verifyFn(c, fn)
		for _, u := range sortedKeys(vm.used) {
			if d.spec.Contracts[u].Extern {
				d.ext[u] = true
			}
		}
		// writers
		names := map[string]bool{}
		deep := map[string]bool{}
		var walk func(x *Expr)
		walk = func(x *Expr) {
			if x == nil {
				return
			}
			if x.K == "id" && d.ld.SSA[p].Var(x.Name) != nil {
				names[x.Name] = true
			}
			if x.K == "bin" && x.Args[1].K == "id" && x.Args[1].Name == "nil" || x.K == "id" || x.K == "call" && x.Name == "ref" {
				// only the variable itself is mentioned, not what it points to
			} else {
				for _, a := range x.Args {
					if a != nil && a.K == "id" {
						deep[a.Name] = true
					}
				}
			}
			if x.K == "call" {
				if df, ok := d.spec.Defs[x.Name]; ok {
					walk(df.Body)
				}
			}
			for _, a := range x.Args {
				walk(a)
			}
		}
		for _, cl := range byPkg[p] {
			walk(cl.E)
		}
		for _, n := range sortedKeys(names) {
			if w := d.globalWriters(p, n, deep[n]); w != "" {
				d.obls = append(d.obls, &Obligation{Fn: p + "." + n, Label: "only initialisation writes the variable; written or leaked in " + w, Goal: False, Kind: "subset"})
			}
		}
	}
}

// globalWriters: a function other than init that stores to the package variable, lets its
// address escape, or stores through the slice it holds.
func (d *Driver) globalWriters(pkg, name string, deep bool) string {
	g := d.ld.SSA[pkg].Var(name)
	var check func(fn *ssa.Function) string
	check = func(fn *ssa.Function) string {
		init := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for _, o := range ops {
					if *o == g {
						switch x := in.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.IndexAddr, *ssa.FieldAddr:
							if !init && addrStored(in.(ssa.Value)) {
								return fn.Name()
							}
						case *ssa.Store:
							if !init || x.Val == ssa.Value(g) {
								return fn.Name()
							}
						default:
							if !init {
								return fn.Name()
							}
						}
						if u, ok := in.(*ssa.UnOp); ok && !init && deep {
							if valueWritten(u, 0) {
								return fn.Name()
							}
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			if s := check(a); s != "" {
				return s
			}
		}
		return ""
	}
	for _, p := range sortedKeys(d.ld.SSA) {
		for _, fn := range pkgFuncs(d.ld, p) {
			if s := check(fn); s != "" {
				return s
			}
		}
	}
	return ""
}

func addrStored(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.IndexAddr:
			if addrStored(x) {
				return true
			}
		case *ssa.FieldAddr:
			if addrStored(x) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// valueWritten: the loaded slice/map value is used other than for reading.
func valueWritten(v ssa.Value, depth int) bool {
	if depth > 6 {
		return true
	}
	switch v.Type().Underlying().String() {
	case "bool", "string", "int", "uint32", "uint64", "uint8":
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.Lookup, *ssa.Index, *ssa.Range, *ssa.BinOp, *ssa.If:
		case *ssa.IndexAddr:
			if addrStored(x) {
				return true
			}
		case *ssa.Slice:
			if valueWritten(x, depth+1) {
				return true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			return true
		case *ssa.Store:
			a, ok := x.Addr.(*ssa.Alloc)
			if !ok || a.Heap {
				return true
			}
			for _, rr := range *a.Referrers() {
				if u, ok := rr.(*ssa.UnOp); ok {
					if valueWritten(u, depth+1) {
						return true
					}
				}
			}
		default:
			return true
		}
	}
	return false
}

func pkgFuncs(ld *Loader, pkg string) []*ssa.Function {
	var out []*ssa.Function
	sp := ld.SSA[pkg]
	for _, n := range sortedKeys(sp.Members) {
		switch m := sp.Members[n].(type) {
		case *ssa.Function:
			out = append(out, m)
		case *ssa.Type:
			ms := ld.Prog.MethodSets.MethodSet(m.Type())
			for i := 0; i < ms.Len(); i++ {
				if f := ld.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == sp {
					out = append(out, f)
				}
			}
			if n, ok := m.Type().(interface{ NumMethods() int }); ok {
				_ = n
			}
		}
	}
	// methods with pointer receivers
	for _, n := range sortedKeys(sp.Members) {
		if m, ok := sp.Members[n].(*ssa.Type); ok {
			out = append(out, namedMethods(ld, m)...)
		}
	}
	return out
}

// tables: closed facts about data literals, decided by evaluating the literal in the source.
func (d *Driver) tables(prop string) {
	for _, c := range d.spec.Checks {
		if !hasStr(c.Props, prop) {
			continue
		}
		o := &Obligation{Fn: c.Pkg + "." + c.Arg, Label: "table " + c.Name, Kind: "table", Goal: False, Solver: "evaluation"}
		t0 := time.Now()
		vals, err := d.tableValues(c.Pkg, c.Arg)
		if err == "" {
			switch c.Kind {
			case "primes":
				err = primesTable(vals)
			default:
				err = "unknown kind of table check"
			}
		}
		if err == "" {
			if w := d.globalWriters(c.Pkg, c.Arg, true); w != "" {
				err = "written or leaked in " + w
			}
		}
		o.Secs = time.Since(t0).Seconds()
		if err == "" {
			o.Result = "proved"
		} else {
			o.Result = "failed"
			o.Label += ": " + err
		}
		d.obls = append(d.obls, o)
	}
}

// tableValues: the elements of the composite literal that initialises a package variable.
func (d *Driver) tableValues(pkg, name string) ([]*big.Int, string) {
	info := d.ld.Infos[pkg]
	for _, f := range d.ld.Files[pkg] {
		for _, dc := range f.Decls {
			g, ok := dc.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, n := range vs.Names {
					if n.Name != name || i >= len(vs.Values) {
						continue
					}
					cl, ok := vs.Values[i].(*ast.CompositeLit)
					if !ok {
						return nil, "not initialised by a literal"
					}
					var out []*big.Int
					for _, e := range cl.Elts {
						tv, ok := info.Types[e]
						if !ok || tv.Value == nil {
							return nil, "element is not a constant"
						}
						b, ok := new(big.Int).SetString(constant.ToInt(tv.Value).ExactString(), 10)
						if !ok {
							return nil, "element is not an integer"
						}
						out = append(out, b)
					}
					return out, ""
				}
			}
		}
	}
	return nil, "variable not found"
}

// primesTable: strictly ascending, starting 2, 3, and containing every prime up to 65535.
func primesTable(v []*big.Int) string {
	if len(v) < 2 || v[0].Int64() != 2 || v[1].Int64() != 3 {
		return "does not start with 2, 3"
	}
	have := map[int64]bool{}
	for i := range v {
		if i > 0 && v[i].Cmp(v[i-1]) <= 0 {
			return fmt.Sprintf("not ascending at index %d (%v after %v)", i, v[i], v[i-1])
		}
		have[v[i].Int64()] = true
	}
	comp := make([]bool, 65536)
	for p := 2; p < 65536; p++ {
		if comp[p] {
			continue
		}
		for q := p * p; q < 65536; q += p {
			comp[q] = true
		}
		if !have[int64(p)] {
			return fmt.Sprintf("the prime %d is missing", p)
		}
	}
	return ""
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (d *Driver) report() {
	rep := d.rep
	exits := map[string][]*Obligation{}
	axs := map[string]bool{}
	var all, failed []*Obligation
	for _, o := range d.obls {
		for _, a := range o.Axioms {
			axs[a] = true
		}
		if o.Kind == "exitcover" {
			exits[o.Fn] = append(exits[o.Fn], o)
			continue
		}
		all = append(all, o)
	}
	for _, fn := range sortedKeys(exits) {
		x := &Obligation{Fn: fn, Label: "some-exit-reachable", Kind: "exitcover", Result: "failed"}
		for _, o := range exits[fn] {
			x.Secs += o.Secs
			x.Solver = o.Solver
			if o.Result == "proved" {
				x.Result = "proved"
			}
		}
		all = append(all, x)
	}
	for _, o := range all {
		rep.Obligations++
		if o.Result == "proved" {
			rep.Discharged++
			rep.BySolver[o.Solver]++
			continue
		}
		out := OblOut{Fn: o.Fn, Label: o.Label, Pos: o.Pos, Path: o.Path, Result: o.Result, Solver: o.Solver, Secs: o.Secs, Dump: o.Dump}
		if strings.HasPrefix(o.Model, "error") || strings.Contains(o.Model, "(error") {
			out.Note = o.Model
			if len(out.Note) > 300 {
				out.Note = out.Note[:300]
			}
		}
		rep.Failed = append(rep.Failed, out)
		failed = append(failed, o)
	}
	// those that were tried first, with models for some
	idx := make([]int, len(failed))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return failed[idx[a]].Secs > 0 && failed[idx[b]].Secs == 0 })
	outs := make([]OblOut, len(failed))
	var wg sync.WaitGroup
	for k, i := range idx {
		outs[k] = rep.Failed[i]
		if o := failed[i]; o.Kind == "" && k < 16 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[k].Model = d.run.getModel(o)
			}()
		}
	}
	wg.Wait()
	if len(failed) > 0 {
		rep.Failed = outs
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].Secs > all[j].Secs })
	for i, o := range all {
		if i < 5 {
			rep.Slowest = append(rep.Slowest, OblOut{Fn: o.Fn, Label: o.Label, Pos: o.Pos, Result: o.Result, Solver: o.Solver, Secs: o.Secs, Dump: o.Dump})
		}
	}
	for _, a := range sortedKeys(axs) {
		l := d.spec.Lemmas[a]
		rep.Axioms = append(rep.Axioms, a+": "+l.Reason)
	}
	rep.Inlined = sortedKeys(d.inl)
	rep.Externs = sortedKeys(d.ext)
	rep.Assumed = sortedKeys(d.asm)
	rep.Notes = d.notes
	rep.OK = rep.Obligations > 0 && rep.Discharged == rep.Obligations
}
