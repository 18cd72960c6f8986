package main

// Adapting loop contracts to rewritten code. Loop invariants are proof hints: they name local variables and
// are keyed by the loop's place in its function. When a local, an unexported function or a field was renamed,
// or a loop moved into a helper, the contract as written no longer applies although the code may be right.
// Here such names are mapped to what the code has now, guided by the names and types recorded from the tree
// the contracts were written for (contracts/locals.json). This cannot make a wrong program pass: every
// invariant is still proved on entry and preserved, and pre- and postconditions mention none of these names
// (except fields, which are mapped only to the field of the same place and type).

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Baseline struct {
	Locals map[string][][2]string // function id -> name, type of its locals in order
	Funcs  map[string]bool        // every function of the packages under contract
	Fields map[string][][2]string // struct type -> name, type of its fields
}

func isGoLocal(c string) bool {
	if c == "" || c == "_" || c == "varargs" || c == "complit" || c == "makeslice" || c == "new" || c == "slicelit" {
		return false
	}
	for _, r := range c {
		if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r > 127) {
			return false
		}
	}
	return true
}

func allLocals(fn *ssa.Function) [][2]string {
	var as []*ssa.Alloc
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && isGoLocal(a.Comment) {
				as = append(as, a)
			}
		}
	}
	sort.SliceStable(as, func(i, j int) bool { return as[i].Pos() < as[j].Pos() })
	var out [][2]string
	seen := map[[2]string]bool{}
	for _, a := range as {
		k := [2]string{a.Comment, a.Type().(*types.Pointer).Elem().String()}
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

func packageFuncs(ld *Loader, p string) []*ssa.Function {
	var out []*ssa.Function
	sp := ld.SSA[p]
	if sp == nil {
		return nil
	}
	for _, m := range sp.Members {
		switch x := m.(type) {
		case *ssa.Function:
			out = append(out, x)
		case *ssa.Type:
			if n, ok := types.Unalias(x.Type()).(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					if f := ld.Prog.FuncValue(n.Method(i)); f != nil {
						out = append(out, f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		_, a := funcKey(out[i])
		_, b := funcKey(out[j])
		return a < b
	})
	return out
}

func localsMain(args []string) {
	fs := flag.NewFlagSet("locals", flag.ExitOnError)
	gopath := fs.String("gopath", "", "")
	cdir := fs.String("contracts", "", "")
	fs.Parse(args)
	spec := NewSpec()
	files, _ := filepath.Glob(filepath.Join(*cdir, "*.spec"))
	sort.Strings(files)
	pkgs := map[string]bool{}
	for _, f := range files {
		if err := spec.ParseFile(f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	for _, id := range spec.Order {
		if c := spec.Contracts[id]; !c.Extern && !c.Iface {
			pkgs[c.Pkg] = true
		}
	}
	ld, err := Load(*gopath, sortedKeys(pkgs))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	b := Baseline{Locals: map[string][][2]string{}, Funcs: map[string]bool{}, Fields: map[string][][2]string{}}
	for _, p := range sortedKeys(pkgs) {
		for _, fn := range packageFuncs(ld, p) {
			_, key := funcKey(fn)
			b.Funcs[p+" "+key] = true
			if c := spec.Contracts[p+" "+key]; c != nil && fn.Blocks != nil {
				b.Locals[p+" "+key] = allLocals(fn)
			}
		}
		for _, m := range ld.SSA[p].Members {
			if t, ok := m.(*ssa.Type); ok {
				if s, ok := t.Type().Underlying().(*types.Struct); ok {
					var l [][2]string
					for i := 0; i < s.NumFields(); i++ {
						l = append(l, [2]string{s.Field(i).Name(), s.Field(i).Type().String()})
					}
					b.Fields[p+"."+t.Name()] = l
				}
			}
		}
	}
	j, _ := json.MarshalIndent(b, "", " ")
	os.WriteFile(filepath.Join(*cdir, "locals.json"), append(j, '\n'), 0644)
}

func (sp *Spec) loadBaseline(dir string) {
	if b, err := os.ReadFile(filepath.Join(dir, "locals.json")); err == nil {
		var x Baseline
		if json.Unmarshal(b, &x) == nil {
			sp.Base = &x
		}
	}
}

// adoptRenamed: a contract whose unexported function is gone goes to the only new function of the same
// signature, if there is one.
func (d *Driver) adoptRenamed() {
	if d.spec.Base == nil {
		return
	}
	for _, id := range append([]string(nil), d.spec.Order...) {
		c := d.spec.Contracts[id]
		name := c.Key[strings.LastIndexByte(c.Key, '.')+1:]
		if c.Extern || c.Iface || d.ld.SSA[c.Pkg] == nil || token.IsExported(name) || name == "init" || d.ld.FindFunc(c.Pkg, c.Key) != nil {
			continue
		}
		recv := ""
		if i := strings.LastIndexByte(c.Key, '.'); i >= 0 {
			recv = c.Key[:i+1]
		}
		var cand []string
		for _, fn := range packageFuncs(d.ld, c.Pkg) {
			_, k := funcKey(fn)
			if fn.Blocks == nil || d.spec.Base.Funcs[c.Pkg+" "+k] || d.spec.Contracts[c.Pkg+" "+k] != nil || !strings.HasPrefix(k, recv) || recv == "" && strings.Contains(k, ".") {
				continue
			}
			if fn.Signature.Params().Len() == len(c.Params) && fn.Signature.Results().Len() == len(c.Results) {
				cand = append(cand, k)
			}
		}
		if len(cand) != 1 {
			continue
		}
		nc := *c
		nc.Key = cand[0]
		d.spec.Contracts[c.Pkg+" "+cand[0]] = &nc
		d.spec.Base.Locals[c.Pkg+" "+cand[0]] = d.spec.Base.Locals[id]
		d.notes = append(d.notes, "contract of "+c.Key+" applied to "+cand[0])
	}
}

// specFrame: the frame whose contract supplies the loop invariants here: this one or the nearest one around it.
func specFrame(fr *Frame) *Frame {
	for fr != nil && fr.spec == nil {
		fr = fr.parent
	}
	return fr
}

// movedLoops: whether the contract has invariants for more loops than its function has, so that some are
// taken to have moved into uncontracted helpers.
func (vm *VM) movedLoops(c *Contract, fn *ssa.Function) bool {
	most := 0
	for o := range c.Loops {
		if o > most {
			most = o
		}
	}
	return most > len(vm.loops(fn).order)
}

type vloop struct {
	path string // call positions from the contracted function to the loop
	ord  int
}

// virtualLoops: the loops of a function with those of the uncontracted helpers it calls, in order.
func (vm *VM) virtualLoops(fn *ssa.Function, path string, depth int) []vloop {
	type item struct {
		pos  token.Pos
		ord  int
		call *ssa.Function
		at   string
	}
	var items []item
	for _, h := range vm.loops(fn).order {
		items = append(items, item{pos: h.pos, ord: h.ord})
	}
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || g.Blocks == nil || vm.contractFor2(g) != nil {
				continue
			}
			items = append(items, item{pos: c.Pos(), call: g, at: fmt.Sprintf("%s/%d.%d", path, b.Index, i+1)})
		}
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].pos < items[j].pos })
	var out []vloop
	for _, it := range items {
		if it.call == nil {
			out = append(out, vloop{path, it.ord})
		} else if depth < 6 {
			out = append(out, vm.virtualLoops(it.call, it.at, depth+1)...)
		}
	}
	return out
}

func framePath(sf, fr *Frame) string {
	if fr == sf {
		return ""
	}
	return fmt.Sprintf("%s/%d.%d", framePath(sf, fr.parent), fr.retBlk.Index, fr.retIdx)
}

func (vm *VM) movedSpec(sf, fr *Frame, ord int) *LoopSpec {
	if sf.retBlk == nil && sf.parent != nil {
		return nil
	}
	p := framePath(sf, fr)
	for i, l := range vm.virtualLoops(sf.fn, "", 0) {
		if l.path == p && l.ord == ord {
			return sf.spec.Loops[i+1]
		}
	}
	return nil
}

// movedGhosts: the ghost state assigned in the loops inside loop h of frame fr, where loops of the contracted
// function have moved into helpers.
func (vm *VM) movedGhosts(sf, fr *Frame, lm *lmods, h *loopHdr) {
	if sf.retBlk == nil && sf.parent != nil {
		vm.ghostKeys(sf.spec, lm, vm.loops(sf.fn), nil)
		return
	}
	p := framePath(sf, fr)
	in, self := map[int]bool{}, 0
	for i, l := range vm.virtualLoops(sf.fn, "", 0) {
		switch {
		case l.path == p:
			if l.ord == h.ord {
				self = i + 1
			}
			for _, o := range vm.loops(fr.fn).headers {
				if o.ord == l.ord && h.body[o.blk.Index] {
					in[i+1] = true
				}
			}
		case strings.HasPrefix(l.path, p+"/"):
			var blk, at int
			if n, _ := fmt.Sscanf(l.path[len(p)+1:], "%d.%d", &blk, &at); n != 2 || h.body[blk] {
				in[i+1] = true
			}
		}
	}
	vm.ghostKeysIn(sf.spec, lm, self, func(ord int) bool { return in[ord] })
}

// exprNames: the identifiers of an expression.
func exprNames(x *Expr, out map[string]bool) {
	if x == nil {
		return
	}
	if x.K == "id" {
		out[x.Name] = true
	}
	for _, a := range x.Args {
		exprNames(a, out)
	}
	for _, p := range x.Pats {
		for _, a := range p {
			exprNames(a, out)
		}
	}
}

func loopNames(c *Contract) map[string]bool {
	out := map[string]bool{}
	one := func(l *LoopSpec) {
		for _, cl := range append(append([]Clause(nil), l.Inv...), l.Hints...) {
			exprNames(cl.E, out)
		}
		for _, x := range l.Dec {
			exprNames(x, out)
		}
		for _, g := range append(append([]GhostAssign(nil), l.Ghost...), l.Init...) {
			exprNames(g.LHS, out)
			exprNames(g.RHS, out)
		}
		if l.SplitVar != "" {
			out[l.SplitVar] = true
		}
	}
	for _, l := range c.Loops {
		one(l)
	}
	return out
}

// renamings: the ways to map the locals that the loop contracts name and the code no longer has to new locals
// of the same type, those that map most names and keep their order first.
func (vm *VM) renamings(c *Contract, fn *ssa.Function) []map[string]string {
	if vm.spec.Base == nil {
		return nil
	}
	pkg, key := funcKey(fn)
	base := append([][2]string(nil), vm.spec.Base.Locals[pkg+" "+key]...)
	for _, l := range c.Loops {
		base = append(base, l.Locals...)
	}
	cur := allLocals(fn)
	var helpers func(fn *ssa.Function, depth int)
	helpers = func(g *ssa.Function, depth int) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if h := c.Call.StaticCallee(); h != nil && h.Blocks != nil && vm.contractFor2(h) == nil && depth < 4 && h.Pkg == fn.Pkg {
						cur = append(cur, allLocals(h)...)
						helpers(h, depth+1)
					}
				}
			}
		}
	}
	if vm.movedLoops(c, fn) {
		helpers(fn, 0)
	}
	in := func(l [][2]string, n string) bool {
		for _, x := range l {
			if x[0] == n {
				return true
			}
		}
		return false
	}
	used := loopNames(c)
	var miss [][2]string
	for _, b := range base {
		if used[b[0]] && !in(cur, b[0]) && b[0] != "rangeindex" && !in(miss, b[0]) {
			miss = append(miss, b)
		}
	}
	if len(miss) > 6 {
		return nil
	}
	var out []map[string]string
	m := map[string]string{}
	taken := map[string]bool{}
	var rec func(i int)
	rec = func(i int) {
		if len(out) > 300 {
			return
		}
		if i == len(miss) {
			c := map[string]string{}
			for k, v := range m {
				c[k] = v
			}
			out = append(out, c)
			return
		}
		for _, c := range cur {
			if c[1] == miss[i][1] && !in(base, c[0]) && c[0] != "rangeindex" && !taken[c[0]] {
				taken[c[0]] = true
				m[miss[i][0]] = c[0]
				rec(i + 1)
				delete(m, miss[i][0])
				delete(taken, c[0])
			}
		}
		rec(i + 1)
	}
	rec(0)
	sort.SliceStable(out, func(i, j int) bool { return len(out[i]) > len(out[j]) })
	if len(out) > maxRename {
		out = out[:maxRename]
	}
	with := func(k, v string) {
		m := map[string]string{}
		for a, b := range out[0] {
			m[a] = b
		}
		m[k] = v
		out = append(out, m)
	}
	// a counter that now runs one ahead or behind
	for _, b := range miss {
		if v := out[0][b[0]]; v != "" && b[1] == "int" {
			with(b[0], v+"+1")
			with(b[0], v+"-1")
		}
	}
	// a loop over a new local beside the one that the contract names
	seen := map[string]bool{}
	for _, b := range base {
		if used[b[0]] && in(cur, b[0]) && b[0] != "rangeindex" && !seen[b[0]] {
			seen[b[0]] = true
			for _, c := range cur {
				if c[1] == b[1] && !in(base, c[0]) && c[0] != "rangeindex" && !seen[b[0]+" "+c[0]] && len(out) < 2*maxRename {
					seen[b[0]+" "+c[0]] = true
					with(b[0], c[0])
				}
			}
		}
	}
	if len(out) == 1 && len(out[0]) == 0 {
		return nil
	}
	return out
}

const maxRename = 5

// renamedLocal: the local that now stands where the contract's local of this name stood.
func (vm *VM) renamedLocal(sf *Frame, name string) string {
	if sf == nil {
		return ""
	}
	if vm.renames == nil {
		vm.renames = map[*ssa.Function][]map[string]string{}
	}
	rs, ok := vm.renames[sf.fn]
	if !ok {
		rs = vm.renamings(sf.spec, sf.fn)
		vm.renames[sf.fn] = rs
	}
	if len(rs) == 0 {
		return ""
	}
	k := 0
	if sf.parent != nil {
		k = vm.spec.Picked[sf.fn]
	} else {
		k = vm.renamePick
	}
	if k >= len(rs) {
		k = 0
	}
	return rs[k][name]
}

func (vm *VM) baseHas(sf *Frame, name string) bool {
	pkg, key := funcKey(sf.fn)
	for _, b := range vm.spec.Base.Locals[pkg+" "+key] {
		if b[0] == name {
			return true
		}
	}
	if sf.spec != nil {
		for _, l := range sf.spec.Loops {
			for _, b := range l.Locals {
				if b[0] == name {
					return true
				}
			}
		}
	}
	return false
}

// isRangeKey: whether a local is the key variable of a range loop of fn (set from the hidden counter).
func isRangeKey(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			a, ok := s.Addr.(*ssa.Alloc)
			if !ok || a.Comment != name {
				continue
			}
			if u, ok := s.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
				if r, ok := u.X.(*ssa.Alloc); ok && r.Comment == "rangeindex" {
					return true
				}
			}
			if bo, ok := s.Val.(*ssa.BinOp); ok && bo.Op == token.ADD {
				if u, ok := bo.X.(*ssa.UnOp); ok {
					if r, ok := u.X.(*ssa.Alloc); ok && r.Comment == "rangeindex" {
						return true
					}
				}
			}
		}
	}
	return false
}

// adapted: the value of a name of a loop contract that the code no longer has.
func (e *SEnv) adapted(n string) (TV, bool) {
	sf := specFrame(e.frame)
	if !e.inLoop || sf == nil || e.vm.spec.Base == nil {
		return TV{}, false
	}
	if n == "rangeindex" {
		if h := e.vm.curHdr; h != nil {
			if bo := headerCond(h); bo != nil {
				if u, ok := bo.X.(*ssa.UnOp); ok && u.Op == token.MUL {
					if a, ok := u.X.(*ssa.Alloc); ok {
						if id, ok := e.frame.allocs[a]; ok {
							if v, ok := e.cells[id].V.(VTerm); ok {
								return TV{V: VTerm{Sub(v.T, Num(1))}, T: types.Typ[types.Int]}, true
							}
						}
					}
				}
			}
		}
		return TV{}, false
	}
	if !e.vm.baseHas(sf, n) {
		return TV{}, false
	}
	if v, ok := e.renamed(sf, n); ok {
		return v, true
	}
	// a counter that has become the hidden counter of a range loop
	if v, ok := e.local("rangeindex"); ok && !e.vm.baseHas(sf, "rangeindex") {
		return TV{V: VTerm{Add(v.V.(VTerm).T, Num(1))}, T: v.T}, true
	}
	return TV{}, false
}

func (e *SEnv) renamed(sf *Frame, n string) (TV, bool) {
	if m := e.vm.renamedLocal(sf, n); m != "" {
		if k := len(m) - 2; k > 0 && (m[k:] == "+1" || m[k:] == "-1") {
			if v, ok := e.local(m[:k]); ok {
				if t, ok := v.V.(VTerm); ok {
					d := Num(1)
					if m[k:] == "-1" {
						d = Num(-1)
					}
					return TV{V: VTerm{Add(t.T, d)}, T: v.T}, true
				}
			}
			return TV{}, false
		}
		if e.rangeKeyNow(m) {
			if v, ok := e.local("rangeindex"); ok {
				return TV{V: VTerm{Add(v.V.(VTerm).T, Num(1))}, T: v.T}, true
			}
		}
		if v, ok := e.local(m); ok {
			return v, true
		}
	}
	return TV{}, false
}

// override: in an adapted contract, a local that stands for one the code still has.
func (e *SEnv) override(n string) (TV, bool) {
	if !e.vm.lenientOn || e.vm.renamePick == 0 || !e.inLoop || e.vm.spec.Base == nil {
		return TV{}, false
	}
	sf := specFrame(e.frame)
	if sf == nil || sf.parent != nil {
		return TV{}, false
	}
	return e.renamed(sf, n)
}

// rangeKeyNow: the contract was written for a counting loop and the counter is now the key of a range loop,
// which has its value only inside the body.
func (e *SEnv) rangeKeyNow(n string) bool {
	sf := specFrame(e.frame)
	return e.inLoop && sf != nil && e.vm.spec.Base != nil && !e.vm.baseHas(sf, "rangeindex") && isRangeKey(e.frame.fn, n)
}

// renamedField: a field that was renamed in place.
func (vm *VM) renamedField(t types.Type, name string) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || vm.spec.Base == nil {
		return ""
	}
	base := vm.spec.Base.Fields[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
	s, ok := n.Underlying().(*types.Struct)
	if !ok || s.NumFields() != len(base) {
		return ""
	}
	for i, b := range base {
		if s.Field(i).Type().String() != b[1] {
			return ""
		}
		if b[0] == name {
			return s.Field(i).Name()
		}
	}
	return ""
}

// newFields: the heap keys of fields added to the structs the contracts were written for. No contract speaks of them:
// any function may write them, and a call leaves them unknown.
func (vm *VM) newFields() map[string]bool {
	if vm.newKeys != nil {
		return vm.newKeys
	}
	vm.newKeys = map[string]bool{}
	if vm.spec.Base == nil || vm.sharedState() {
		return vm.newKeys
	}
	for name, base := range vm.spec.Base.Fields {
		i := strings.LastIndexByte(name, '.')
		p := vm.ld.Pkgs[name[:i]]
		if p == nil || p.Scope().Lookup(name[i+1:]) == nil {
			continue
		}
		t := p.Scope().Lookup(name[i+1:]).Type()
		st, ok := t.Underlying().(*types.Struct)
		if !ok || st.NumFields() <= len(base) {
			continue
		}
		had := map[string]bool{}
		for _, b := range base {
			had[b[0]] = true
		}
		for j := 0; j < st.NumFields(); j++ {
			if f := st.Field(j); !had[f.Name()] && !f.Exported() && !isStruct(f.Type()) && !isArray(f.Type()) {
				for _, k := range vm.fieldKeys(t, structField{name: f.Name(), t: f.Type()}) {
					vm.newKeys[k] = true
				}
			}
		}
	}
	return vm.newKeys
}

func (vm *VM) forgetNewFields(st *State) {
	for _, k := range sortedKeys(vm.newFields()) {
		st.heap[k] = vm.freshSym("H:"+k, vm.keySort[k])
	}
}

// sharedState: contracts about memory that other goroutines write too.
func (vm *VM) sharedState() bool {
	switch strings.TrimPrefix(vm.c.Pkg, modPath+"/") {
	case "sync", "math/rand", "strings":
		return true
	}
	return false
}

// ofNewField: does the value come from a field added to a struct?
func (vm *VM) ofNewField(t *Term) bool {
	if len(vm.newFields()) == 0 {
		return false
	}
	switch t.Kind {
	case KSym:
		if d, ok := vm.defs[t.Op]; ok {
			return vm.ofNewField(d)
		}
		for k := range vm.newKeys {
			if strings.HasPrefix(t.Op, "H0:"+k) || strings.HasPrefix(t.Op, "H:"+k) {
				return true
			}
		}
	case KApp:
		if t.Op == "select" || t.Op == "+" || t.Op == "-" || t.Op == "store" {
			return vm.ofNewField(t.Args[0])
		}
	}
	return false
}

// conjuncts of an invariant.
func conjuncts(x *Expr) []*Expr {
	if x.K == "bin" && x.Op == "&&" {
		return append(conjuncts(x.Args[0]), conjuncts(x.Args[1])...)
	}
	return []*Expr{x}
}

// lenientSpec: the part of a loop contract whose names the code still has. Leaving out an invariant is safe:
// what remains is proved like any other.
func (vm *VM) lenientSpec(st *State, l *LoopSpec) *LoopSpec {
	if vm.lenient == nil {
		vm.lenient = map[*LoopSpec]*LoopSpec{}
	}
	if r, ok := vm.lenient[l]; ok {
		return r
	}
	c := *l
	c.Inv, c.Dec = nil, nil
	env := vm.loopEnv(st)
	ok := func(f func()) (good bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(specErr); !is {
					panic(r)
				}
				good = false
			}
		}()
		f()
		return true
	}
	for _, cl := range l.Inv {
		for _, x := range conjuncts(cl.E) {
			if ok(func() { env.goal(x) }) {
				n := cl
				n.E = x
				c.Inv = append(c.Inv, n)
			}
		}
	}
	if ok(func() {
		for _, x := range l.Dec {
			env.eval(x)
		}
	}) {
		c.Dec = l.Dec
	}
	vm.lenient[l] = &c
	vm.lenient[&c] = &c
	return &c
}

// variant: one way to adapt a contract.
type variant struct {
	c    *Contract
	pick int
	what string
}

func (d *Driver) variants(c *Contract, fn *ssa.Function) []variant {
	var out []variant
	add := func(c *Contract, what string) {
		vm := NewVM(d.ld, d.spec, c, fn)
		n := len(vm.renamings(c, fn))
		if n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			out = append(out, variant{c, k, fmt.Sprintf("%s, renaming %d", what, k+1)})
		}
	}
	add(c, "loop contracts as written")
	var ords []int
	for o := range c.Alts {
		ords = append(ords, o)
	}
	sort.Ints(ords)
	for _, o := range ords {
		for i, l := range c.Alts[o] {
			n := *c
			n.Loops = map[int]*LoopSpec{}
			for k, v := range c.Loops {
				n.Loops[k] = v
			}
			n.Loops[o] = l
			add(&n, fmt.Sprintf("alternative %d for loop %d", i+1, o))
		}
	}
	// the likeliest renaming of every form first
	first := out[0]
	rest := out[1:]
	sort.SliceStable(rest, func(i, j int) bool { return rest[i].pick < rest[j].pick })
	return append([]variant{first}, rest...)
}

// retry: functions whose proof failed are tried again with adapted loop contracts.
// The adaptation found for a function then serves its callers that enter it.
func (d *Driver) retry() {
	adapted := map[string]bool{}
	d.retryOnce(adapted, nil)
	if len(adapted) > 0 {
		d.retryOnce(adapted, adapted)
	}
}

func (d *Driver) retryOnce(adapted, entered map[string]bool) {
	for i := 0; i < len(d.fns); i++ {
		f := d.fns[i]
		if f.vm == nil {
			continue
		}
		again := false
		for k := range f.vm.inlined {
			again = again || entered[k]
		}
		if entered != nil && !again || entered == nil && len(f.c.Loops) == 0 && len(f.c.Alts) == 0 {
			continue
		}
		mine := map[*Obligation]bool{}
		bad := false
		for _, o := range append(append([]*Obligation(nil), f.vm.obls...), f.vm.exitCover...) {
			mine[o] = true
			bad = bad || o.Kind != "exitcover" && o.Result != "proved"
		}
		if !bad {
			continue
		}
		cut := false
		for o := range mine {
			cut = cut || o.Kind == "subset"
		}
		for j, v := range d.variants(f.c, f.fn) {
			if j == 0 && !cut && !again {
				continue
			}
			vm := NewVM(d.ld, d.spec, v.c, f.fn)
			vm.renamePick, vm.lenientOn = v.pick, true
			vm.Run()
			obls := append(append([]*Obligation(nil), vm.obls...), vm.exitCover...)
			if !d.run.quickAll(d.spec, obls) {
				if os.Getenv("GVC_DEBUG") != "" {
					for _, o := range obls {
						if o.Result != "proved" {
							fmt.Fprintf(os.Stderr, "%s: %s: %s %s [%s]\n", f.c.Key, v.what, o.Label, o.Path, o.Result)
						}
					}
				}
				continue
			}
			var rest []*Obligation
			for _, o := range d.obls {
				if !mine[o] {
					rest = append(rest, o)
				}
			}
			d.obls = rest
			d.rep.ByFunction[f.c.Key] -= len(f.vm.obls)
			d.take(vm, v.c)
			d.notes = append(d.notes, "contract of "+f.c.Key+" adapted: "+v.what)
			from := len(d.obls)
			d.verifyAll(sortedKeys(vm.used), false)
			d.run.All(d.spec, d.obls[from:], "")
			pkg, key := funcKey(f.fn)
			adapted[pkg+" "+key] = true
			f.c.Loops = v.c.Loops
			if d.spec.Picked == nil {
				d.spec.Picked = map[*ssa.Function]int{}
			}
			d.spec.Picked[f.fn] = v.pick
			d.fns[i].vm = vm
			break
		}
	}
}

// skipSpecErr: in an adapted contract, a hint or ghost step that names what is gone is left out.
func skipSpecErr() {
	if r := recover(); r != nil {
		if _, ok := r.(specErr); !ok {
			panic(r)
		}
	}
}
