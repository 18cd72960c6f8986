package main

// Evaluation of contract expressions in a symbolic state.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type TV struct {
	V   Val
	T   types.Type
	S   *STy
	nil bool
}

type SEnv struct {
	vm        *VM
	st        *State
	heap      map[string]*Term
	alloc     *Term
	names     map[string]TV
	bound     map[string]TV
	pkg       string
	old       *Snapshot
	oldNames  map[string]TV
	inOld     bool
	frame     *Frame // for Go locals
	cells     map[int]Cell
	loopStart *Snapshot
	inLoop    bool // names denote the current values of Go locals
	depth     int
	qn        int
}

func (vm *VM) topEnv(st *State) *SEnv {
	e := &SEnv{vm: vm, st: st, heap: st.heap, alloc: st.alloc, names: map[string]TV{}, pkg: vm.pkg, old: vm.entry, oldNames: vm.entryPs, frame: st.fr, cells: st.cells}
	fr := specFrame(st.fr)
	if fr != nil && fr.parent != nil && fr.spec != nil && fr.entry != nil {
		e.old, e.oldNames = fr.entry, fr.params
		e.pkg = fr.spec.Pkg
		for k, v := range fr.params {
			e.names[k] = v
		}
		return e
	}
	for k, v := range vm.entryPs {
		e.names[k] = v
	}
	return e
}

func (e *SEnv) fail(x *Expr, f string, a ...any) {
	panic(specErr{x.Pos + ": " + fmt.Sprintf(f, a...)})
}

func (e *SEnv) with(n string, v TV) *SEnv {
	c := *e
	c.bound = map[string]TV{}
	for k, x := range e.bound {
		c.bound[k] = x
	}
	c.bound[n] = v
	return &c
}

func (e *SEnv) oldEnv(x *Expr) *SEnv {
	if e.inOld {
		return e
	}
	if e.old == nil {
		e.fail(x, "old() not available here")
	}
	c := *e
	c.heap, c.alloc = e.old.heap, e.old.alloc
	c.names = e.oldNames
	c.inOld = true
	c.frame = nil
	return &c
}

func (e *SEnv) boolE(x *Expr) *Term {
	tv := e.eval(x)
	t, ok := tv.V.(VTerm)
	if !ok || t.T.Sort != SBool {
		e.fail(x, "boolean expected")
	}
	return t.T
}
func (e *SEnv) goal(x *Expr) *Term { return e.boolE(x) }
func (e *SEnv) intE(x *Expr) *Term {
	tv := e.eval(x)
	t, ok := tv.V.(VTerm)
	if !ok {
		e.fail(x, "scalar expected")
	}
	return t.T
}
func (e *SEnv) intsE(xs []*Expr) []*Term {
	var out []*Term
	for _, x := range xs {
		out = append(out, e.intE(x))
	}
	return out
}

func tInt(t *Term) TV  { return TV{V: VTerm{t}} }
func tBool(t *Term) TV { return TV{V: VTerm{t}} }

func (e *SEnv) typeOf(s *STy, x *Expr) types.Type {
	if s.K != "ptr" && s.K != "named" {
		return nil
	}
	pkg, name := e.pkg, s.Name
	if i := strings.LastIndexByte(s.Name, '.'); i >= 0 {
		pkg, name = s.Name[:i], s.Name[i+1:]
		if a, ok := e.vm.spec.Aliases[pkg]; ok {
			pkg = a
		}
	}
	var tp *types.Package
	if p, ok := e.vm.ld.Pkgs[pkg]; ok {
		tp = p
	} else {
		for _, p := range e.vm.ld.Prog.AllPackages() {
			if p.Pkg.Path() == pkg {
				tp = p.Pkg
			}
		}
	}
	if tp == nil {
		e.fail(x, "unknown package %s", pkg)
	}
	o := tp.Scope().Lookup(name)
	if p, ok := e.vm.ld.Pkgs[e.vm.pkg]; ok && o == nil && pkg == e.pkg {
		o = p.Scope().Lookup(name) // contracts on other packages speak of this package's types
	}
	if o == nil {
		e.fail(x, "unknown type %s", s.Name)
	}
	if s.K == "ptr" {
		return types.NewPointer(o.Type())
	}
	return o.Type()
}

// local finds a Go local variable by name in the current (or enclosing inlined) frame.
func (e *SEnv) local(name string) (TV, bool) {
	for f := e.frame; f != nil; f = f.parent {
		best := -1
		var bt types.Type
		for a, id := range f.allocs {
			if a.Comment == name && id > best && useCell(a) {
				best = id
				bt = a.Type().(*types.Pointer).Elem()
			}
		}
		if best >= 0 {
			if c, ok := e.cells[best]; ok {
				return TV{V: c.V, T: bt}, true
			}
		}
		for a := range f.allocs {
			_ = a
		}
		// heap-allocated locals (structs whose address is taken)
		for v, val := range f.env {
			if a, ok := v.(*ssa.Alloc); ok && !useCell(a) && a.Comment == name {
				return TV{V: val, T: a.Type()}, true
			}
		}
	}
	return TV{}, false
}

// paramCell: current value of a parameter given by its position.
func (e *SEnv) paramNow(name string) (TV, bool) {
	f := e.frame
	for f != nil && f.spec == nil {
		f = f.parent
	}
	if f == nil || f.spec == nil {
		return TV{}, false
	}
	want := append([]string{}, f.spec.Params...)
	if f.fn.Signature.Recv() != nil {
		rn := f.spec.Recv
		if rn == "" {
			rn = "this"
		}
		want = append([]string{rn}, want...)
	}
	for i, n := range want {
		if n == name && i < len(f.fn.Params) {
			for _, r := range *f.fn.Params[i].Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Val == f.fn.Params[i] {
					if a, ok := s.Addr.(*ssa.Alloc); ok {
						if id, ok := f.allocs[a]; ok {
							return TV{V: e.cells[id].V, T: f.fn.Params[i].Type()}, true
						}
					}
				}
			}
		}
	}
	// named results by position
	rs := f.fn.Signature.Results()
	for i, n := range f.spec.Results {
		if n == name && i < rs.Len() && rs.At(i).Name() != "" {
			g := e.frame
			e2 := *e
			e2.frame = f
			tv, ok := e2.local(rs.At(i).Name())
			_ = g
			return tv, ok
		}
	}
	return TV{}, false
}

func (e *SEnv) ident(x *Expr) TV {
	n := x.Name
	if v, ok := e.bound[n]; ok {
		return v
	}
	if n == "nil" {
		return TV{V: VTerm{Num(0)}, nil: true}
	}
	if n == "alloc" {
		return tInt(e.alloc)
	}
	if n == "calldepth" && e.st != nil && e.st.fr != nil { // call frames between the function under verification and the code here
		return tInt(Num(int64(e.st.fr.depth)))
	}
	if e.frame != nil && e.inLoop {
		if v, ok := e.override(n); ok {
			return v
		}
		if n != "rangeindex" && e.rangeKeyNow(n) {
			if v, ok := e.local("rangeindex"); ok {
				return TV{V: VTerm{Add(v.V.(VTerm).T, Num(1))}, T: v.T}
			}
		}
		if v, ok := e.local(n); ok {
			return v
		}
		if v, ok := e.paramNow(n); ok {
			return v
		}
	}
	if v, ok := e.names[n]; ok {
		return v
	}
	if e.frame != nil {
		if v, ok := e.local(n); ok {
			return v
		}
	}
	if e.frame != nil && (n == "rangeiter" || n == "rangekey" || n == "rangepos") {
		if v, ok := e.iter(n); ok {
			return v
		}
	}
	if g, ok := e.vm.spec.GVars[n]; ok {
		return TV{V: VTerm{e.vm.heapGet(e.heap, "G:"+n, e.gsort(n))}, S: g, T: e.typeOf(g, &Expr{K: "id", Name: n})}
	}
	if p, ok := e.vm.ld.Pkgs[e.pkg]; ok {
		switch o := p.Scope().Lookup(n).(type) {
		case *types.Const:
			if o.Val().Kind() == constant.Int {
				b := new(big.Int)
				b.SetString(o.Val().ExactString(), 10)
				return TV{V: VTerm{NumB(b)}, T: o.Type()}
			}
			return TV{V: e.vm.constVal(o.Val(), o.Type()), T: o.Type()}
		case *types.Var:
			if g := e.vm.ld.SSA[e.pkg].Var(n); g != nil {
				return e.global(g)
			}
		}
	}
	if d, ok := e.vm.spec.Defs[n]; ok && len(d.Params) == 0 {
		return e.macro(x, d, nil)
	}
	if f, ok := e.vm.spec.Funs[n]; ok && len(f.Args) == 0 {
		return TV{V: VTerm{Sym(n, f.Res)}}
	}
	if e.frame != nil {
		if v, ok := e.adapted(n); ok {
			return v
		}
	}
	e.fail(x, "unknown name %q", n)
	return TV{}
}

// iter: the state of the (only) map iteration under way: rangeiter, the number of keys produced so far,
// rangekey[i], the i-th key in the order of this iteration, and rangepos[k], the place of key k in it.
func (e *SEnv) iter(n string) (TV, bool) {
	for f := e.frame; f != nil; f = f.parent {
		var found []VIter
		for _, v := range f.env {
			if it, ok := v.(VIter); ok && it.N != nil {
				found = append(found, it)
			}
		}
		if len(found) != 1 {
			continue
		}
		it := found[0]
		key := &STy{K: "int"}
		if _, v, ok := splitArr(it.Enum.Sort); ok && v == SStr {
			key = &STy{K: "str"}
		}
		switch n {
		case "rangeiter":
			return TV{V: e.cells[it.Id].V, T: types.Typ[types.Int]}, true
		case "rangekey":
			return TV{V: VTerm{it.Enum}, S: &STy{K: "arr", Key: &STy{K: "int"}, Val: key}}, true
		default:
			return TV{V: VTerm{it.Pos}, S: &STy{K: "arr", Key: key, Val: &STy{K: "int"}}}, true
		}
	}
	return TV{}, false
}

func (e *SEnv) global(g *ssa.Global) TV {
	t := g.Type().(*types.Pointer).Elem()
	switch p := e.vm.globalAddr(e.st, g).(type) {
	case VTerm:
		return TV{V: p, T: g.Type()}
	case VPtr:
		var ts []*Term
		for _, c := range e.vm.comps(t) {
			e.vm.keySort[p.L.key+c.suffix] = c.sort
			ts = append(ts, e.vm.heapGet(e.heap, p.L.key+c.suffix, c.sort))
		}
		return TV{V: e.vm.build(ts, t), T: t}
	}
	panic(specErr{"variable " + g.Name()})
}

// imported finds a variable of an imported package, written alias.Name.
func (e *SEnv) imported(x *Expr) *ssa.Global {
	if x.Args[0].K != "id" {
		return nil
	}
	n := x.Args[0].Name
	if _, ok := e.bound[n]; ok {
		return nil
	}
	if _, ok := e.names[n]; ok {
		return nil
	}
	path, ok := e.vm.spec.Aliases[n]
	if !ok {
		return nil
	}
	for _, p := range e.vm.ld.Prog.AllPackages() {
		if p.Pkg.Path() == path {
			return p.Var(x.Name)
		}
	}
	return nil
}

func (e *SEnv) gsort(n string) Sort {
	s := e.vm.spec.GVars[n].sort()
	e.vm.keySort["G:"+n] = s
	return s
}

func (e *SEnv) macro(x *Expr, d *Def, args []TV) TV {
	if len(args) != len(d.Params) {
		e.fail(x, "%s expects %d arguments", d.Name, len(d.Params))
	}
	if e.depth > 60 {
		e.fail(x, "recursive definition %s", d.Name)
	}
	c := *e
	c.depth++
	c.bound = map[string]TV{}
	for i, p := range d.Params {
		c.bound[p] = args[i]
	}
	return c.eval(d.Body)
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	}
	return nil
}

func (e *SEnv) eval(x *Expr) TV {
	vm := e.vm
	switch x.K {
	case "num":
		return tInt(NumB(x.N))
	case "bool":
		return tBool(BoolT(x.Name == "true"))
	case "str":
		return TV{V: VTerm{vm.strLit(x.Name)}, T: types.Typ[types.String]}
	case "id":
		return e.ident(x)
	case "old":
		return e.oldEnv(x).eval(x.Args[0])
	case "ite":
		c := e.boolE(x.Args[0])
		a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
		if a.nil {
			a.T, a.S = b.T, b.S
		}
		a, b = e.coerce(a, b)
		if sa, ok := a.V.(VSlice); ok {
			sb := b.V.(VSlice)
			return TV{V: VSlice{Ite(c, sa.Arr, sb.Arr), Ite(c, sa.Off, sb.Off), Ite(c, sa.Len, sb.Len), Ite(c, sa.Cap, sb.Cap)}, T: a.T}
		}
		return TV{V: VTerm{Ite(c, a.V.(VTerm).T, b.V.(VTerm).T)}, T: a.T, S: a.S}
	case "un":
		a := e.eval(x.Args[0])
		t := a.V.(VTerm).T
		if x.Op == "!" {
			return tBool(Not(t))
		}
		return tInt(Neg(t))
	case "bin":
		return e.bin(x)
	case "let":
		return e.with(x.Name, e.eval(x.Args[0])).eval(x.Args[1])
	case "quant":
		var vs []*Term
		c := *e
		c.bound = map[string]TV{}
		for k, v := range e.bound {
			c.bound[k] = v
		}
		for _, q := range x.Vars {
			vm.gensym++
			b := Bound(fmt.Sprintf("%s?%d", q.Name, vm.gensym), q.T.sort())
			vs = append(vs, b)
			c.bound[q.Name] = TV{V: VTerm{b}, T: e.typeOf(q.T, x), S: q.T}
		}
		body := c.boolE(x.Args[0])
		var pats [][]*Term
		for _, p := range x.Pats {
			var ts []*Term
			for _, pe := range p {
				pv := c.eval(pe)
				for _, t := range vm.flattenTV(pv) {
					ts = append(ts, t)
				}
			}
			pats = append(pats, ts)
		}
		if x.Op == "forall" {
			return tBool(Forall(vs, pats, body))
		}
		return tBool(Exists(vs, pats, body))
	case "mapof":
		q := x.Vars[0]
		vm.gensym++
		b := Bound(fmt.Sprintf("%s?%d", q.Name, vm.gensym), q.T.sort())
		c := e.with(q.Name, TV{V: VTerm{b}, T: e.typeOf(q.T, x), S: q.T})
		body := c.eval(x.Args[0]).V.(VTerm).T
		a := vm.freshSym("mapof", arrSort(b.Sort, body.Sort))
		pats := [][]*Term{{Select(a, b)}}
		e.st.assume(Forall([]*Term{b}, pats, Eq(Select(a, b), body)))
		return TV{V: VTerm{a}, S: &STy{K: "arr", Key: q.T, Val: &STy{K: "int"}}}
	case "update":
		a := e.eval(x.Args[0])
		i := e.intE(x.Args[1])
		v := e.intE(x.Args[2])
		return TV{V: VTerm{Store(a.V.(VTerm).T, i, v)}, S: a.S}
	case "field":
		if g := e.imported(x); g != nil {
			return e.global(g)
		}
		return e.field(x)
	case "index":
		return e.index(x)
	case "slice":
		a := e.eval(x.Args[0])
		s, ok := a.V.(VSlice)
		if !ok {
			e.fail(x, "slice expected")
		}
		lo, hi := Num(0), s.Len
		if x.Args[1] != nil {
			lo = e.intE(x.Args[1])
		}
		if x.Args[2] != nil {
			hi = e.intE(x.Args[2])
		}
		return TV{V: VSlice{s.Arr, Add(s.Off, lo), Sub(hi, lo), Sub(s.Cap, lo)}, T: a.T}
	case "call":
		return e.call(x)
	}
	e.fail(x, "cannot evaluate %s", x.K)
	return TV{}
}

func (vm *VM) flattenTV(v TV) []*Term {
	switch x := v.V.(type) {
	case VTerm:
		return []*Term{x.T}
	case VSlice:
		return []*Term{x.Arr, x.Off, x.Len, x.Cap}
	case VIface:
		return []*Term{x.Tag, x.Data}
	case VArr:
		return x.C
	case VStruct:
		return vm.flatten(x, v.T)
	case VFunc:
		return []*Term{vm.funcTerm(x)}
	}
	unsup("flattenTV %T", v.V)
	return nil
}

func (e *SEnv) coerce(a, b TV) (TV, TV) {
	if a.nil && !b.nil {
		b2, a2 := e.coerce(b, a)
		return a2, b2
	}
	if b.nil {
		switch a.V.(type) {
		case VSlice:
			b.V = VSlice{Num(0), Num(0), Num(0), Num(0)}
		case VIface:
			b.V = VIface{Num(0), Num(0)}
		}
	}
	// integer literals in bit-vector context
	if at, ok := a.V.(VTerm); ok {
		if bt, ok := b.V.(VTerm); ok {
			if isBV(at.T.Sort) && bt.T.Kind == KInt {
				b.V = VTerm{BVLit(bt.T.N, bvWidth(at.T.Sort))}
			}
			if isBV(bt.T.Sort) && at.T.Kind == KInt {
				a.V = VTerm{BVLit(at.T.N, bvWidth(bt.T.Sort))}
			}
		}
	}
	return a, b
}

func (e *SEnv) eq(x *Expr, a, b TV) *Term {
	if a.nil || b.nil {
		if b.nil {
			a, b = b, a
		}
		switch v := b.V.(type) {
		case VSlice:
			return Eq(v.Arr, Num(0))
		case VIface:
			return Eq(v.Tag, Num(0))
		case VPtr, VFunc:
			return False
		}
	}
	a, b = e.coerce(a, b)
	fa, fb := e.vm.flattenTV(a), e.vm.flattenTV(b)
	if len(fa) != len(fb) {
		e.fail(x, "comparison of different shapes")
	}
	var cs []*Term
	for i := range fa {
		if fa[i].Sort != fb[i].Sort {
			e.fail(x, "comparison of sorts %s and %s", fa[i].Sort, fb[i].Sort)
		}
		cs = append(cs, Eq(fa[i], fb[i]))
	}
	return And(cs...)
}

func (e *SEnv) bin(x *Expr) TV {
	switch x.Op {
	case "&&":
		return tBool(And(e.boolE(x.Args[0]), e.boolE(x.Args[1])))
	case "||":
		return tBool(Or(e.boolE(x.Args[0]), e.boolE(x.Args[1])))
	case "==>":
		return tBool(Implies(e.boolE(x.Args[0]), e.boolE(x.Args[1])))
	case "<==>":
		return tBool(Eq(e.boolE(x.Args[0]), e.boolE(x.Args[1])))
	}
	a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
	switch x.Op {
	case "==":
		return tBool(e.eq(x, a, b))
	case "!=":
		return tBool(Not(e.eq(x, a, b)))
	}
	a, b = e.coerce(a, b)
	ta, ok1 := a.V.(VTerm)
	tb, ok2 := b.V.(VTerm)
	if !ok1 || !ok2 {
		e.fail(x, "scalar operands expected for %s", x.Op)
	}
	p, q := ta.T, tb.T
	if isBV(p.Sort) || isBV(q.Sort) {
		return e.bvbin(x, a, b, p, q)
	}
	switch x.Op {
	case "<":
		return tBool(Lt(p, q))
	case "<=":
		return tBool(Le(p, q))
	case ">":
		return tBool(Gt(p, q))
	case ">=":
		return tBool(Ge(p, q))
	case "+":
		if p.Sort == SStr {
			return TV{V: VTerm{e.vm.sconcat(e.st, p, q)}, T: types.Typ[types.String]}
		}
		return tInt(Add(p, q))
	case "-":
		return tInt(Sub(p, q))
	case "*":
		return tInt(Mul(p, q))
	case "/":
		return tInt(Div(p, q))
	case "%":
		return tInt(Mod(p, q))
	}
	e.fail(x, "operator %s", x.Op)
	return TV{}
}

func (e *SEnv) bvbin(x *Expr, a, b TV, p, q *Term) TV {
	if p.Sort != q.Sort {
		e.fail(x, "bit-vector widths differ: %s %s", p.Sort, q.Sort)
	}
	signed := a.T != nil && isInteger(a.T) && !isUnsigned(a.T)
	u, s := map[string]string{"<": "bvult", "<=": "bvule", ">": "bvugt", ">=": "bvuge"}, map[string]string{"<": "bvslt", "<=": "bvsle", ">": "bvsgt", ">=": "bvsge"}
	if op, ok := u[x.Op]; ok {
		if signed {
			op = s[x.Op]
		}
		return tBool(App(op, SBool, p, q))
	}
	m := map[string]string{"+": "bvadd", "-": "bvsub", "*": "bvmul", "/": "bvudiv", "%": "bvurem", "&": "bvand", "|": "bvor", "^": "bvxor", "<<": "bvshl", ">>": "bvlshr"}
	if op, ok := m[x.Op]; ok {
		return TV{V: VTerm{App(op, p.Sort, p, q)}, T: a.T}
	}
	e.fail(x, "bv operator %s", x.Op)
	return TV{}
}

func (e *SEnv) field(x *Expr) TV {
	vm := e.vm
	// alias.Name for package-level identifiers is not supported; Type.field handled by ghostAssign
	a := e.eval(x.Args[0])
	switch v := a.V.(type) {
	case VSlice:
		switch x.Name {
		case "len":
			return tInt(v.Len)
		case "cap":
			return tInt(v.Cap)
		case "arr":
			return tInt(v.Arr)
		case "off":
			return tInt(v.Off)
		}
	case VIface:
		switch x.Name {
		case "tag":
			return tInt(v.Tag)
		case "data":
			return tInt(v.Data)
		}
	case VStruct:
		i, f := e.findField(x, a.T, x.Name)
		return TV{V: v.F[i], T: f.t, S: f.sty}
	case VPtr:
		if v.L.kind == 'c' {
			c := e.cells[v.L.cell]
			sv := vm.pathGet(c.V, c.T, v.L.path)
			if vs, ok := sv.(VStruct); ok {
				i, f := e.findField(x, v.L.T, x.Name)
				return TV{V: vs.F[i], T: f.t, S: f.sty}
			}
		}
	case VTerm:
		if a.T != nil {
			t := a.T
			if p, ok := under(t).(*types.Pointer); ok {
				t = p.Elem()
			}
			if isStruct(t) {
				_, f := e.findField(x, t, x.Name)
				if !f.ghost && isStruct(f.t) {
					// nested struct: its address
					return TV{V: VTerm{vm.subAddr(e.st, v.T, t, f.name)}, T: types.NewPointer(f.t)}
				}
				r := vm.loadField(e.st, e.heap, v.T, t, f, e.st != nil && !f.ghost)
				if f.ghost {
					return TV{V: r, T: e.typeOf(f.sty, x), S: f.sty}
				}
				return TV{V: r, T: f.t, S: f.sty}
			}
		}
	}
	e.fail(x, "no field %q on %T %v", x.Name, a.V, a.T)
	return TV{}
}

func (e *SEnv) findField(x *Expr, t types.Type, name string) (int, structField) {
	if t == nil || !isStruct(t) {
		e.fail(x, "field %q of a non-struct", name)
	}
	fs := e.vm.structFields(t)
	for i, f := range fs {
		if f.name == name {
			return i, f
		}
	}
	if now := e.vm.renamedField(t, name); now != "" && now != name {
		return e.findField(x, t, now)
	}
	e.fail(x, "struct %s has no field %q", t, name)
	return 0, structField{}
}

func (e *SEnv) index(x *Expr) TV {
	vm := e.vm
	a := e.eval(x.Args[0])
	switch v := a.V.(type) {
	case VSlice:
		i := e.intE(x.Args[1])
		et := elemType(a.T)
		if isStruct(et) {
			return TV{V: VTerm{vm.elemAddr(e.st, v.Arr, Add(v.Off, i), et)}, T: types.NewPointer(et)}
		}
		return TV{V: vm.loadElem(e.st, e.heap, v.Arr, Add(v.Off, i), et, e.st != nil), T: et}
	case VTerm:
		if v.T.Sort == SStr {
			return tInt(vm.sat(v.T, e.intE(x.Args[1])))
		}
		if a.T != nil {
			switch u := under(a.T).(type) {
			case *types.Map:
				k := e.eval(x.Args[1])
				return TV{V: vm.mapVal(e.st, e.heap, v.T, u, vm.flattenTV(k)[0]), T: u.Elem()}
			case *types.Array:
				return TV{V: vm.arrGet(a.V, a.T, e.intE(x.Args[1])), T: u.Elem()}
			case *types.Pointer:
				if at, ok := under(u.Elem()).(*types.Array); ok {
					i := e.intE(x.Args[1])
					if isStruct(at.Elem()) {
						return TV{V: VTerm{vm.elemAddr(e.st, v.T, i, at.Elem())}, T: types.NewPointer(at.Elem())}
					}
					return TV{V: vm.loadElem(e.st, e.heap, v.T, i, at.Elem(), false), T: at.Elem()}
				}
			}
		}
		if _, _, ok := splitArr(v.T.Sort); ok {
			k := e.eval(x.Args[1])
			r := vm.sel(v.T, vm.flattenTV(k)[0])
			var s *STy
			var t types.Type
			if a.S != nil && a.S.K == "arr" {
				s = a.S.Val
				t = e.typeOf(s, x)
			}
			return TV{V: VTerm{r}, S: s, T: t}
		}
	case VArr:
		return TV{V: vm.arrGet(a.V, a.T, e.intE(x.Args[1])), T: elemType(a.T)}
	case VPtr:
		if v.L.kind == 'c' {
			c := e.cells[v.L.cell]
			return TV{V: vm.arrGet(vm.pathGet(c.V, c.T, v.L.path), v.L.T, e.intE(x.Args[1])), T: elemType(v.L.T)}
		}
	}
	e.fail(x, "cannot index %T", a.V)
	return TV{}
}

func (e *SEnv) call(x *Expr) TV {
	vm := e.vm
	if d, ok := vm.spec.Defs[x.Name]; ok {
		var as []TV
		for _, a := range x.Args {
			as = append(as, e.eval(a))
		}
		return e.macro(x, d, as)
	}
	if f, ok := vm.spec.Funs[x.Name]; ok {
		var as []*Term
		for _, a := range x.Args {
			as = append(as, vm.flattenTV(e.eval(a))...)
		}
		if len(as) != len(f.Args) {
			e.fail(x, "%s expects %d arguments, has %d", x.Name, len(f.Args), len(as))
		}
		for i := range as {
			if as[i].Sort != f.Args[i] {
				if isBV(f.Args[i]) && as[i].Kind == KInt {
					as[i] = BVLit(as[i].N, bvWidth(f.Args[i]))
					continue
				}
				e.fail(x, "argument %d of %s has sort %s, want %s", i+1, x.Name, as[i].Sort, f.Args[i])
			}
		}
		var s *STy
		if f.Res == SStr {
			return TV{V: VTerm{App(x.Name, f.Res, as...)}, T: types.Typ[types.String]}
		}
		return TV{V: VTerm{App(x.Name, f.Res, as...)}, S: s}
	}
	arg := func(i int) TV { return e.eval(x.Args[i]) }
	switch x.Name {
	case "len", "cap":
		a := arg(0)
		switch v := a.V.(type) {
		case VSlice:
			if x.Name == "len" {
				return tInt(v.Len)
			}
			return tInt(v.Cap)
		case VTerm:
			if v.T.Sort == SStr {
				return tInt(vm.slen(v.T))
			}
			if u, ok := under2(a.T).(*types.Map); ok {
				return tInt(vm.mapLen(e.st, e.heap, v.T, u))
			}
		}
		e.fail(x, "len of %T", a.V)
	case "elems": // the backing array contents (index with .off)
		a := arg(0)
		if v, ok := a.V.(VTerm); ok && v.T.Sort == SStr {
			return TV{V: VTerm{vm.sbytes(v.T)}}
		}
		s := a.V.(VSlice)
		k := vm.elemKeys(elemType(a.T))
		return TV{V: VTerm{vm.sel(vm.heapGet(e.heap, k[0], vm.keySort[k[0]]), s.Arr)}}
	case "fresh": // allocated since the old state
		a := arg(0)
		t := vm.flattenTV(a)[0]
		o := e.oldEnv(x)
		return tBool(And(Ge(t, o.alloc), Lt(t, e.alloc)))
	case "fieldmap": // fieldmap(T, f): field f of every T, as an array
		t := e.typeOf(&STy{K: "ptr", Name: x.Args[0].Name}, x).(*types.Pointer).Elem()
		_, f := e.findField(x, t, x.Args[1].Name)
		s := f.sort
		if !f.ghost {
			s = vm.comps(f.t)[0].sort
		}
		return TV{V: VTerm{vm.heapGet(e.heap, vm.fieldKey(t, f.name), arrSort(SInt, s))}, S: &STy{K: "arr", Key: &STy{K: "int"}, Val: &STy{K: "int"}}}
	case "allocated":
		t := vm.flattenTV(arg(0))[0]
		return tBool(And(Lt(Num(0), t), Lt(t, e.alloc)))
	case "has":
		m, k := arg(0), arg(1)
		return tBool(vm.mapHas(e.st, e.heap, m.V.(VTerm).T, under(m.T).(*types.Map), vm.flattenTV(k)[0]))
	case "unchanged":
		var cs []*Term
		for _, a := range x.Args {
			cs = append(cs, e.eq(x, e.eval(a), e.oldEnv(x).eval(a)))
		}
		return tBool(And(cs...))
	case "min":
		a, b := e.intE(x.Args[0]), e.intE(x.Args[1])
		return tInt(Ite(Lt(a, b), a, b))
	case "max":
		a, b := e.intE(x.Args[0]), e.intE(x.Args[1])
		return tInt(Ite(Lt(a, b), b, a))
	case "abs":
		a := e.intE(x.Args[0])
		return tInt(Ite(Lt(a, Num(0)), Neg(a), a))
	case "tdiv": // truncated division
		a, b := e.intE(x.Args[0]), e.intE(x.Args[1])
		return tInt(Ite(Ge(a, Num(0)), Div(a, b), Neg(Div(Neg(a), b))))
	case "trem":
		a, b := e.intE(x.Args[0]), e.intE(x.Args[1])
		return tInt(Ite(Ge(a, Num(0)), Mod(a, b), Neg(Mod(Neg(a), b))))
	case "pow2":
		a := e.intE(x.Args[0])
		if a.isNum() && a.N.IsInt64() && a.N.Int64() >= 0 && a.N.Int64() < 4096 {
			return tInt(NumB(pow2(uint(a.N.Int64()))))
		}
		vm.declFun("pow2", []Sort{SInt}, SInt)
		return tInt(App("pow2", SInt, a))
	case "tagof":
		return tInt(Num(int64(vm.tagId("type:" + x.Args[0].Name))))
	case "funcval":
		pkg := e.pkg
		n := x.Args[0].Name
		fn := vm.ld.FindFunc(pkg, n)
		if fn == nil {
			e.fail(x, "no function %s", n)
		}
		return tInt(vm.funcTerm(VFunc{Fn: fn}))
	case "zext": // zext(x, w)
		t := e.intE(x.Args[0])
		w := int(x.Args[1].N.Int64())
		if bvWidth(t.Sort) == w {
			return TV{V: VTerm{t}}
		}
		return TV{V: VTerm{App(fmt.Sprintf("(_ zero_extend %d)", w-bvWidth(t.Sort)), bvSort(w), t)}}
	case "bvlit":
		return TV{V: VTerm{BVLit(x.Args[0].N, int(x.Args[1].N.Int64()))}}
	case "extract":
		t := e.intE(x.Args[2])
		hi, lo := int(x.Args[0].N.Int64()), int(x.Args[1].N.Int64())
		return TV{V: VTerm{App(fmt.Sprintf("(_ extract %d %d)", hi, lo), bvSort(hi-lo+1), t)}}
	case "atstart":
		if e.loopStart == nil {
			e.fail(x, "atstart outside loop end")
		}
		c := *e
		c.heap, c.alloc, c.cells = e.loopStart.heap, e.loopStart.alloc, e.loopStart.cells
		c.frame = e.loopStart.frame
		return c.eval(x.Args[0])
	case "constarr":
		a := arg(0)
		t := a.V.(VTerm).T
		return TV{V: VTerm{ConstArr(arrSort(SInt, t.Sort), t)}}
	case "ref": // numeric reference of a pointer
		a := arg(0)
		return tInt(vm.flattenTV(a)[0])
	case "ptr": // ptr(T, n)
		t := e.typeOf(&STy{K: "ptr", Name: x.Args[0].Name}, x)
		return TV{V: VTerm{e.intE(x.Args[1])}, T: t}
	case "itoa":
		return TV{V: VTerm{vm.itoa(e.st, e.intE(x.Args[0]))}, T: types.Typ[types.String]}
	case "zpad":
		return TV{V: VTerm{vm.zpad(e.intE(x.Args[0]), e.intE(x.Args[1]))}, T: types.Typ[types.String]}
	case "slen":
		return tInt(vm.slen(e.intE(x.Args[0])))
	case "strof": // strof(array, off, len)
		return TV{V: VTerm{vm.strOf(e.st, e.intE(x.Args[0]), e.intE(x.Args[1]), e.intE(x.Args[2]))}, T: types.Typ[types.String]}
	case "substr":
		return TV{V: VTerm{vm.ssub(e.st, e.intE(x.Args[0]), e.intE(x.Args[1]), e.intE(x.Args[2]))}, T: types.Typ[types.String]}
	case "boxed": // boxed value carried by an interface: boxed(iface, T)
		a := arg(0).V.(VIface)
		t := e.typeOf(&STy{K: "named", Name: x.Args[1].Name}, x)
		return TV{V: vm.unboxIface(e.st, a, t), T: t}
	}
	if r, ok := e.special(x); ok {
		return r
	}
	e.fail(x, "unknown function %q", x.Name)
	return TV{}
}

// ---- modifies clauses

func (e *SEnv) modItem(m ModClause) []*ModItem {
	vm := e.vm
	var out []*ModItem
	x := m.E
	if len(m.Vars) > 0 {
		// n.f for n *T where P
		if x.K != "field" || x.Args[0].K != "id" || x.Args[0].Name != m.Vars[0].Name {
			e.fail(x, "quantified modifies must be var.field")
		}
		t := e.typeOf(m.Vars[0].T, x).(*types.Pointer).Elem()
		_, f := e.findField(x, t, x.Name)
		pred := func(r *Term) *Term {
			if m.Where == nil {
				return True
			}
			c := e.with(m.Vars[0].Name, TV{V: VTerm{r}, T: types.NewPointer(t), S: m.Vars[0].T})
			return c.boolE(m.Where)
		}
		// freeze the heap the predicate is evaluated in
		snap := *e
		h := map[string]*Term{}
		for k, v := range e.heap {
			h[k] = v
		}
		snap.heap = h
		e2 := &snap
		pred = func(r *Term) *Term {
			if m.Where == nil {
				return True
			}
			c := e2.with(m.Vars[0].Name, TV{V: VTerm{r}, T: types.NewPointer(t), S: m.Vars[0].T})
			return c.boolE(m.Where)
		}
		for _, k := range vm.fieldKeys(t, f) {
			out = append(out, &ModItem{Key: k, Pred: pred})
		}
		return out
	}
	switch x.K {
	case "id":
		if _, ok := vm.spec.GVars[x.Name]; ok {
			e.gsort(x.Name)
			return []*ModItem{{Key: "G:" + x.Name, Whole: true}}
		}
		if p, ok := vm.ld.Pkgs[e.pkg]; ok {
			if v, ok := p.Scope().Lookup(x.Name).(*types.Var); ok {
				for _, c := range vm.comps(v.Type()) {
					k := "V:" + e.pkg + "." + x.Name + c.suffix
					vm.keySort[k] = c.sort
					out = append(out, &ModItem{Key: k, Whole: true})
				}
				return out
			}
		}
	case "index":
		if x.Args[0].K == "id" {
			if _, ok := vm.spec.GVars[x.Args[0].Name]; ok {
				e.gsort(x.Args[0].Name)
				return []*ModItem{{Key: "G:" + x.Args[0].Name, Ref: vm.flattenTV(e.eval(x.Args[1]))[0]}}
			}
		}
		a := e.eval(x.Args[0])
		if s, ok := a.V.(VSlice); ok {
			i := e.intE(x.Args[1])
			for _, k := range vm.elemKeys(elemType(a.T)) {
				out = append(out, &ModItem{Key: k, Ref: s.Arr, Lo: Add(s.Off, i), Hi: Add(Add(s.Off, i), Num(1))})
			}
			return out
		}
	case "slice":
		a := e.eval(x.Args[0])
		s, ok := a.V.(VSlice)
		if !ok {
			e.fail(x, "slice expected in modifies")
		}
		lo, hi := Num(0), s.Cap
		if x.Args[1] != nil {
			lo = e.intE(x.Args[1])
			hi = s.Len
		}
		if x.Args[2] != nil {
			hi = e.intE(x.Args[2])
		}
		et := elemType(a.T)
		if isStruct(et) {
			e.fail(x, "modifies of struct elements")
		}
		for _, k := range vm.elemKeys(et) {
			out = append(out, &ModItem{Key: k, Ref: s.Arr, Lo: Add(s.Off, lo), Hi: Add(s.Off, hi)})
		}
		return out
	case "call":
		if x.Name == "contents" { // map contents
			a := e.eval(x.Args[0])
			mt := under(a.T).(*types.Map)
			dom, vals, _ := vm.mapKeys(mt)
			r := a.V.(VTerm).T
			out = append(out, &ModItem{Key: dom, Ref: r})
			for _, k := range vals {
				out = append(out, &ModItem{Key: k, Ref: r})
			}
			return out
		}
		if x.Name == "all" { // all(T, field): the field of every object
			t := e.typeOf(&STy{K: "ptr", Name: x.Args[0].Name}, x).(*types.Pointer).Elem()
			_, f := e.findField(x, t, x.Args[1].Name)
			for _, k := range vm.fieldKeys(t, f) {
				out = append(out, &ModItem{Key: k, Whole: true})
			}
			return out
		}
		if x.Name == "deref" { // content of a pointer to a non-struct
			a := e.eval(x.Args[0])
			t := under(a.T).(*types.Pointer).Elem()
			for _, c := range vm.comps(t) {
				k := "B:" + typeKey(t) + c.suffix
				vm.keySort[k] = arrSort(SInt, c.sort)
				out = append(out, &ModItem{Key: k, Ref: a.V.(VTerm).T})
			}
			return out
		}
	case "field":
		a := e.eval(x.Args[0])
		if a.T != nil {
			t := a.T
			if p, ok := under(t).(*types.Pointer); ok {
				t = p.Elem()
			}
			r, ok := a.V.(VTerm)
			if ok && isStruct(t) {
				_, f := e.findField(x, t, x.Name)
				return e.modField(r.T, t, f)
			}
		}
	}
	e.fail(x, "modifies clause not understood")
	return nil
}

func (e *SEnv) modField(ref *Term, t types.Type, f structField) []*ModItem {
	var out []*ModItem
	if !f.ghost && isStruct(f.t) {
		sub := e.vm.subAddr(e.st, ref, t, f.name)
		for _, g := range e.vm.structFields(f.t) {
			out = append(out, e.modField(sub, f.t, g)...)
		}
		return out
	}
	for _, k := range e.vm.fieldKeys(t, f) {
		out = append(out, &ModItem{Key: k, Ref: ref})
	}
	return out
}

// ---- ghost assignments

func (vm *VM) ghostAssign(st *State, e *SEnv, g GhostAssign) {
	if vm.lenientOn {
		defer skipSpecErr()
	}
	var cond *Term
	if g.Cond != nil {
		cond = e.boolE(g.Cond)
	}
	put := func(key string, s Sort, ref *Term, v *Term) {
		m := vm.heapGet(st.heap, key, s)
		if ref == nil {
			if cond != nil {
				v = Ite(cond, v, m)
			}
			if vm.inModsWhole(key) != True {
				if _, _, ok := splitArr(s); ok {
					r := Bound("gr", SInt)
					goal := Or(Eq(Select(v, r), Select(m, r)), vm.inMods(st, key, r, nil))
					vm.oblige(st, "ghost-frame:"+key, token.NoPos, Forall([]*Term{r}, nil, goal))
				} else {
					vm.oblige(st, "ghost-frame:"+key, token.NoPos, False)
				}
			}
			vm.setHeap(st, key, v)
			return
		}
		gl := vm.inMods(st, key, ref, nil)
		if cond != nil {
			v = Ite(cond, v, Select(m, ref))
			gl = Implies(cond, gl)
		}
		vm.oblige(st, "ghost-frame:"+key, token.NoPos, gl)
		vm.setHeap(st, key, Store(m, ref, v))
	}
	rhs := vm.flattenTV(e.eval(g.RHS))[0]
	x := g.LHS
	switch x.K {
	case "id":
		if _, ok := vm.spec.GVars[x.Name]; ok {
			put("G:"+x.Name, e.gsort(x.Name), nil, rhs)
			return
		}
	case "index":
		if x.Args[0].K == "id" {
			n := x.Args[0].Name
			if _, ok := vm.spec.GVars[n]; ok {
				put("G:"+n, e.gsort(n), vm.flattenTV(e.eval(x.Args[1]))[0], rhs)
				return
			}
		}
	case "call":
		if x.Name == "all" {
			t := e.typeOf(&STy{K: "ptr", Name: x.Args[0].Name}, x).(*types.Pointer).Elem()
			_, f := e.findField(x, t, x.Args[1].Name)
			if !f.ghost {
				e.fail(x, "ghost assignment to a real field")
			}
			put(vm.fieldKey(t, f.name), arrSort(SInt, f.sort), nil, rhs)
			return
		}
	case "field":
		a := e.eval(x.Args[0])
		t := a.T
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		_, f := e.findField(x, t, x.Name)
		if !f.ghost {
			e.fail(x, "ghost assignment to a real field")
		}
		if r, ok := a.V.(VTerm); ok {
			put(vm.fieldKey(t, f.name), arrSort(SInt, f.sort), r.T, rhs)
			return
		}
	}
	e.fail(x, "ghost assignment not understood")
}

// hint: prove an intermediate fact and keep it, or instantiate a proved lemma.
func (vm *VM) hint(st *State, env *SEnv, label string, pos token.Pos, cl Clause) {
	if vm.lenientOn {
		defer skipSpecErr()
	}
	if cl.E.K != "apply" {
		t := env.boolE(cl.E)
		vm.oblige(st, label, pos, t)
		st.assume(t)
		return
	}
	l := vm.spec.Lemmas[cl.E.Name]
	if l == nil || len(l.Vars) != len(cl.E.Args) {
		env.fail(cl.E, "no lemma %s with %d arguments", cl.E.Name, len(cl.E.Args))
	}
	e := *env
	e.bound = map[string]TV{}
	for i, v := range l.Vars {
		a := env.eval(cl.E.Args[i])
		a.S = v.T
		e.bound[v.Name] = a
	}
	e.inLoop, e.frame, e.names = false, nil, nil
	e.pkg = l.Pkg
	hy := True
	for _, r := range l.Requires {
		hy = And(hy, e.boolE(r.E))
	}
	en := True
	for _, x := range l.Ensures {
		en = And(en, e.boolE(x.E))
	}
	st.assume(Implies(hy, en))
}

type GlobalInv struct {
	Pkg  string
	Prop string // only for this property; empty: for every one
	E    *Expr
}

func (vm *VM) globalInvs() []*Expr {
	var out []*Expr
	for _, g := range vm.spec.GlobalInvs {
		if g.Pkg == vm.pkg && (g.Prop == "" || g.Prop == vm.spec.Prop) && !vm.c.Flags["noglobalinv"] {
			out = append(out, g.E)
		}
	}
	for _, c := range vm.spec.Checks {
		if c.Pkg == vm.pkg && c.Gives != nil && hasStr(c.Props, vm.spec.Prop) && !vm.c.Flags["noglobalinv"] {
			out = append(out, c.Gives)
		}
	}
	return out
}

// evaluating `ensures` of exit states: parameters denote their entry values, so the env there
// must not look at the local cells first; SEnv.ident only consults locals first inside loops.

func under2(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return under(t)
}
