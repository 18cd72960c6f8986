package main

// Intrinsics: sync/atomic, unsafe, opaque function values; rely-guarantee support.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *SEnv) special(x *Expr) (TV, bool) {
	switch x.Name {
	case "hexs":
		return TV{V: VTerm{e.vm.hexs(e.eval(x.Args[0]).V.(VTerm).T)}, T: types.Typ[types.String]}, true
	case "hexn":
		return TV{V: VTerm{e.vm.hexn(e.intE(x.Args[0]), e.intE(x.Args[1]))}, T: types.Typ[types.String]}, true
	case "hexU":
		return TV{V: VTerm{e.vm.hexU(e.intE(x.Args[0]))}, T: types.Typ[types.String]}, true
	case "ptag": // the tag of an interface value holding a *T
		t := e.typeOf(&STy{K: "ptr", Name: x.Args[0].Name}, x)
		return tInt(Num(int64(e.vm.tagId("type:" + typeKey(t))))), true
	case "sdata": // address of the bytes of a string
		return tInt(e.vm.sdata(e.eval(x.Args[0]).V.(VTerm).T)), true
	case "ptrof": // address of the first element of a byte slice
		b := e.eval(x.Args[0]).V.(VSlice)
		return tInt(e.vm.bptr(b.Arr, b.Off)), true
	case "holds": // holds(f, x): the result of the function value f (a pure predicate on integers) for x
		f, ok := e.eval(x.Args[0]).V.(VFunc)
		if !ok || f.Fn == nil || f.Fn.Blocks == nil {
			unsup("predicate argument is not a known function")
		}
		return TV{V: VTerm{e.vm.pureCall(f, e.intE(x.Args[1]))}, T: types.Typ[types.Bool]}, true
	}
	return TV{}, false
}

// pureCall: the value of a loop-free predicate built from comparisons, as a term over its argument.
func (vm *VM) pureCall(f VFunc, arg *Term) *Term {
	fn := f.Fn
	if len(fn.Params) != 1 || len(fn.Blocks) > 60 {
		unsup("predicate %s", fn)
	}
	var run func(b, from *ssa.BasicBlock, env map[ssa.Value]*Term, depth int) *Term
	run = func(b, from *ssa.BasicBlock, env map[ssa.Value]*Term, depth int) *Term {
		if depth > 60 {
			unsup("predicate %s has a loop", fn)
		}
		e2 := map[ssa.Value]*Term{}
		for k, v := range env {
			e2[k] = v
		}
		get := func(v ssa.Value) *Term {
			if t, ok := e2[v]; ok {
				return t
			}
			if c, ok := v.(*ssa.Const); ok && c.Value != nil {
				if t, ok := vm.constVal(c.Value, c.Type()).(VTerm); ok {
					return t.T
				}
			}
			unsup("predicate %s: operand %s", fn, v)
			return nil
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.DebugRef, *ssa.RunDefers:
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "ssa:deferstack" {
					unsup("predicate %s: %s", fn, x)
				}
				e2[x] = Num(0)
			case *ssa.Phi:
				for i, p := range b.Preds {
					if p == from {
						e2[x] = get(x.Edges[i])
					}
				}
			case *ssa.BinOp:
				l, r := get(x.X), get(x.Y)
				switch x.Op {
				case token.EQL:
					e2[x] = Eq(l, r)
				case token.NEQ:
					e2[x] = Not(Eq(l, r))
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					if !isInteger(x.X.Type()) || vm.bv {
						unsup("predicate %s: %s", fn, x)
					}
					e2[x] = cmp(x.Op.String(), l, r)
				default:
					unsup("predicate %s: %s", fn, x)
				}
			case *ssa.Alloc:
				if x.Heap {
					unsup("predicate %s: %s", fn, x)
				}
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					unsup("predicate %s: %s", fn, x)
				}
				e2[x.Addr] = get(x.Val)
			case *ssa.UnOp:
				if _, local := x.X.(*ssa.Alloc); x.Op == token.MUL && local {
					e2[x] = get(x.X)
					continue
				}
				if x.Op != token.NOT {
					unsup("predicate %s: %s", fn, x)
				}
				e2[x] = Not(get(x.X))
			case *ssa.If:
				return Ite(get(x.Cond), run(b.Succs[0], b, e2, depth+1), run(b.Succs[1], b, e2, depth+1))
			case *ssa.Jump:
				return run(b.Succs[0], b, e2, depth+1)
			case *ssa.Return:
				return get(x.Results[0])
			default:
				unsup("predicate %s: %s", fn, in)
			}
		}
		unsup("predicate %s", fn)
		return nil
	}
	return run(fn.Blocks[0], nil, map[ssa.Value]*Term{fn.Params[0]: arg}, 0)
}

func (vm *VM) intrinsic(st *State, pkg, key string, fn *ssa.Function, vals []Val, ret ssa.Value, b *ssa.BasicBlock, idx int, pos token.Pos) bool {
	if key == "init" && pkg != vm.pkg {
		vm.cont(st, ret, nil, b, idx)
		return true
	}
	if pkg == "fmt" && key == "Sprintf" {
		if t, ok := vm.sprintf(st, vals); ok {
			vm.cont(st, ret, VTerm{t}, b, idx)
			return true
		}
	}
	if c, w, t := vm.bufferWrite(st, pkg, key, vals); c != nil && vm.bufString(fn) != nil {
		m := vm.bufString(fn)
		vm.callContract(st, c, m.Signature, m, []Val{w, VTerm{t}}, ret, b, idx, pos)
		return true
	}
	if pkg == "strconv" && !vm.bv && (key == "Itoa" || key == "FormatInt" || key == "FormatUint") {
		if len(vals) == 1 || vals[1].(VTerm).T.isNum() && vals[1].(VTerm).T.N.Int64() == 10 {
			vm.assumed["strconv renders integers as decimal text"] = true
			vm.cont(st, ret, VTerm{vm.itoa(st, vals[0].(VTerm).T)}, b, idx)
			return true
		}
	}
	if pkg == "sync/atomic" && fn.Signature.Recv() == nil {
		if vm.rg == nil {
			unsup("atomic operation in a function whose contract names no region")
		}
		vm.rg.atomic(vm, st, key, fn, vals, ret, b, idx, pos)
		return true
	}
	return false
}

// bufString: (*bytes.Buffer).WriteString
func (vm *VM) bufString(fn *ssa.Function) *ssa.Function {
	for _, p := range vm.ld.Prog.AllPackages() {
		if p.Pkg.Path() == "bytes" {
			if t := p.Type("Buffer"); t != nil {
				return vm.ld.Prog.LookupMethod(types.NewPointer(t.Type()), nil, "WriteString")
			}
		}
	}
	return nil
}

func (vm *VM) intrinsicKeys(pkg, key string, cc *ssa.CallCommon) ([]string, bool) {
	if pkg == "sync/atomic" && cc.Signature().Recv() == nil && vm.rg != nil {
		return vm.rg.keys, true
	}
	if pkg == "fmt" && key == "Fprintf" || pkg == "io" && key == "WriteString" {
		if c, m := vm.contractFor("bytes", "Buffer.WriteString"), vm.bufString(nil); c != nil && m != nil {
			return vm.contractKeys(c, m.Signature), true
		}
	}
	return nil, false
}

func (vm *VM) dynCall(st *State, cc *ssa.CallCommon, f *Term, args []Val, ret ssa.Value, b *ssa.BasicBlock, idx int, pos token.Pos) {
	unsup("call of an unknown function value")
}
func (vm *VM) dynKeys(add func([]string)) {}

// ---- unsafe: memory seen as words
//
// A string is two words (data, length), a slice three (data, length, capacity). VView is a pointer to
// an object of type From reinterpreted as something else, Off words into it. Data words are
// addresses: bptr(array, offset) for slices, sdata(s) for strings; the storage of a string is the
// byte array parr(sdata(s)) from offset poff(sdata(s)).

type VView struct {
	P    Val
	From types.Type
	Off  int
}

func (vm *VM) unsafeConvert(st *State, v Val, from, to types.Type) Val {
	switch x := v.(type) {
	case VView:
		if _, ok := under(to).(*types.Pointer); ok {
			return x
		}
		if b, ok := under(to).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return x
		}
	case VPtr, VTerm:
		if pt, ok := under(from).(*types.Pointer); ok {
			if isByte(pt.Elem()) {
				return v // an address
			}
			vm.assumed["unsafe conversions reinterpret memory word by word (string: data, length; slice: data, length, capacity)"] = true
			return VView{x, pt.Elem(), 0}
		}
		if _, ok := x.(VTerm); ok {
			_, isP := under(to).(*types.Pointer)
			if !isP || isByte(under(to).(*types.Pointer).Elem()) {
				return v // unsafe.Pointer <-> uintptr, *byte
			}
		}
	}
	unsup("unsafe conversion %s -> %s", from, to)
	return nil
}

func (vm *VM) bptr(arr, off *Term) *Term {
	if arr.Kind == KApp && arr.Op == "parr" && off.Kind == KApp && off.Op == "poff" && arr.Args[0] == off.Args[0] {
		return arr.Args[0]
	}
	vm.declFun("bptr", []Sort{SInt, SInt}, SInt)
	return App("bptr", SInt, arr, off)
}
func (vm *VM) bptrSplit(p *Term) (arr, off *Term) {
	if p.Kind == KApp && p.Op == "bptr" {
		return p.Args[0], p.Args[1]
	}
	vm.declFun("parr", []Sort{SInt}, SInt)
	vm.declFun("poff", []Sort{SInt}, SInt)
	return App("parr", SInt, p), App("poff", SInt, p)
}
func (vm *VM) sdata(s *Term) *Term {
	vm.declFun("sdata", []Sort{SStr}, SInt)
	return App("sdata", SInt, s)
}

// wordsOf: how many words a value of the type has (-1: not modelled).
func wordsOf(t types.Type) int {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			return 2
		case types.Uintptr, types.UnsafePointer, types.Int, types.Uint, types.Int64, types.Uint64:
			return 1
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return 3
		}
	case *types.Pointer:
		return 1
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			k := wordsOf(u.Field(i).Type())
			if k < 0 {
				return -1
			}
			n += k
		}
		return n
	}
	return -1
}

func (vm *VM) byteMem(st *State) *Term {
	return vm.heapGet(st.heap, vm.elemKey(types.Universe.Lookup("byte").Type()), arrSort(SInt, arrSort(SInt, SInt)))
}

func (vm *VM) toWords(st *State, v Val, t types.Type) []*Term {
	if wordsOf(t) < 0 {
		unsup("unsafe view of a %s", t)
	}
	switch x := v.(type) {
	case VStruct:
		var out []*Term
		for i, f := range x.F {
			out = append(out, vm.toWords(st, f, under(t).(*types.Struct).Field(i).Type())...)
		}
		return out
	case VSlice:
		return []*Term{vm.bptr(x.Arr, x.Off), x.Len, x.Cap}
	case VTerm:
		if x.T.Sort == SStr {
			p := vm.sdata(x.T)
			a, o := vm.bptrSplit(p)
			i := Bound("i", SInt)
			st.assume(And(Le(Num(0), vm.slen(x.T)), Le(vm.slen(x.T), vm.maxLen())))
			st.assume(Forall([]*Term{i}, [][]*Term{{Select(vm.sel(vm.byteMem(st), a), Add(o, i))}, {Select(vm.sbytes(x.T), i)}},
				Implies(And(Le(Num(0), i), Lt(i, vm.slen(x.T))), Eq(Select(vm.sel(vm.byteMem(st), a), Add(o, i)), Select(vm.sbytes(x.T), i)))))
			return []*Term{p, vm.slen(x.T)}
		}
		return []*Term{x.T}
	}
	unsup("unsafe view of %T", v)
	return nil
}

func (vm *VM) fromWords(st *State, w []*Term, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Slice:
		a, o := vm.bptrSplit(w[0])
		return VSlice{a, o, w[1], w[2]}
	case *types.Struct:
		var fs []Val
		for i := 0; i < u.NumFields(); i++ {
			n := wordsOf(u.Field(i).Type())
			fs = append(fs, vm.fromWords(st, w[:n], u.Field(i).Type()))
			w = w[n:]
		}
		return VStruct{fs}
	case *types.Basic:
		if u.Kind() == types.String {
			s := vm.freshSym("ustr", SStr)
			a, o := vm.bptrSplit(w[0])
			st.assume(And(Eq(vm.slen(s), w[1]), Eq(vm.sdata(s), w[0])))
			i := Bound("i", SInt)
			st.assume(Forall([]*Term{i}, [][]*Term{{Select(vm.sbytes(s), i)}},
				Implies(And(Le(Num(0), i), Lt(i, w[1])), Eq(Select(vm.sbytes(s), i), Select(vm.sel(vm.byteMem(st), a), Add(o, i))))))
			return VTerm{s}
		}
	}
	return VTerm{w[0]}
}

func (vm *VM) viewLoad(st *State, x VView, t types.Type, pos token.Pos) Val {
	ws := vm.toWords(st, vm.deref(st, x.P, x.From, pos), x.From)
	n := wordsOf(t)
	if n < 0 {
		unsup("unsafe view as %s", t)
	}
	if x.Off+n > len(ws) {
		vm.oblige(st, "reads only inside the object", pos, False)
		unsup("read past the end of a %s", x.From)
	}
	return vm.fromWords(st, ws[x.Off:x.Off+n], t)
}

func (vm *VM) viewStore(st *State, x VView, v Val, t types.Type, pos token.Pos) {
	ws := append([]*Term(nil), vm.toWords(st, vm.deref(st, x.P, x.From, pos), x.From)...)
	nw := vm.toWords(st, v, t)
	if x.Off+len(nw) > len(ws) {
		vm.oblige(st, "writes only inside the object", pos, False)
		unsup("write past the end of a %s", x.From)
	}
	copy(ws[x.Off:], nw)
	vm.storePtr(st, x.P, vm.fromWords(st, ws, x.From), x.From, pos)
}

// unsafeBuiltin: unsafe.String, StringData, Slice, SliceData.
func (vm *VM) unsafeBuiltin(st *State, name string, vals []Val, pos token.Pos) (Val, bool) {
	switch name {
	case "StringData":
		s := vals[0].(VTerm).T
		vm.toWords(st, vals[0], types.Typ[types.String])
		return VTerm{vm.sdata(s)}, true
	case "SliceData":
		s := vals[0].(VSlice)
		return VTerm{vm.bptr(s.Arr, s.Off)}, true
	case "String":
		p, ok := vals[0].(VTerm)
		if !ok {
			return nil, false
		}
		n := vals[1].(VTerm).T
		vm.check(st, "unsafe.String length", pos, Le(Num(0), n))
		return vm.fromWords(st, []*Term{p.T, n}, types.Typ[types.String]), true
	case "Slice":
		p, ok := vals[0].(VTerm)
		if !ok {
			return nil, false
		}
		n := vals[1].(VTerm).T
		vm.check(st, "unsafe.Slice length", pos, Le(Num(0), n))
		a, o := vm.bptrSplit(p.T)
		return VSlice{a, o, n, n}, true
	}
	return nil, false
}

// ---- rely-guarantee reasoning for locations accessed with sync/atomic
//
// A region declares the shared locations of an object, ghost variables standing for what all other
// goroutines together hold (env), an invariant over both, and ghost updates that accompany each
// atomic step of the goroutine under verification. Before every atomic operation the other
// goroutines take any number of steps: the locations and env ghosts become arbitrary subject to the
// rely and the invariant. After every own step the invariant is an obligation.

type RG struct {
	r      *Region
	locs   []*ModItem
	envs   []*ModItem
	exprs  []string
	keys   []string
	shared map[string]bool
	env0   map[string]TV
}

func newRG(vm *VM, st *State) *RG {
	c := vm.c
	if c.Region == "" {
		return nil
	}
	r := vm.spec.Regions[c.Region]
	if r == nil {
		panic(specErr{"unknown region " + c.Region})
	}
	rg := &RG{r: r, shared: map[string]bool{}}
	e := vm.topEnv(st)
	rg.env0 = map[string]TV{r.Param: e.eval(c.RegionArg)}
	re := rg.senv(vm, st, nil)
	for _, l := range r.Locs {
		is := re.modItem(ModClause{E: l.E})
		if len(is) != 1 || is[0].Ref == nil {
			panic(specErr{"region location must be one scalar field"})
		}
		rg.locs = append(rg.locs, is[0])
		rg.keys = append(rg.keys, is[0].Key)
		rg.shared[is[0].Key] = true
		for _, g := range l.Steps {
			for _, it := range re.modItem(ModClause{E: g.LHS}) {
				rg.keys = append(rg.keys, it.Key)
			}
		}
	}
	for _, g := range r.Env {
		is := re.modItem(ModClause{E: &Expr{K: "id", Name: g}})
		rg.envs = append(rg.envs, is...)
		rg.keys = append(rg.keys, is[0].Key)
	}
	return rg
}

func (rg *RG) senv(vm *VM, st *State, old *Snapshot) *SEnv {
	return &SEnv{vm: vm, st: st, heap: st.heap, alloc: st.alloc, names: rg.env0, oldNames: rg.env0, pkg: rg.r.Pkg, old: old}
}

func (rg *RG) start(vm *VM, st *State) {
	// the zero value satisfies the invariant when nobody holds anything
	z := st.clone()
	for _, l := range rg.locs {
		_, vs, _ := splitArr(vm.keySort[l.Key])
		vm.setHeap(z, l.Key, Store(vm.heapGet(z.heap, l.Key, vm.keySort[l.Key]), l.Ref, vm.zeroTerm(vs)))
	}
	for _, k := range rg.keys {
		if !rg.shared[k] {
			z.heap[k] = vm.zeroTerm(vm.keySort[k])
		}
	}
	ze := rg.senv(vm, z, nil)
	for i, cl := range rg.r.Inv {
		vm.oblige(z, "region "+clLabel("invariant", i, cl)+" holds of the zero value", token.NoPos, ze.boolE(cl.E))
	}
	e := rg.senv(vm, st, vm.entry)
	for _, cl := range rg.r.Inv {
		st.assume(e.boolE(cl.E))
	}
	rg.havoc(vm, st)
}

// havoc: any number of steps of other goroutines.
func (rg *RG) havoc(vm *VM, st *State) {
	pre := st.snap()
	vm.havocItems(st, append(append([]*ModItem(nil), rg.locs...), rg.envs...))
	e := rg.senv(vm, st, pre)
	for i, l := range rg.r.Locs {
		_ = i
		tv := e.eval(l.E)
		vm.typeFacts(st, tv.V, tv.T)
	}
	for _, cl := range rg.r.Rely {
		st.assume(e.boolE(cl.E))
	}
	for _, cl := range rg.r.Bound {
		st.assume(e.boolE(cl.E))
	}
	for _, cl := range rg.r.Inv {
		st.assume(e.boolE(cl.E))
	}
	if len(vm.c.Rely) > 0 {
		te := vm.topEnvAt(st)
		for _, cl := range vm.c.Rely {
			st.assume(te.boolE(cl.E))
		}
	}
}

func (rg *RG) exit(vm *VM, st *State, env *SEnv) { rg.havoc(vm, st) }

func (rg *RG) atomic(vm *VM, st *State, key string, fn *ssa.Function, vals []Val, ret ssa.Value, b *ssa.BasicBlock, idx int, pos token.Pos) {
	var op string
	var t types.Type
	for _, o := range []string{"CompareAndSwap", "Load", "Store", "Swap", "Add"} {
		if len(key) > len(o) && key[:len(o)] == o {
			op = o
			switch key[len(o):] {
			case "Int32":
				t = types.Typ[types.Int32]
			case "Uint32":
				t = types.Typ[types.Uint32]
			case "Int64":
				t = types.Typ[types.Int64]
			case "Uint64":
				t = types.Typ[types.Uint64]
			}
		}
	}
	if t == nil {
		unsup("atomic.%s", key)
	}
	p, ok := vals[0].(VPtr)
	if !ok || p.L.kind != 'f' {
		unsup("atomic operation on a location outside the region")
	}
	li := -1
	for i, l := range rg.locs {
		if l.Key == p.L.key && l.Ref.String() == p.L.ref.String() {
			li = i
		}
	}
	if li < 0 {
		unsup("atomic operation on a location outside the region (%s)", p.L.key)
	}
	vm.check(st, "nil-dereference", pos, Ne(p.L.ref, Num(0)))
	rg.havoc(vm, st)
	before := vm.loadHeapComps(st, st.heap, p.L.key, p.L.ref, t).(VTerm).T
	after, wrote := before, True
	var res Val
	arg := func(i int) *Term { return vals[i].(VTerm).T }
	switch op {
	case "Load":
		wrote = False
		res = VTerm{before}
	case "Store":
		after = arg(1)
	case "Swap":
		after = arg(1)
		res = VTerm{before}
	case "Add":
		after = vm.wrapTo(Add(before, arg(1)), t)
		res = VTerm{after}
	case "CompareAndSwap":
		wrote = Eq(before, arg(1))
		after = Ite(wrote, arg(2), before)
		res = VTerm{wrote}
	}
	if op != "Load" {
		vm.checkWrite(st, p.L.key, p.L.ref, nil, pos)
		vm.storeHeapComps(st, p.L.key, p.L.ref, VTerm{after}, t)
	}
	bnd := func(e *SEnv) *SEnv {
		e = e.with("before", TV{V: VTerm{before}, T: t})
		e = e.with("after", TV{V: VTerm{after}, T: t})
		return e.with("wrote", TV{V: VTerm{wrote}, T: types.Typ[types.Bool]})
	}
	for _, g := range rg.r.Locs[li].Steps {
		vm.ghostAssign(st, bnd(rg.senv(vm, st, vm.entry)), g)
	}
	e := rg.senv(vm, st, vm.entry)
	for _, cl := range rg.r.Bound {
		st.assume(e.boolE(cl.E))
	}
	for i, cl := range rg.r.Inv {
		vm.oblige(st, "after atomic "+key+" on "+rg.r.Locs[li].E.Name+": region "+clLabel("invariant", i, cl), pos, e.boolE(cl.E))
	}
	for i, cl := range vm.c.Guarantee {
		vm.oblige(st, "after atomic "+key+": "+clLabel("guarantee", i, cl), pos, bnd(vm.topEnvAt(st)).boolE(cl.E))
	}
	if vm.rgVoid(ret) {
		res = nil
	}
	vm.cont(st, ret, res, b, idx)
}

func (vm *VM) rgVoid(ret ssa.Value) bool { return ret == nil }

func (vm *VM) topEnvAt(st *State) *SEnv {
	return &SEnv{vm: vm, st: st, heap: st.heap, alloc: st.alloc, names: vm.entryPs, oldNames: vm.entryPs, pkg: vm.pkg, old: vm.entry}
}

// sharedAccess: a plain (non-atomic) access to a location of the region is a data race.
func (rg *RG) sharedAccess(vm *VM, st *State, key string, ref *Term, pos token.Pos) {
	if rg == nil || !rg.shared[key] {
		return
	}
	for _, l := range rg.locs {
		if l.Key == key {
			vm.oblige(st, "shared location is accessed atomically", pos, Ne(ref, l.Ref))
		}
	}
}

// regionWriters: an exported function of the region's package that may change a region location
// without being verified against a region (unexported helpers are inlined where they are called).
func (d *Driver) regionWriters(r *Region) string {
	names := map[string]bool{}
	for _, l := range r.Locs {
		names[l.E.Name] = true
	}
	covered := map[string]bool{}
	for _, c := range d.spec.Contracts {
		if c.Pkg == r.Pkg && c.Region != "" {
			covered[c.Key] = true
		}
	}
	sp := d.ld.SSA[r.Pkg]
	if sp == nil {
		return ""
	}
	tn := ""
	if o, ok := sp.Pkg.Scope().Lookup(r.Type).(*types.TypeName); ok {
		tn = o.Name()
	}
	for _, fn := range pkgFuncs(d.ld, r.Pkg) {
		_, key := funcKey(fn)
		if covered[key] || !token.IsExported(fn.Name()) {
			continue
		}
		var bad string
		var scan func(f *ssa.Function)
		scan = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						continue // construction
					}
					st := fa.X.Type().Underlying().(*types.Pointer).Elem()
					n, ok := types.Unalias(st).(*types.Named)
					if !ok || n.Obj().Name() != tn || !names[under(st).(*types.Struct).Field(fa.Field).Name()] {
						continue
					}
					for _, u := range *fa.Referrers() {
						switch x := u.(type) {
						case *ssa.DebugRef:
						case *ssa.Call:
							if c := x.Common().StaticCallee(); c != nil {
								p, k := funcKey(c)
								if p == "sync/atomic" && strings.HasPrefix(k, "Load") {
									continue
								}
							}
							bad = key
						case *ssa.UnOp:
						default:
							bad = key
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				scan(a)
			}
		}
		scan(fn)
		if bad != "" {
			return bad
		}
	}
	return ""
}

func (rg *RG) sharedStruct(vm *VM, st *State, t types.Type, pos token.Pos) {
	if rg == nil {
		return
	}
	for _, k := range vm.structKeys(t) {
		if rg.shared[k] {
			vm.oblige(st, "shared location is accessed atomically", pos, False)
		}
	}
}
