package main

// Values and the memory model.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type VTerm struct{ T *Term }
type VSlice struct{ Arr, Off, Len, Cap *Term }
type VStruct struct{ F []Val }
type VIface struct{ Tag, Data *Term }
type VTuple struct{ E []Val }
type VPtr struct{ L *Loc }
type VFunc struct {
	Fn   *ssa.Function
	Bind []Val
}
type VIter struct { // range iterator over a map or string
	Coll Val
	T    types.Type
	Id   int
	// map: its keys when the iteration began, in the order in which they will be produced, and their number
	Dom, Enum, Pos, N *Term
}

// VArr is an array value with multi-component elements: one SMT array per component.
type VArr struct{ C []*Term }

type pathStep struct {
	field int
	idx   *Term
	at    types.Type
}

type Loc struct {
	kind byte // 'c' cell, 'f' heap location of key base at ref, 'e' element, 'g' global
	cell int
	path []pathStep
	ref  *Term
	key  string
	idx  *Term
	T    types.Type // type of the location's content
}

type Cell struct {
	V Val
	T types.Type
}

type factNode struct {
	t    *Term
	prev *factNode
	n    int
}

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	allocs   map[*ssa.Alloc]int // cell ids
	parent   *Frame
	retBlk   *ssa.BasicBlock
	retIdx   int
	retInstr ssa.Value // *ssa.Call or nil
	defers   []*ssa.Defer
	dvals    [][]Val
	loops    map[int]*loopCtx // header block index -> active
	prevBlk  *ssa.BasicBlock
	depth    int
	spec     *Contract // contract supplying loop invariants for this frame
	entry    *Snapshot
	params   map[string]TV
	runDefer bool
	isDefer  bool
}

type loopCtx struct {
	unrolled int // turns taken one by one, without an invariant
	dec      []*Term
	start    *Snapshot
}

type Snapshot struct {
	heap  map[string]*Term
	alloc *Term
	cells map[int]Cell
	frame *Frame
}

type State struct {
	facts *factNode
	lits  map[string]bool
	heap  map[string]*Term
	alloc *Term
	cells map[int]Cell
	fr    *Frame
	fresh []*Term
	path  []string
	dead  bool
	ghost map[string]Val
}

func (st *State) clone() *State {
	n := *st
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.cells = make(map[int]Cell, len(st.cells))
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.lits = make(map[string]bool, len(st.lits))
	for k, v := range st.lits {
		n.lits[k] = v
	}
	n.fresh = append([]*Term(nil), st.fresh...)
	n.path = append([]string(nil), st.path...)
	n.fr = st.fr.clone()
	return &n
}

func (f *Frame) clone() *Frame {
	if f == nil {
		return nil
	}
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.allocs = make(map[*ssa.Alloc]int, len(f.allocs))
	for k, v := range f.allocs {
		n.allocs[k] = v
	}
	n.loops = make(map[int]*loopCtx, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.defers = append([]*ssa.Defer(nil), f.defers...)
	n.dvals = append([][]Val(nil), f.dvals...)
	n.parent = f.parent.clone()
	return &n
}

func (st *State) snap() *Snapshot {
	s := &Snapshot{heap: map[string]*Term{}, alloc: st.alloc, cells: map[int]Cell{}, frame: st.fr.clone()}
	for k, v := range st.heap {
		s.heap[k] = v
	}
	for k, v := range st.cells {
		s.cells[k] = v
	}
	return s
}

func (st *State) assume(t *Term) {
	if t.Kind == KBool {
		if t.Op == "false" {
			st.dead = true
		}
		return
	}
	if t.Kind == KApp && t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	k := litKey(t)
	if st.lits[k] {
		return
	}
	nk := litKey(Not(t))
	if st.lits[nk] {
		st.dead = true
	}
	st.lits[k] = true
	n := 1
	if st.facts != nil {
		n = st.facts.n + 1
	}
	st.facts = &factNode{t, st.facts, n}
}

type comp struct {
	suffix string
	sort   Sort
}

type structField struct {
	name  string
	t     types.Type
	sort  Sort // ghost fields
	ghost bool
	sty   *STy
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// pkgKey names a package in keys: by its path below the repository's root, with the standard library's packages whose
// path the repository also uses (time, sync, io, ...) kept apart.
func pkgKey(path string) string {
	if strings.HasPrefix(path, modPath+"/") {
		return strings.TrimPrefix(path, modPath+"/")
	}
	if stdTwins[path] {
		return "std:" + path
	}
	return path
}

var stdTwins = map[string]bool{} // standard packages with a namesake in the repository, from the load

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	s := types.TypeString(t, func(p *types.Package) string {
		return pkgKey(p.Path())
	})
	return reRune.ReplaceAllString(reByte.ReplaceAllString(s, "uint8"), "int32") // aliases name the same memory
}

var reByte, reRune = regexp.MustCompile(`\bbyte\b`), regexp.MustCompile(`\brune\b`)

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := under(t).(*types.Array); return ok }

func (vm *VM) structFields(t types.Type) []structField {
	st := under(t).(*types.Struct)
	var out []structField
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, structField{name: st.Field(i).Name(), t: st.Field(i).Type()})
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		full := n.Obj().Pkg().Path() + "." + n.Obj().Name()
		for _, g := range vm.spec.GFields {
			if g.Type == full {
				out = append(out, structField{name: g.Name, sort: g.T.sort(), ghost: true, sty: g.T})
			}
		}
	}
	return out
}

func (vm *VM) intSort(b *types.Basic) Sort {
	if vm.bv {
		return bvSort(intWidth(b))
	}
	return SInt
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	w := uint(intWidth(b))
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, w), one), true
	}
	h := new(big.Int).Lsh(one, w-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}
func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (vm *VM) comps(t types.Type) []comp {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []comp{{"", SBool}}
		case u.Info()&types.IsString != 0:
			return []comp{{"", SStr}}
		case u.Info()&types.IsInteger != 0:
			return []comp{{"", vm.intSort(u)}}
		case u.Info()&types.IsFloat != 0:
			return []comp{{"", "Flt"}}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []comp{{"", SInt}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []comp{{"", SInt}}
	case *types.Slice:
		return []comp{{".arr", SInt}, {".off", SInt}, {".len", SInt}, {".cap", SInt}}
	case *types.Interface:
		return []comp{{".tag", SInt}, {".data", SInt}}
	case *types.Array:
		var out []comp
		for _, c := range vm.comps(u.Elem()) {
			out = append(out, comp{c.suffix, arrSort(SInt, c.sort)})
		}
		return out
	case *types.Struct:
		var out []comp
		for _, f := range vm.structFields(t) {
			if f.ghost {
				out = append(out, comp{"." + f.name, f.sort})
				continue
			}
			for _, c := range vm.comps(f.t) {
				out = append(out, comp{"." + f.name + c.suffix, c.sort})
			}
		}
		return out
	}
	unsup("type %s", t)
	return nil
}

// flatten a value into its component terms; inverse of build.
func (vm *VM) flatten(v Val, t types.Type) []*Term {
	switch x := v.(type) {
	case VTerm:
		return []*Term{x.T}
	case VSlice:
		return []*Term{x.Arr, x.Off, x.Len, x.Cap}
	case VIface:
		return []*Term{x.Tag, x.Data}
	case VArr:
		return x.C
	case VStruct:
		fs := vm.structFields(t)
		var out []*Term
		for i, f := range fs {
			if f.ghost {
				out = append(out, x.F[i].(VTerm).T)
			} else {
				out = append(out, vm.flatten(x.F[i], f.t)...)
			}
		}
		return out
	case VPtr:
		return []*Term{vm.ptrTerm(x)}
	case VFunc:
		return []*Term{vm.funcTerm(x)}
	}
	unsup("flatten %T", v)
	return nil
}

func (vm *VM) build(ts []*Term, t types.Type) Val {
	switch under(t).(type) {
	case *types.Slice:
		return VSlice{ts[0], ts[1], ts[2], ts[3]}
	case *types.Interface:
		return VIface{ts[0], ts[1]}
	case *types.Array:
		if len(ts) == 1 {
			return VTerm{ts[0]}
		}
		return VArr{ts}
	case *types.Struct:
		var fs []Val
		i := 0
		for _, f := range vm.structFields(t) {
			if f.ghost {
				fs = append(fs, VTerm{ts[i]})
				i++
				continue
			}
			n := len(vm.comps(f.t))
			fs = append(fs, vm.build(ts[i:i+n], f.t))
			i += n
		}
		return VStruct{fs}
	case *types.Signature:
		if f, ok := vm.funcOf(ts[0]); ok {
			return f
		}
	}
	return VTerm{ts[0]}
}

func (vm *VM) zeroTerm(s Sort) *Term {
	switch {
	case s == SInt:
		return Num(0)
	case s == SBool:
		return False
	case s == SStr:
		return vm.strLit("")
	case isBV(s):
		return BVLit(big.NewInt(0), bvWidth(s))
	case s == "Flt":
		return Sym("flt0", "Flt")
	}
	if _, v, ok := splitArr(s); ok {
		return ConstArr(s, vm.zeroTerm(v))
	}
	return Sym("zero:"+s, s)
}

func (vm *VM) zero(t types.Type) Val {
	var ts []*Term
	for _, c := range vm.comps(t) {
		ts = append(ts, vm.zeroTerm(c.sort))
	}
	return vm.build(ts, t)
}

// ---- addresses

func (vm *VM) subAddr(st *State, ref *Term, t types.Type, field string) *Term {
	name := "sub:" + typeKey(t) + "." + field
	vm.declFun(name, []Sort{SInt}, SInt)
	a := App(name, SInt, ref)
	vm.addrFacts(st, a, name, ref, nil)
	return a
}

func (vm *VM) elemAddr(st *State, arr, idx *Term, t types.Type) *Term {
	name := "elem:" + typeKey(t)
	vm.declFun(name, []Sort{SInt, SInt}, SInt)
	a := App(name, SInt, arr, idx)
	vm.addrFacts(st, a, name, arr, idx)
	return a
}

func (vm *VM) addrFacts(st *State, a *Term, name string, r, i *Term) {
	vm.declFun("addr_tag", []Sort{SInt}, SInt)
	vm.declFun("addr_par", []Sort{SInt}, SInt)
	vm.declFun("addr_idx", []Sort{SInt}, SInt)
	vm.declFun("addr_root", []Sort{SInt}, SInt)
	tag := vm.tagId("addr:" + name)
	vm.interior = true
	mk := func(a, r, i *Term) *Term {
		fs := []*Term{Lt(a, Num(0)), Eq(App("addr_tag", SInt, a), Num(int64(tag))), Eq(App("addr_par", SInt, a), r),
			Eq(App("addr_root", SInt, a), Ite(Ge(r, Num(0)), r, App("addr_root", SInt, r)))}
		if i != nil {
			fs = append(fs, Eq(App("addr_idx", SInt, a), i))
		}
		return And(fs...)
	}
	// quantified form (once per address function); the trigger is the address term itself
	vm.addrAx[name] = func() *Term {
		rb := Bound("r", SInt)
		if i == nil {
			t := App(name, SInt, rb)
			return Forall([]*Term{rb}, [][]*Term{{t}}, mk(t, rb, nil))
		}
		ib := Bound("i", SInt)
		t := App(name, SInt, rb, ib)
		return Forall([]*Term{rb, ib}, [][]*Term{{t}}, mk(t, rb, ib))
	}()
	if st != nil && !a.hasBound() {
		st.assume(mk(a, r, i))
	}
}

func (vm *VM) tagId(s string) int {
	if id, ok := vm.tags[s]; ok {
		return id
	}
	id := len(vm.tags) + 1
	vm.tags[s] = id
	return id
}

// ptrTerm converts a static pointer to a term (needed when it is stored or compared).
func (vm *VM) ptrTerm(p VPtr) *Term {
	unsup("address of a %s location used as a first-class value", p.L.T)
	return nil
}

func (vm *VM) funcTerm(f VFunc) *Term {
	if len(f.Bind) > 0 {
		unsup("closure used as a first-class value")
	}
	pkg, key := funcKey(f.Fn)
	n := "fn:" + pkg + "." + key
	vm.funcs[n] = f
	id := vm.tagId(n)
	return Num(int64(-100000 - id))
}
func (vm *VM) funcOf(t *Term) (VFunc, bool) {
	if t.isNum() {
		for n, f := range vm.funcs {
			if int64(-100000-vm.tagId(n)) == t.N.Int64() {
				return f, true
			}
		}
	}
	return VFunc{}, false
}

// ---- heap access

func (vm *VM) heapGet(h map[string]*Term, key string, s Sort) *Term {
	if t, ok := h[key]; ok {
		return t
	}
	// initial (entry) version, shared by every state that has not written the key
	t := Sym("H0:"+key, s)
	vm.keySort[key] = s
	h[key] = t
	return t
}

func (vm *VM) fieldKey(t types.Type, f string) string { return "F:" + typeKey(t) + "." + f }

// peek through named definitions when selecting
func (vm *VM) sel(a, i *Term) *Term {
	b := a
	for n := 0; n < 200; n++ {
		if b.Kind == KSym {
			if d, ok := vm.defs[b.Op]; ok {
				b = d
				continue
			}
		}
		if b.Kind == KApp && b.Op == "store" {
			if same(b.Args[1], i) {
				return b.Args[2]
			}
			if distinctNum(b.Args[1], i) {
				b = b.Args[0]
				a = b
				continue
			}
		}
		if b.Kind == KApp && strings.HasPrefix(b.Op, "(as const") {
			return b.Args[0]
		}
		break
	}
	return Select(a, i)
}

// setHeap names the new version of a key.
func (vm *VM) setHeap(st *State, key string, t *Term) {
	if t.Kind == KSym {
		st.heap[key] = t
		return
	}
	s := vm.freshSym("H:"+key, t.Sort)
	vm.defs[s.Op] = t
	st.assume(Eq(s, t))
	st.heap[key] = s
}

func (vm *VM) loadHeapComps(st *State, h map[string]*Term, key string, ref *Term, t types.Type) Val {
	var ts []*Term
	for _, c := range vm.comps(t) {
		m := vm.heapGet(h, key+c.suffix, arrSort(SInt, c.sort))
		ts = append(ts, vm.sel(m, ref))
	}
	return vm.build(ts, t)
}

// loadAt loads a value of type t stored at struct address / location. facts!=nil adds typing facts.
func (vm *VM) loadStruct(st *State, h map[string]*Term, ref *Term, t types.Type, facts bool) Val {
	var fs []Val
	for _, f := range vm.structFields(t) {
		k := vm.fieldKey(t, f.name)
		if f.ghost {
			fs = append(fs, VTerm{vm.sel(vm.heapGet(h, k, arrSort(SInt, f.sort)), ref)})
			continue
		}
		fs = append(fs, vm.loadField(st, h, ref, t, f, facts))
	}
	return VStruct{fs}
}

func (vm *VM) loadField(st *State, h map[string]*Term, ref *Term, t types.Type, f structField, facts bool) Val {
	if f.ghost {
		return VTerm{vm.sel(vm.heapGet(h, vm.fieldKey(t, f.name), arrSort(SInt, f.sort)), ref)}
	}
	if isStruct(f.t) {
		var s2 *State
		if facts {
			s2 = st
		}
		return vm.loadStruct(st, h, vm.subAddr(s2, ref, t, f.name), f.t, facts)
	}
	if at, ok := under(f.t).(*types.Array); ok && isStruct(at.Elem()) {
		unsup("array-of-struct field %s", f.name)
	}
	v := vm.loadHeapComps(st, h, vm.fieldKey(t, f.name), ref, f.t)
	if facts {
		vm.typeFacts(st, v, f.t)
	}
	return v
}

func (vm *VM) elemKey(t types.Type) string { return "E:" + typeKey(t) }

func (vm *VM) loadElem(st *State, h map[string]*Term, arr, idx *Term, t types.Type, facts bool) Val {
	if isStruct(t) {
		var s2 *State
		if facts {
			s2 = st
		}
		return vm.loadStruct(st, h, vm.elemAddr(s2, arr, idx, t), t, facts)
	}
	var ts []*Term
	for _, c := range vm.comps(t) {
		m := vm.heapGet(h, vm.elemKey(t)+c.suffix, arrSort(SInt, arrSort(SInt, c.sort)))
		ts = append(ts, vm.sel(vm.sel(m, arr), idx))
	}
	v := vm.build(ts, t)
	if facts {
		vm.typeFacts(st, v, t)
	}
	return v
}

// typeFacts assumes what the Go type guarantees about a value read from memory or passed in.
func (vm *VM) typeFacts(st *State, v Val, t types.Type) {
	switch x := v.(type) {
	case VTerm:
		if x.T.Kind != KSym && x.T.Kind != KApp {
			return
		}
		if x.T.hasBound() {
			return
		}
		if lo, hi, ok := intRange(t); ok {
			if x.T.Sort == SInt {
				st.assume(And(Le(NumB(lo), x.T), Le(x.T, NumB(hi))))
			}
			return
		}
		switch under(t).(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			st.assume(Lt(x.T, st.alloc))
			if vm.interiorPossible(t) {
				vm.declFun("addr_root", []Sort{SInt}, SInt)
				st.assume(Or(Ge(x.T, Num(0)), Lt(App("addr_root", SInt, x.T), st.alloc)))
			} else {
				st.assume(Ge(x.T, Num(0)))
			}
		case *types.Basic:
			if x.T.Sort == SStr {
				st.assume(And(Le(Num(0), vm.slen(x.T)), Le(vm.slen(x.T), vm.maxLen())))
			}
		}
	case VSlice:
		if x.Arr.hasBound() || x.Off.hasBound() || x.Len.hasBound() || x.Cap.hasBound() {
			return
		}
		st.assume(And(Le(Num(0), x.Len), Le(x.Len, x.Cap), Le(x.Cap, vm.maxLen()), Le(Num(0), x.Off), Le(x.Off, vm.maxLen()), Le(Num(0), x.Arr), Lt(x.Arr, st.alloc),
			Implies(Eq(x.Arr, Num(0)), Eq(x.Cap, Num(0)))))
	case VStruct:
		for i, f := range vm.structFields(t) {
			if !f.ghost {
				vm.typeFacts(st, x.F[i], f.t)
			}
		}
	case VIface:
		if x.Tag.hasBound() || x.Data.hasBound() {
			return
		}
		st.assume(And(Le(Num(0), x.Tag), Implies(Eq(x.Tag, Num(0)), Eq(x.Data, Num(0))), Lt(x.Data, st.alloc)))
	}
}

func (vm *VM) maxLen() *Term { return NumB(new(big.Int).Lsh(big.NewInt(1), 48)) }

// interiorPossible: can a pointer of this type point into the middle of another object?
func (vm *VM) interiorPossible(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	if !ok {
		return false
	}
	return vm.embedded[typeKey(p.Elem())]
}

// ---- stores

func (vm *VM) storeHeapComps(st *State, key string, ref *Term, v Val, t types.Type) {
	ts := vm.flatten(v, t)
	for i, c := range vm.comps(t) {
		m := vm.heapGet(st.heap, key+c.suffix, arrSort(SInt, c.sort))
		vm.setHeap(st, key+c.suffix, Store(m, ref, ts[i]))
	}
}

func (vm *VM) storeStruct(st *State, ref *Term, v Val, t types.Type) {
	x, ok := v.(VStruct)
	if !ok {
		unsup("store of %T as struct", v)
	}
	for i, f := range vm.structFields(t) {
		k := vm.fieldKey(t, f.name)
		if f.ghost {
			m := vm.heapGet(st.heap, k, arrSort(SInt, f.sort))
			vm.setHeap(st, k, Store(m, ref, x.F[i].(VTerm).T))
			continue
		}
		if isStruct(f.t) {
			vm.storeStruct(st, vm.subAddr(st, ref, t, f.name), x.F[i], f.t)
			continue
		}
		vm.storeHeapComps(st, k, ref, x.F[i], f.t)
	}
}

func (vm *VM) storeElem(st *State, arr, idx *Term, v Val, t types.Type) {
	if isStruct(t) {
		vm.storeStruct(st, vm.elemAddr(st, arr, idx, t), v, t)
		return
	}
	ts := vm.flatten(v, t)
	for i, c := range vm.comps(t) {
		k := vm.elemKey(t) + c.suffix
		m := vm.heapGet(st.heap, k, arrSort(SInt, arrSort(SInt, c.sort)))
		vm.setHeap(st, k, Store(m, arr, Store(vm.sel(m, arr), idx, ts[i])))
	}
}

// keysOf lists the heap keys (with sort of the stored value) making up type t at a struct address.
func (vm *VM) structKeys(t types.Type) []string {
	var out []string
	for _, f := range vm.structFields(t) {
		out = append(out, vm.fieldKeys(t, f)...)
	}
	return out
}
func (vm *VM) fieldKeys(t types.Type, f structField) []string {
	k := vm.fieldKey(t, f.name)
	if f.ghost {
		vm.keySort[k] = arrSort(SInt, f.sort)
		return []string{k}
	}
	if isStruct(f.t) {
		return vm.structKeys(f.t)
	}
	var out []string
	for _, c := range vm.comps(f.t) {
		vm.keySort[k+c.suffix] = arrSort(SInt, c.sort)
		out = append(out, k+c.suffix)
	}
	return out
}
func (vm *VM) elemKeys(t types.Type) []string {
	if isStruct(t) {
		return vm.structKeys(t)
	}
	var out []string
	for _, c := range vm.comps(t) {
		k := vm.elemKey(t) + c.suffix
		vm.keySort[k] = arrSort(SInt, arrSort(SInt, c.sort))
		out = append(out, k)
	}
	return out
}

// allocObj allocates a fresh zeroed object of type t and returns its reference.
func (vm *VM) freshRef(st *State) *Term {
	r := vm.freshSym("new", SInt)
	st.assume(Eq(r, st.alloc))
	st.assume(Gt(r, Num(0)))
	na := vm.freshSym("alloc", SInt)
	st.assume(Eq(na, Add(r, Num(1))))
	st.alloc = na
	st.fresh = append(st.fresh, r)
	return r
}

func (vm *VM) isFresh(st *State, r *Term) bool {
	for _, f := range st.fresh {
		if same(f, r) {
			return true
		}
	}
	if r.Kind == KApp && (strings.HasPrefix(r.Op, "sub:") || strings.HasPrefix(r.Op, "elem:")) {
		return vm.isFresh(st, r.Args[0])
	}
	return false
}

func (vm *VM) allocObj(st *State, t types.Type) *Term {
	r := vm.freshRef(st)
	if isStruct(t) {
		vm.storeStruct(st, r, vm.zero(t), t)
		return r
	}
	if at, ok := under(t).(*types.Array); ok {
		vm.zeroArray(st, r, at.Elem())
		return r
	}
	vm.storeHeapComps(st, "B:"+typeKey(t), r, vm.zero(t), t)
	return r
}

// zeroArray makes every element of the fresh array object r zero.
func (vm *VM) zeroArray(st *State, r *Term, et types.Type) {
	if isStruct(et) {
		for _, k := range vm.structKeys(et) {
			s := vm.keySort[k]
			old := vm.heapGet(st.heap, k, s)
			n := vm.freshSym("H:"+k, s)
			_, vs, _ := splitArr(s)
			b := Bound("r", SInt)
			vm.declFun("addr_root", []Sort{SInt}, SInt)
			in := And(Lt(b, Num(0)), Eq(App("addr_root", SInt, b), r))
			pat := Select(n, b)
			st.assume(Forall([]*Term{b}, [][]*Term{{pat}}, Eq(pat, Ite(in, vm.zeroTerm(vs), Select(old, b)))))
			st.heap[k] = n
		}
		return
	}
	for _, c := range vm.comps(et) {
		k := vm.elemKey(et) + c.suffix
		m := vm.heapGet(st.heap, k, arrSort(SInt, arrSort(SInt, c.sort)))
		vm.setHeap(st, k, Store(m, r, ConstArr(arrSort(SInt, c.sort), vm.zeroTerm(c.sort))))
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// litKey is the text of a fact, up to the names of its bound variables (name?number).
func litKey(t *Term) string {
	s := t.String()
	if !strings.Contains(s, "?") {
		return s
	}
	num := map[string]int{}
	return boundNum.ReplaceAllStringFunc(s, func(m string) string {
		n, ok := num[m]
		if !ok {
			n = len(num)
			num[m] = n
		}
		return fmt.Sprintf("?%d", n)
	})
}

var boundNum = regexp.MustCompile(`\?[0-9]+`)
