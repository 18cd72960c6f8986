package main

// Symbolic execution of SSA (naive form) against contracts.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Fn, Label, Pos string
	Path           string
	Facts          *factNode
	Goal           *Term
	Uses           []string
	ID             string
	Result         string // proved / failed / unknown
	Solver         string
	Secs           float64
	Model          string
	Query          string
	Kind           string // "", "cover"
	Timeout        int
	Decls          *VM
	group          string
	Axioms         []string
	Dump           string
}

type VM struct {
	ld          *Loader
	spec        *Spec
	c           *Contract
	fn          *ssa.Function
	pkg         string
	strDef      map[string]*Term
	bv          bool
	gensym      int
	decls       map[string]Sort // constants
	funs        map[string]*FunDecl
	defs        map[string]*Term
	keySort     map[string]Sort
	tags        map[string]int
	funcs       map[string]VFunc
	addrAx      map[string]*Term
	strs        map[string]*Term
	interior    bool
	embedded    map[string]bool
	obls        []*Obligation
	entry       *Snapshot
	entryPs     map[string]TV
	mods        []*ModItem
	cellN       int
	globals     map[*ssa.Global]*Term
	loopInf     map[*ssa.Function]*loopInfo
	steps       int
	paths       int
	exits       int
	inlined     map[string]bool
	used        map[string]bool // contracts relied upon
	usedLoops   map[string]bool
	assumed     map[string]bool
	panicOK     *Term
	rg          *RG
	panicMay    *Term
	houdini     map[string][]Clause // candidate invariants per loop key (fallback)
	dropped     map[string]bool
	exitCover   []*Obligation
	curLoopKey  string
	boolAx      []*Term
	coverStates []*State
	renames     map[*ssa.Function][]map[string]string
	renamePick  int
	lenientOn   bool
	newKeys     map[string]bool
	lenient     map[*LoopSpec]*LoopSpec
	curHdr      *loopHdr // the loop whose contract is being evaluated
	loopVars    map[string]map[string]string
	decOverride map[string]bool
	boxed       []Val
}

func NewVM(ld *Loader, spec *Spec, c *Contract, fn *ssa.Function) *VM {
	vm := &VM{ld: ld, spec: spec, c: c, fn: fn, decls: map[string]Sort{}, funs: map[string]*FunDecl{}, defs: map[string]*Term{},
		keySort: map[string]Sort{}, tags: map[string]int{}, funcs: map[string]VFunc{}, addrAx: map[string]*Term{}, strs: map[string]*Term{},
		embedded: map[string]bool{}, globals: map[*ssa.Global]*Term{}, loopInf: map[*ssa.Function]*loopInfo{}, inlined: map[string]bool{}, used: map[string]bool{},
		usedLoops: map[string]bool{}, assumed: map[string]bool{}, dropped: map[string]bool{}}
	if c != nil {
		vm.pkg = c.Pkg
		vm.bv = c.Flags["bv"]
	}
	for n, f := range spec.Funs {
		vm.funs[n] = f
	}
	// struct types that occur by value inside other structs (or arrays): their addresses can be interior
	for _, p := range ld.Pkgs {
		sc := p.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if s, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						ft := s.Field(i).Type()
						if isStruct(ft) {
							vm.embedded[typeKey(ft)] = true
						}
						if a, ok := under(ft).(*types.Array); ok && isStruct(a.Elem()) {
							vm.embedded[typeKey(a.Elem())] = true
						}
						if a, ok := under(ft).(*types.Slice); ok && isStruct(a.Elem()) {
							vm.embedded[typeKey(a.Elem())] = true
						}
					}
				}
			}
		}
	}
	return vm
}

func (vm *VM) freshSym(base string, s Sort) *Term {
	vm.gensym++
	return Sym(fmt.Sprintf("%s!%d", base, vm.gensym), s)
}
func (vm *VM) declFun(n string, a []Sort, r Sort) {
	if _, ok := vm.funs[n]; !ok {
		vm.funs[n] = &FunDecl{n, a, r}
	}
}

func (vm *VM) freshVal(base string, t types.Type) Val {
	var ts []*Term
	for _, c := range vm.comps(t) {
		ts = append(ts, vm.freshSym(base+c.suffix, c.sort))
	}
	return vm.build(ts, t)
}

func (vm *VM) oblige(st *State, label string, pos token.Pos, goal *Term) {
	if goal.Kind == KBool && goal.Op == "true" {
		return
	}
	if st.dead {
		return
	}
	if st.lits[litKey(goal)] {
		return
	}
	if goal.Kind == KApp && goal.Op == "and" {
		for _, g := range goal.Args {
			vm.oblige(st, label, pos, g)
		}
		return
	}
	if gs := vm.splitGoal(goal); len(gs) > 1 {
		for _, g := range gs {
			vm.oblige(st, label, pos, g)
		}
		return
	} else {
		goal = gs[0]
	}
	p := ""
	if pos.IsValid() {
		ps := vm.ld.Fset.Position(pos)
		f := ps.Filename
		if i := strings.LastIndexByte(f, '/'); i >= 0 {
			f = f[i+1:]
		}
		p = fmt.Sprintf("%s:%d", f, ps.Line)
	}
	vm.obls = append(vm.obls, &Obligation{Fn: vm.c.Key, Label: label, Pos: p, Facts: st.facts, Goal: goal, Path: strings.Join(st.path, ","), Uses: vm.c.Uses, Decls: vm})
}

// splitGoal takes a goal whose conclusion is a conjunction of quantified facts apart.
func (vm *VM) splitGoal(g *Term) []*Term {
	switch {
	case g.Kind == KApp && g.Op == "and":
		quant := false
		for _, a := range g.Args {
			a.visit(func(t *Term) { quant = quant || t.Kind == KQuant })
		}
		if quant {
			var out []*Term
			for _, a := range g.Args {
				out = append(out, vm.splitGoal(a)...)
			}
			return out
		}
	case g.Kind == KApp && g.Op == "=>":
		if gs := vm.splitGoal(g.Args[1]); len(gs) > 1 {
			for i := range gs {
				gs[i] = Implies(g.Args[0], gs[i])
			}
			return gs
		}
	case g.Kind == KQuant && g.Op == "forall":
		gs := vm.splitGoal(g.Args[0])
		// The pieces need not contain the pattern terms: an uninterpreted predicate, which any
		// piece has to be proved under whatever it means, keeps them for the solver to match.
		pats := map[string]*Term{}
		for _, p := range g.Pats {
			for _, x := range p {
				pats[x.String()] = x
			}
		}
		for i := range gs {
			lost := map[string]*Term{}
			for k, x := range pats {
				lost[k] = x
			}
			gs[i].visit(func(t *Term) {
				if t.Kind == KApp && len(lost) > 0 {
					delete(lost, t.String())
				}
			})
			var said []*Term
			for _, k := range sortedKeys(lost) {
				x := lost[k]
				n := "mention:" + x.Sort
				vm.declFun(n, []Sort{x.Sort}, SBool)
				said = append(said, App(n, SBool, x))
			}
			if len(gs) > 1 || len(said) > 0 {
				gs[i] = Forall(g.Vars, g.Pats, Implies(And(said...), gs[i]))
			} else {
				gs[i] = g
			}
		}
		return gs
	}
	return []*Term{g}
}

// check: execution panics unless cond holds.
func (vm *VM) check(st *State, label string, pos token.Pos, cond *Term) {
	if cond.Kind == KBool && cond.Op == "true" {
		return
	}
	goal := cond
	if vm.panicOK != nil {
		goal = Or(cond, vm.panicOK)
	}
	vm.oblige(st, "no-panic:"+label, pos, goal)
	st.assume(cond)
}

func (vm *VM) doPanic(st *State, what string, pos token.Pos) {
	if st.dead {
		return
	}
	g := False
	if vm.panicOK != nil {
		g = vm.panicOK
	}
	if vm.panicMay != nil {
		g = vm.panicMay
	}
	vm.oblige(st, "panic-only-if-specified:"+what, pos, g)
	if vm.c.Flags["panicpost"] {
		env := vm.topEnvAt(st)
		for i, cl := range vm.c.ExitHints {
			_ = i
			if strings.HasPrefix(cl.Label, "onpanic") {
				vm.oblige(st, "on-panic:"+cl.Label, pos, env.boolE(cl.E))
			}
		}
	}
}

type loopInfo struct {
	headers map[int]*loopHdr // block index
	order   []*loopHdr
	backs   map[[2]int]bool
}
type loopHdr struct {
	blk   *ssa.BasicBlock
	body  map[int]bool
	ord   int
	pos   token.Pos
	cells map[*ssa.Alloc]bool
}

func (vm *VM) loops(fn *ssa.Function) *loopInfo {
	if li, ok := vm.loopInf[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[int]*loopHdr{}, backs: map[[2]int]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li.backs[[2]int{b.Index, s.Index}] = true
				h := li.headers[s.Index]
				if h == nil {
					h = &loopHdr{blk: s, body: map[int]bool{s.Index: true}, cells: map[*ssa.Alloc]bool{}}
					li.headers[s.Index] = h
				}
				// natural loop
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if h.body[x.Index] {
						continue
					}
					h.body[x.Index] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, h := range li.headers {
		h.pos = token.Pos(1 << 40)
		for bi := range h.body {
			for _, in := range fn.Blocks[bi].Instrs {
				if p := in.Pos(); p.IsValid() && p < h.pos {
					h.pos = p
				}
				if d, ok := in.(*ssa.DebugRef); ok && d.Expr.Pos() < h.pos {
					h.pos = d.Expr.Pos()
				}
				if s, ok := in.(*ssa.Store); ok {
					if a := rootAlloc(s.Addr); a != nil {
						h.cells[a] = true
					}
				}
				if a, ok := in.(*ssa.Alloc); ok {
					h.cells[a] = true
				}
			}
		}
		li.order = append(li.order, h)
	}
	sort.Slice(li.order, func(i, j int) bool {
		a, b := li.order[i], li.order[j]
		if a.body[b.blk.Index] != b.body[a.blk.Index] { // nested: outer first
			return a.body[b.blk.Index]
		}
		return a.pos < b.pos
	})
	for i, h := range li.order {
		h.ord = i + 1
	}
	vm.loopInf[fn] = li
	return li
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := under(x.X.Type()).(*types.Pointer); ok {
				v = x.X
				continue
			}
			return nil
		default:
			return nil
		}
	}
}

// useCell: is this Alloc modelled as a local cell (as opposed to a heap object)?
func useCell(a *ssa.Alloc) bool {
	t := a.Type().(*types.Pointer).Elem()
	if isStruct(t) {
		return !a.Heap
	}
	if at, ok := under(t).(*types.Array); ok {
		return !a.Heap && !isStruct(at.Elem())
	}
	return true
}

// ---- running

const maxSteps = 200000

func (vm *VM) Run() {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				vm.obls = append(vm.obls, &Obligation{Fn: vm.c.Key, Label: "within-subset: " + e.msg, Goal: False, Decls: vm, Kind: "subset"})
			case specErr:
				vm.obls = append(vm.obls, &Obligation{Fn: vm.c.Key, Label: "contract-applies: " + e.msg, Goal: False, Decls: vm, Kind: "subset"})
			default:
				panic(r)
			}
		}
	}()
	if vm.fn.Blocks == nil {
		unsup("function %s has no body", vm.fn)
	}
	st := &State{lits: map[string]bool{}, heap: map[string]*Term{}, cells: map[int]Cell{}}
	st.alloc = Sym("alloc0", SInt)
	st.assume(Ge(st.alloc, Num(1)))
	if vm.c.Flags["init"] { // package initialisation runs once
		k := "V:" + vm.pkg + ".init$guard"
		vm.keySort[k] = SBool
		st.heap[k] = False
		// package variables start out with their zero values
		for _, m := range vm.fn.Pkg.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			t := under(g.Type()).(*types.Pointer).Elem()
			if isInteger(t) {
				k := "V:" + vm.pkg + "." + g.Name()
				vm.keySort[k] = SInt
				st.heap[k] = Num(0)
			}
		}
	}
	fr := vm.newFrame(vm.fn, nil)
	fr.spec = vm.c
	st.fr = fr
	names := map[string]TV{}
	want := append([]string{}, vm.c.Params...)
	if vm.fn.Signature.Recv() != nil {
		rn := vm.c.Recv
		if rn == "" {
			rn = "this"
		}
		want = append([]string{rn}, want...)
	}
	if len(want) != len(vm.fn.Params) {
		panic(specErr{fmt.Sprintf("contract of %s has %d parameters, the code has %d", vm.c.Key, len(want), len(vm.fn.Params))})
	}
	for i, p := range vm.fn.Params {
		v := vm.freshVal("p:"+want[i], p.Type())
		vm.typeFacts(st, v, p.Type())
		fr.env[p] = v
		names[want[i]] = TV{V: v, T: p.Type()}
	}
	fr.params = names
	vm.entryPs = names
	vm.entry = st.snap()
	env := vm.topEnv(st)
	for _, g := range vm.globalInvs() {
		st.assume(env.boolE(g))
	}
	for _, cl := range vm.c.Requires {
		st.assume(env.boolE(cl.E))
	}
	vm.mods = nil
	for _, m := range vm.c.Modifies {
		vm.mods = append(vm.mods, env.modItem(m)...)
	}
	for _, ga := range vm.c.EntryGhost {
		vm.ghostAssign(st, env, ga)
	}
	for i, cl := range vm.c.EntryHints {
		vm.hint(st, env, clLabel("entry-hint", i, cl), token.NoPos, cl)
	}
	vm.entry.alloc = st.alloc
	// vacuity: the precondition must be satisfiable
	vm.obls = append(vm.obls, &Obligation{Fn: vm.c.Key, Label: "precondition-satisfiable", Facts: st.facts, Goal: False, Kind: "cover", Uses: vm.c.Uses, Decls: vm})
	if len(vm.c.Panics) > 0 {
		var ps []*Term
		for _, cl := range vm.c.Panics {
			ps = append(ps, env.boolE(cl.E))
		}
		vm.panicOK = Or(ps...)
	}
	if len(vm.c.MayPanicIf) > 0 {
		ps := []*Term{}
		if vm.panicOK != nil {
			ps = append(ps, vm.panicOK)
		}
		for _, cl := range vm.c.MayPanicIf {
			ps = append(ps, env.boolE(cl.E))
		}
		vm.panicMay = Or(ps...)
	}
	if vm.c.MayPanic {
		vm.panicOK = True
	}
	vm.rg = newRG(vm, st)
	if vm.rg != nil {
		vm.rg.start(vm, st)
	}
	vm.runBlock(st, vm.fn.Blocks[0], 0)
}

func (vm *VM) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, allocs: map[*ssa.Alloc]int{}, loops: map[int]*loopCtx{}, parent: parent}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	return f
}

func clLabel(kind string, i int, c Clause) string {
	if c.Label != "" {
		return kind + "[" + c.Label + "]"
	}
	return fmt.Sprintf("%s#%d", kind, i+1)
}

func (vm *VM) enterBlock(st *State, from, to *ssa.BasicBlock) {
	if st.dead {
		return
	}
	li := vm.loops(st.fr.fn)
	if h, ok := li.headers[to.Index]; ok {
		ctx := st.fr.loops[h.blk.Index]
		back := li.backs[[2]int{from.Index, to.Index}]
		if back && (ctx == nil || ctx.unrolled == 0) {
			vm.loopBack(st, h, from)
			return
		}
		st.fr.prevBlk = from
		n := 1
		if back {
			n = ctx.unrolled + 1
		}
		if vm.concreteTurn(st, h, n) {
			st.fr.loops[h.blk.Index] = &loopCtx{unrolled: n}
			vm.runBlock(st, h.blk, 0)
			return
		}
		vm.loopEnter(st, h, from)
		return
	}
	st.fr.prevBlk = from
	vm.runBlock(st, to, 0)
}

func (vm *VM) runBlock(st *State, b *ssa.BasicBlock, idx int) {
	for {
		if st.dead {
			return
		}
		if idx >= len(b.Instrs) {
			unsup("block fell through")
		}
		vm.steps++
		if vm.steps > maxSteps {
			unsup("too many symbolic steps")
		}
		in := b.Instrs[idx]
		switch x := in.(type) {
		case *ssa.If:
			c := vm.get(st, x.Cond).(VTerm).T
			if c.Kind == KBool {
				if c.Op == "true" {
					vm.enterBlock(st, b, b.Succs[0])
				} else {
					vm.enterBlock(st, b, b.Succs[1])
				}
				return
			}
			st2 := st.clone()
			st.assume(c)
			st.path = append(st.path, fmt.Sprintf("%d+", vm.line(x)))
			st2.assume(Not(c))
			st2.path = append(st2.path, fmt.Sprintf("%d-", vm.line(x)))
			vm.enterBlock(st, b, b.Succs[0])
			vm.enterBlock(st2, b, b.Succs[1])
			return
		case *ssa.Jump:
			vm.enterBlock(st, b, b.Succs[0])
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, vm.get(st, r))
			}
			vm.doReturn(st, rs, x.Pos())
			return
		case *ssa.Panic:
			vm.doPanic(st, "explicit", x.Pos())
			return
		case *ssa.RunDefers:
			if n := len(st.fr.defers); n > 0 {
				d := st.fr.defers[n-1]
				vals := st.fr.dvals[n-1]
				st.fr.defers = st.fr.defers[:n-1]
				st.fr.dvals = st.fr.dvals[:n-1]
				vm.call(st, &d.Call, vals, nil, b, idx, d.Pos())
				return
			}
			idx++
		case *ssa.Defer:
			st.fr.defers = append(st.fr.defers, x)
			st.fr.dvals = append(st.fr.dvals, vm.callVals(st, &x.Call))
			idx++
		case *ssa.Call:
			vm.call(st, &x.Call, vm.callVals(st, &x.Call), x, b, idx+1, x.Pos())
			return
		default:
			if vm.instr(st, in, b, idx) {
				return
			}
			idx++
		}
	}
}

func (vm *VM) line(in ssa.Instruction) int {
	p := in.Pos()
	if x, ok := in.(*ssa.If); ok && !p.IsValid() {
		p = x.Cond.Pos()
	}
	if !p.IsValid() {
		return 0
	}
	return vm.ld.Fset.Position(p).Line
}

func (vm *VM) callVals(st *State, c *ssa.CallCommon) []Val {
	var vs []Val
	if c.IsInvoke() {
		vs = append(vs, vm.get(st, c.Value))
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		if _, ok := c.Value.(*ssa.Function); !ok {
			vs = append(vs, vm.get(st, c.Value))
		}
	}
	for _, a := range c.Args {
		vs = append(vs, vm.get(st, a))
	}
	return vs
}

func (vm *VM) doReturn(st *State, rs []Val, pos token.Pos) {
	fr := st.fr
	if fr.parent == nil {
		vm.exit(st, rs, pos)
		return
	}
	p := fr.parent
	st.fr = p
	if fr.retInstr != nil {
		if len(rs) == 1 {
			p.env[fr.retInstr] = rs[0]
		} else {
			p.env[fr.retInstr] = VTuple{rs}
		}
	}
	vm.runBlock(st, fr.retBlk, fr.retIdx)
}

func (vm *VM) exit(st *State, rs []Val, pos token.Pos) {
	vm.exits++
	env := vm.topEnv(st)
	vm.bindResults(env, vm.c, vm.fn.Signature, rs)
	if vm.rg != nil {
		vm.rg.exit(vm, st, env)
	}
	for _, ga := range vm.c.ExitGhost {
		vm.ghostAssign(st, env, ga)
	}
	for i, cl := range vm.c.ExitHints {
		if strings.HasPrefix(cl.Label, "onpanic") {
			continue
		}
		vm.hint(st, env, clLabel("hint", i, cl), pos, cl)
	}
	if vm.panicOK != nil && !vm.c.MayPanic {
		vm.oblige(st, "panics-when-specified", pos, Not(vm.panicOK))
		st.assume(Not(vm.panicOK))
	}
	for i, cl := range vm.c.Ensures {
		t := env.goal(cl.E)
		vm.oblige(st, clLabel("ensures", i, cl), pos, t)
	}
	// reachability of some normal exit (at least one path must be satisfiable)
	vm.exitCover = append(vm.exitCover, &Obligation{Fn: vm.c.Key, Label: "exit-reachable", Facts: st.facts, Goal: False, Kind: "exitcover", Uses: vm.c.Uses, Decls: vm})
}

func (vm *VM) bindResults(env *SEnv, c *Contract, sig *types.Signature, rs []Val) {
	for i, r := range rs {
		n := ""
		if i < len(c.Results) {
			n = c.Results[i]
		}
		tv := TV{V: r, T: sig.Results().At(i).Type()}
		if n != "" {
			env.names[n] = tv
		}
		if i == 0 {
			env.names["result"] = tv
		}
	}
	if len(c.Results) > len(rs) {
		panic(specErr{fmt.Sprintf("contract of %s has %d results, the code has %d", c.Key, len(c.Results), len(rs))})
	}
}

// ---- value lookup

func (vm *VM) get(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return vm.constVal(x.Value, x.Type())
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.Global:
		return vm.globalAddr(st, x)
	case *ssa.Builtin:
		return VFunc{}
	}
	r, ok := st.fr.env[v]
	if !ok {
		unsup("value %s (%T) not available", v.Name(), v)
	}
	return r
}

func (vm *VM) constVal(c constant.Value, t types.Type) Val {
	if c == nil {
		return vm.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VTerm{BoolT(constant.BoolVal(c))}
		case u.Info()&types.IsInteger != 0:
			n := new(big.Int)
			n.SetString(constant.ToInt(c).ExactString(), 10)
			return VTerm{vm.intLit(n, t)}
		case u.Info()&types.IsString != 0:
			return VTerm{vm.strLit(constant.StringVal(c))}
		case u.Info()&types.IsFloat != 0:
			return VTerm{Sym("flt:"+c.ExactString(), "Flt")}
		}
	}
	unsup("constant %s of type %s", c, t)
	return nil
}

func (vm *VM) intLit(n *big.Int, t types.Type) *Term {
	if vm.bv {
		return BVLit(n, intWidth(under(t).(*types.Basic)))
	}
	return NumB(n)
}

func (vm *VM) globalAddr(st *State, g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	if isStruct(t) || isArray(t) {
		r, ok := vm.globals[g]
		if !ok {
			r = Num(int64(-2000 - vm.tagId("global:"+g.String())))
			vm.globals[g] = r
		}
		vm.declFun("addr_tag", []Sort{SInt}, SInt)
		vm.declFun("addr_root", []Sort{SInt}, SInt)
		st.assume(And(Eq(App("addr_tag", SInt, r), Num(0)), Eq(App("addr_root", SInt, r), r)))
		return VTerm{r}
	}
	return VPtr{&Loc{kind: 'g', key: "V:" + g.Pkg.Pkg.Path() + "." + g.Name(), T: t}}
}

// ---- locations

func (vm *VM) loadLoc(st *State, l *Loc) Val {
	switch l.kind {
	case 'c':
		c := st.cells[l.cell]
		return vm.pathGet(c.V, c.T, l.path)
	case 'f':
		vm.rg.sharedAccess(vm, st, l.key, l.ref, token.NoPos)
		v := vm.loadHeapComps(st, st.heap, l.key, l.ref, l.T)
		vm.typeFacts(st, v, l.T)
		if len(l.path) > 0 {
			unsup("path into heap array")
		}
		return v
	case 'e':
		return vm.loadElem(st, st.heap, l.ref, l.idx, l.T, true)
	case 'g':
		var ts []*Term
		for _, c := range vm.comps(l.T) {
			ts = append(ts, vm.heapGet(st.heap, l.key+c.suffix, c.sort))
		}
		v := vm.build(ts, l.T)
		vm.typeFacts(st, v, l.T)
		return v
	case 'x': // index into an array held in a heap field
		a := vm.loadHeapComps(st, st.heap, l.key, l.ref, l.path[0].at)
		v := vm.arrGet(a, l.path[0].at, l.idx)
		vm.typeFacts(st, v, l.T)
		return v
	}
	unsup("load kind %c", l.kind)
	return nil
}

func (vm *VM) arrGet(a Val, at types.Type, idx *Term) Val {
	et := under(at).(*types.Array).Elem()
	var cs []*Term
	switch x := a.(type) {
	case VTerm:
		cs = []*Term{x.T}
	case VArr:
		cs = x.C
	default:
		unsup("arrGet %T", a)
	}
	var ts []*Term
	for _, c := range cs {
		ts = append(ts, vm.sel(c, idx))
	}
	return vm.build(ts, et)
}
func (vm *VM) arrSet(a Val, at types.Type, idx *Term, v Val) Val {
	et := under(at).(*types.Array).Elem()
	vs := vm.flatten(v, et)
	switch x := a.(type) {
	case VTerm:
		return VTerm{Store(x.T, idx, vs[0])}
	case VArr:
		var ts []*Term
		for i, c := range x.C {
			ts = append(ts, Store(c, idx, vs[i]))
		}
		return VArr{ts}
	}
	unsup("arrSet %T", a)
	return nil
}

func (vm *VM) pathGet(v Val, t types.Type, path []pathStep) Val {
	for _, s := range path {
		if s.idx != nil {
			v = vm.arrGet(v, t, s.idx)
			t = under(t).(*types.Array).Elem()
		} else {
			v = v.(VStruct).F[s.field]
			t = under(t).(*types.Struct).Field(s.field).Type()
		}
	}
	return v
}

func (vm *VM) pathSet(v Val, t types.Type, path []pathStep, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	if s.idx != nil {
		et := under(t).(*types.Array).Elem()
		return vm.arrSet(v, t, s.idx, vm.pathSet(vm.arrGet(v, t, s.idx), et, path[1:], nv))
	}
	o := v.(VStruct)
	n := VStruct{append([]Val(nil), o.F...)}
	n.F[s.field] = vm.pathSet(o.F[s.field], under(t).(*types.Struct).Field(s.field).Type(), path[1:], nv)
	return n
}

func (vm *VM) storeLoc(st *State, l *Loc, v Val, pos token.Pos) {
	switch l.kind {
	case 'c':
		c := st.cells[l.cell]
		c.V = vm.pathSet(c.V, c.T, l.path, v)
		st.cells[l.cell] = c
	case 'f':
		vm.rg.sharedAccess(vm, st, l.key, l.ref, pos)
		for _, c := range vm.comps(l.T) {
			vm.checkWrite(st, l.key+c.suffix, l.ref, nil, pos)
		}
		vm.storeHeapComps(st, l.key, l.ref, v, l.T)
	case 'e':
		vm.checkWriteElem(st, l.T, l.ref, l.idx, pos)
		vm.storeElem(st, l.ref, l.idx, v, l.T)
	case 'g':
		ts := vm.flatten(v, l.T)
		for i, c := range vm.comps(l.T) {
			vm.checkWrite(st, l.key+c.suffix, nil, nil, pos)
			vm.heapGet(st.heap, l.key+c.suffix, c.sort)
			st.heap[l.key+c.suffix] = ts[i]
		}
	case 'x':
		at := l.path[0].at
		for _, c := range vm.comps(at) {
			vm.checkWrite(st, l.key+c.suffix, l.ref, nil, pos)
		}
		a := vm.loadHeapComps(st, st.heap, l.key, l.ref, at)
		vm.storeHeapComps(st, l.key, l.ref, vm.arrSet(a, at, l.idx, v), at)
	default:
		unsup("store kind %c", l.kind)
	}
}

// deref loads the value a pointer points to.
func (vm *VM) deref(st *State, p Val, t types.Type, pos token.Pos) Val {
	switch x := p.(type) {
	case VPtr:
		return vm.loadLoc(st, x.L)
	case VView:
		return vm.viewLoad(st, x, t, pos)
	case VTerm:
		vm.check(st, "nil-dereference", pos, Ne(x.T, Num(0)))
		if isStruct(t) {
			vm.rg.sharedStruct(vm, st, t, pos)
			return vm.loadStruct(st, st.heap, x.T, t, true)
		}
		if at, ok := under(t).(*types.Array); ok {
			if isStruct(at.Elem()) {
				unsup("whole-array load of structs")
			}
			var ts []*Term
			for _, c := range vm.comps(at.Elem()) {
				ts = append(ts, vm.sel(vm.heapGet(st.heap, vm.elemKey(at.Elem())+c.suffix, arrSort(SInt, arrSort(SInt, c.sort))), x.T))
			}
			return vm.build(ts, t)
		}
		v := vm.loadHeapComps(st, st.heap, "B:"+typeKey(t), x.T, t)
		vm.typeFacts(st, v, t)
		return v
	}
	unsup("deref %T", p)
	return nil
}

func (vm *VM) storePtr(st *State, p Val, v Val, t types.Type, pos token.Pos) {
	switch x := p.(type) {
	case VPtr:
		vm.storeLoc(st, x.L, v, pos)
	case VView:
		vm.viewStore(st, x, v, t, pos)
	case VTerm:
		vm.check(st, "nil-dereference", pos, Ne(x.T, Num(0)))
		if isStruct(t) {
			vm.rg.sharedStruct(vm, st, t, pos)
			vm.checkWriteStruct(st, t, x.T, pos)
			vm.storeStruct(st, x.T, v, t)
			return
		}
		if at, ok := under(t).(*types.Array); ok {
			if isStruct(at.Elem()) {
				unsup("whole-array store of structs")
			}
			ts := vm.flatten(v, t)
			for i, c := range vm.comps(at.Elem()) {
				k := vm.elemKey(at.Elem()) + c.suffix
				vm.checkWrite(st, k, x.T, nil, pos)
				m := vm.heapGet(st.heap, k, arrSort(SInt, arrSort(SInt, c.sort)))
				vm.setHeap(st, k, Store(m, x.T, ts[i]))
			}
			return
		}
		for _, c := range vm.comps(t) {
			vm.checkWrite(st, "B:"+typeKey(t)+c.suffix, x.T, nil, pos)
		}
		vm.storeHeapComps(st, "B:"+typeKey(t), x.T, v, t)
	default:
		unsup("store through %T", p)
	}
}

// ---- write frames

type ModItem struct {
	Key   string
	Whole bool
	Ref   *Term // single reference (or ghost index)
	Lo    *Term // element range [Lo,Hi) within Ref
	Hi    *Term
	Pred  func(r *Term) *Term // quantified set of references
}

func (vm *VM) inMods(st *State, key string, ref, idx *Term) *Term {
	var alts []*Term
	if ref != nil {
		if vm.isFresh(st, ref) {
			return True
		}
		root := ref
		if vm.interior && ref.Kind == KApp && (strings.HasPrefix(ref.Op, "sub:") || strings.HasPrefix(ref.Op, "elem:")) {
			root = App("addr_root", SInt, ref)
		}
		alts = append(alts, Ge(root, vm.entry.alloc))
		if vm.interior && root == ref {
			alts = append(alts, And(Lt(ref, Num(0)), Ge(App("addr_root", SInt, ref), vm.entry.alloc)))
		}
	}
	for _, m := range vm.mods {
		if m.Key != key {
			continue
		}
		switch {
		case m.Whole:
			return True
		case m.Pred != nil:
			alts = append(alts, m.Pred(ref))
		case m.Lo != nil:
			if idx == nil {
				continue
			}
			alts = append(alts, And(Eq(ref, m.Ref), Le(m.Lo, idx), Lt(idx, m.Hi)))
		default:
			e := Eq(ref, m.Ref)
			if e == True {
				return True
			}
			alts = append(alts, e)
		}
	}
	return Or(alts...)
}

func (vm *VM) checkWrite(st *State, key string, ref, idx *Term, pos token.Pos) {
	if vm.c.Flags["noframe"] || vm.newFields()[key] {
		return
	}
	g := vm.inMods(st, key, ref, idx)
	vm.oblige(st, "frame:"+strings.TrimPrefix(key, "F:"), pos, g)
	if g.Kind != KBool {
		st.assume(g)
	}
}
func (vm *VM) checkWriteElem(st *State, t types.Type, arr, idx *Term, pos token.Pos) {
	if isStruct(t) {
		vm.checkWriteStruct(st, t, vm.elemAddr(st, arr, idx, t), pos)
		return
	}
	for _, k := range vm.elemKeys(t) {
		vm.checkWrite(st, k, arr, idx, pos)
	}
}
func (vm *VM) checkWriteStruct(st *State, t types.Type, ref *Term, pos token.Pos) {
	for _, f := range vm.structFields(t) {
		if !f.ghost && isStruct(f.t) {
			vm.checkWriteStruct(st, f.t, vm.subAddr(st, ref, t, f.name), pos)
			continue
		}
		for _, k := range vm.fieldKeys(t, f) {
			vm.checkWrite(st, k, ref, nil, pos)
		}
	}
}

// ---- instructions

func (vm *VM) instr(st *State, in ssa.Instruction, b *ssa.BasicBlock, idx int) (done bool) {
	fr := st.fr
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if useCell(x) {
			vm.cellN++
			id := vm.cellN
			fr.allocs[x] = id
			st.cells[id] = Cell{vm.zero(t), t}
			fr.env[x] = VPtr{&Loc{kind: 'c', cell: id, T: t}}
		} else {
			r := vm.allocObj(st, t)
			fr.env[x] = VTerm{r}
		}
	case *ssa.Store:
		vm.storePtr(st, vm.get(st, x.Addr), vm.get(st, x.Val), x.Addr.Type().Underlying().(*types.Pointer).Elem(), x.Pos())
	case *ssa.UnOp:
		v := vm.get(st, x.X)
		switch x.Op {
		case token.MUL:
			fr.env[x] = vm.deref(st, v, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Pos())
		case token.NOT:
			fr.env[x] = VTerm{Not(v.(VTerm).T)}
		case token.SUB:
			fr.env[x] = VTerm{vm.arith(st, token.SUB, vm.zero(x.Type()).(VTerm).T, v.(VTerm).T, x.Type(), x.Pos())}
		case token.XOR:
			t := v.(VTerm).T
			if vm.bv {
				fr.env[x] = VTerm{App("bvnot", t.Sort, t)}
			} else if isUnsigned(x.Type()) {
				_, hi, _ := intRange(x.Type())
				fr.env[x] = VTerm{Sub(NumB(hi), t)}
			} else {
				fr.env[x] = VTerm{Sub(Num(-1), t)}
			}
		default:
			unsup("unary %s", x.Op)
		}
	case *ssa.BinOp:
		fr.env[x] = vm.binop(st, x.Op, vm.get(st, x.X), vm.get(st, x.Y), x.X.Type(), x.Y.Type(), x.Pos())
	case *ssa.FieldAddr:
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		f := under(pt).(*types.Struct).Field(x.Field)
		switch p := vm.get(st, x.X).(type) {
		case VPtr:
			if p.L.kind != 'c' {
				unsup("field address of %c", p.L.kind)
			}
			l := *p.L
			l.path = append(append([]pathStep(nil), l.path...), pathStep{field: x.Field})
			l.T = f.Type()
			fr.env[x] = VPtr{&l}
		case VTerm:
			vm.check(st, "nil-dereference", x.Pos(), Ne(p.T, Num(0)))
			if isStruct(f.Type()) {
				fr.env[x] = VTerm{vm.subAddr(st, p.T, pt, f.Name())}
			} else {
				fr.env[x] = VPtr{&Loc{kind: 'f', ref: p.T, key: vm.fieldKey(pt, f.Name()), T: f.Type()}}
			}
		case VView:
			off := p.Off
			for i := 0; i < x.Field; i++ {
				n := wordsOf(under(pt).(*types.Struct).Field(i).Type())
				if n < 0 {
					unsup("unsafe view as %s", pt)
				}
				off += n
			}
			fr.env[x] = VView{p.P, p.From, off}
		default:
			unsup("FieldAddr of %T", p)
		}
	case *ssa.Field:
		v := vm.get(st, x.X)
		fr.env[x] = v.(VStruct).F[x.Field]
	case *ssa.IndexAddr:
		i := vm.asInt(vm.get(st, x.Index).(VTerm).T, x.Index.Type())
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			s := vm.get(st, x.X).(VSlice)
			vm.check(st, "index-in-range", x.Pos(), And(Le(Num(0), i), Lt(i, s.Len)))
			fr.env[x] = vm.elemPtr(st, s.Arr, Add(s.Off, i), u.Elem())
		case *types.Pointer:
			at := under(u.Elem()).(*types.Array)
			vm.check(st, "index-in-range", x.Pos(), And(Le(Num(0), i), Lt(i, Num(at.Len()))))
			switch p := vm.get(st, x.X).(type) {
			case VPtr:
				if p.L.kind == 'f' {
					fr.env[x] = VPtr{&Loc{kind: 'x', ref: p.L.ref, key: p.L.key, idx: i, T: at.Elem(), path: []pathStep{{at: u.Elem()}}}}
					break
				}
				if p.L.kind != 'c' {
					unsup("element address of %c", p.L.kind)
				}
				l := *p.L
				l.path = append(append([]pathStep(nil), l.path...), pathStep{idx: i})
				l.T = at.Elem()
				fr.env[x] = VPtr{&l}
			case VTerm:
				vm.check(st, "nil-dereference", x.Pos(), Ne(p.T, Num(0)))
				fr.env[x] = vm.elemPtr(st, p.T, i, at.Elem())
			}
		default:
			unsup("IndexAddr of %s", x.X.Type())
		}
	case *ssa.Index:
		i := vm.asInt(vm.get(st, x.Index).(VTerm).T, x.Index.Type())
		v := vm.get(st, x.X)
		switch u := under(x.X.Type()).(type) {
		case *types.Array:
			vm.check(st, "index-in-range", x.Pos(), And(Le(Num(0), i), Lt(i, Num(u.Len()))))
			fr.env[x] = vm.arrGet(v, x.X.Type(), i)
		case *types.Basic:
			s := v.(VTerm).T
			vm.check(st, "index-in-range", x.Pos(), And(Le(Num(0), i), Lt(i, vm.slen(s))))
			r := vm.sat(s, i)
			st.assume(And(Le(Num(0), r), Le(r, Num(255))))
			fr.env[x] = VTerm{r}
		default:
			unsup("Index of %s", x.X.Type())
		}
	case *ssa.Slice:
		fr.env[x] = vm.sliceOp(st, x)
	case *ssa.MakeSlice:
		et := under(x.Type()).(*types.Slice).Elem()
		n := vm.asInt(vm.get(st, x.Len).(VTerm).T, x.Len.Type())
		c := vm.asInt(vm.get(st, x.Cap).(VTerm).T, x.Cap.Type())
		vm.check(st, "make-size", x.Pos(), And(Le(Num(0), n), Le(n, c)))
		if !vm.lenOK(c) {
			// running out of memory / exceeding the address space is outside the model
			vm.assumed["make sizes stay below 2^48 elements (larger requests exhaust memory)"] = true
			st.assume(Le(c, vm.maxLen()))
		}
		r := vm.freshRef(st)
		vm.zeroArray(st, r, et)
		fr.env[x] = VSlice{r, Num(0), n, c}
	case *ssa.Phi:
		for i, p := range b.Preds {
			if p == fr.prevBlk {
				fr.env[x] = vm.get(st, x.Edges[i])
			}
		}
	case *ssa.Extract:
		fr.env[x] = vm.get(st, x.Tuple).(VTuple).E[x.Index]
	case *ssa.ChangeType:
		fr.env[x] = vm.get(st, x.X)
	case *ssa.Convert:
		fr.env[x] = vm.convert(st, vm.get(st, x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.MakeInterface:
		fr.env[x] = vm.makeIface(st, vm.get(st, x.X), x.X.Type())
	case *ssa.ChangeInterface:
		fr.env[x] = vm.get(st, x.X)
	case *ssa.TypeAssert:
		return vm.typeAssert(st, x, b, idx)
	case *ssa.MakeClosure:
		var bs []Val
		for _, y := range x.Bindings {
			bs = append(bs, vm.get(st, y))
		}
		fr.env[x] = VFunc{Fn: x.Fn.(*ssa.Function), Bind: bs}
	case *ssa.MakeMap:
		r := vm.freshRef(st)
		mt := under(x.Type()).(*types.Map)
		vm.initMap(st, r, mt)
		fr.env[x] = VTerm{r}
	case *ssa.MapUpdate:
		m := vm.get(st, x.Map).(VTerm).T
		mt := under(x.Map.Type()).(*types.Map)
		vm.check(st, "assignment-to-nil-map", x.Pos(), Ne(m, Num(0)))
		vm.mapStore(st, m, mt, vm.get(st, x.Key), vm.get(st, x.Value), x.Pos())
	case *ssa.Lookup:
		return vm.lookup(st, x)
	case *ssa.Range:
		vm.cellN++
		id := vm.cellN
		it := vm.get(st, x.X)
		st.cells[id] = Cell{VTerm{Num(0)}, nil} // map: keys produced so far; string: byte position
		fr.env[x] = vm.newIter(st, it, x.X.Type(), id)
	case *ssa.Next:
		vm.nextOp(st, x)
	case *ssa.Go:
		unsup("goroutine creation")
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		unsup("channel operation")
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	default:
		unsup("instruction %T", in)
	}
	return false
}

func (vm *VM) asInt(t *Term, ty types.Type) *Term {
	if isBV(t.Sort) {
		if t.Kind == KBV {
			return NumB(t.N)
		}
		unsup("index in bit-vector mode")
	}
	return t
}

func (vm *VM) lenOK(t *Term) bool {
	return t.isNum() && t.N.Cmp(vm.maxLen().N) <= 0
}

func (vm *VM) elemPtr(st *State, arr, idx *Term, et types.Type) Val {
	if isStruct(et) {
		return VTerm{vm.elemAddr(st, arr, idx, et)}
	}
	return VPtr{&Loc{kind: 'e', ref: arr, idx: idx, T: et}}
}

func (vm *VM) sliceOp(st *State, x *ssa.Slice) Val {
	v := vm.get(st, x.X)
	opt := func(e ssa.Value, d *Term) *Term {
		if e == nil {
			return d
		}
		return vm.asInt(vm.get(st, e).(VTerm).T, e.Type())
	}
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		s := v.(VSlice)
		lo := opt(x.Low, Num(0))
		hi := opt(x.High, s.Len)
		mx := opt(x.Max, s.Cap)
		vm.check(st, "slice-bounds", x.Pos(), And(Le(Num(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.Cap)))
		return VSlice{s.Arr, Add(s.Off, lo), Sub(hi, lo), Sub(mx, lo)}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		p, ok := v.(VTerm)
		if !ok {
			unsup("slicing a local array")
		}
		n := Num(at.Len())
		lo := opt(x.Low, Num(0))
		hi := opt(x.High, n)
		mx := opt(x.Max, n)
		vm.check(st, "slice-bounds", x.Pos(), And(Le(Num(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		return VSlice{p.T, lo, Sub(hi, lo), Sub(mx, lo)}
	case *types.Basic:
		s := v.(VTerm).T
		lo := opt(x.Low, Num(0))
		hi := opt(x.High, vm.slen(s))
		vm.check(st, "slice-bounds", x.Pos(), And(Le(Num(0), lo), Le(lo, hi), Le(hi, vm.slen(s))))
		return VTerm{vm.ssub(st, s, lo, hi)}
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// wrapTo reduces a mathematical integer to the range of type t.
func (vm *VM) wrapTo(x *Term, t types.Type) *Term {
	lo, hi, _ := intRange(t)
	if x.isNum() && x.N.Cmp(lo) >= 0 && x.N.Cmp(hi) <= 0 {
		return x
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if lo.Sign() == 0 {
		return Mod(x, NumB(m))
	}
	return Add(Mod(Sub(x, NumB(lo)), NumB(m)), NumB(lo))
}

func (vm *VM) arith(st *State, op token.Token, a, b *Term, t types.Type, pos token.Pos) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		unsup("arithmetic %s on %s", op, t)
	}
	if vm.bv {
		return vm.bvArith(st, op, a, b, t, pos)
	}
	uns := isUnsigned(t)
	var r *Term
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	switch op {
	case token.ADD:
		r = Add(a, b)
		if uns {
			if r.isNum() {
				return vm.wrapTo(r, t)
			}
			return Ite(Gt(r, NumB(hi)), Sub(r, NumB(m)), r)
		}
	case token.SUB:
		r = Sub(a, b)
		if uns {
			if r.isNum() {
				return vm.wrapTo(r, t)
			}
			return Ite(Lt(r, Num(0)), Add(r, NumB(m)), r)
		}
	case token.MUL:
		r = Mul(a, b)
		if uns {
			return vm.wrapTo(r, t)
		}
	case token.QUO:
		vm.check(st, "division-by-zero", pos, Ne(b, Num(0)))
		if uns {
			return Div(a, b)
		}
		if b.isNum() && b.N.Sign() > 0 {
			if st.knownNonNeg(a) {
				return Div(a, b)
			}
			return Ite(Ge(a, Num(0)), Div(a, b), Neg(Div(Neg(a), b)))
		}
		r = Ite(Ge(a, Num(0)), Div(a, b), Neg(Div(Neg(a), b)))
		r = vm.wrapTo(r, t)
		return r
	case token.REM:
		vm.check(st, "division-by-zero", pos, Ne(b, Num(0)))
		if uns {
			return Mod(a, b)
		}
		if st.knownNonNeg(a) {
			return Mod(a, b)
		}
		return Ite(Ge(a, Num(0)), Mod(a, b), Neg(Mod(Neg(a), b)))
	case token.SHL:
		if b.isNum() && b.N.IsInt64() && b.N.Int64() < 200 {
			return vm.wrapTo(Mul(a, NumB(pow2(uint(b.N.Int64())))), t)
		}
		vm.declFun("pow2", []Sort{SInt}, SInt)
		w := intWidth(under(t).(*types.Basic))
		return Ite(Ge(b, Num(int64(w))), Num(0), vm.wrapTo(Mul(a, App("pow2", SInt, b)), t))
	case token.SHR:
		if b.isNum() && b.N.IsInt64() && b.N.Int64() < 200 {
			return Div(a, NumB(pow2(uint(b.N.Int64()))))
		}
		vm.declFun("pow2", []Sort{SInt}, SInt)
		return Div(a, App("pow2", SInt, b))
	case token.AND:
		if b.isNum() && b.N.Sign() >= 0 {
			if x := new(big.Int).Add(b.N, big.NewInt(1)); x.BitLen() > 0 && new(big.Int).And(x, b.N).Sign() == 0 {
				return Mod(a, NumB(x))
			}
			if new(big.Int).And(b.N, new(big.Int).Sub(b.N, big.NewInt(1))).Sign() == 0 && b.N.Sign() > 0 && uns { // one bit
				return Mul(b, Mod(Div(a, b), Num(2)))
			}
		}
		vm.declFun("bitand", []Sort{SInt, SInt}, SInt)
		r = App("bitand", SInt, a, b)
		if uns {
			st.assume(And(Le(Num(0), r), Le(r, a), Le(r, b)))
		}
		return r
	case token.OR, token.XOR, token.AND_NOT:
		if a.isNum() && !b.isNum() && op != token.AND_NOT {
			a, b = b, a
		}
		if b.isNum() && b.N.Sign() > 0 && uns {
			if a.isNum() {
				z := new(big.Int)
				switch op {
				case token.OR:
					z.Or(a.N, b.N)
				case token.XOR:
					z.Xor(a.N, b.N)
				default:
					z.AndNot(a.N, b.N)
				}
				return NumB(z)
			}
			if new(big.Int).And(b.N, new(big.Int).Sub(b.N, big.NewInt(1))).Sign() == 0 { // one bit
				set := Eq(Mod(Div(a, b), Num(2)), Num(1))
				switch op {
				case token.OR:
					return Ite(set, a, Add(a, b))
				case token.XOR:
					return Ite(set, Sub(a, b), Add(a, b))
				default:
					return Ite(set, Sub(a, b), a)
				}
			}
		}
		n := map[token.Token]string{token.OR: "bitor", token.XOR: "bitxor", token.AND_NOT: "bitandnot"}[op]
		vm.declFun(n, []Sort{SInt, SInt}, SInt)
		r = App(n, SInt, a, b)
		st.assume(And(Le(NumB(lo), r), Le(r, NumB(hi))))
		return r
	default:
		unsup("operator %s", op)
	}
	// signed add/sub/mul
	inr := And(Le(NumB(lo), r), Le(r, NumB(hi)))
	if vm.c.Flags["wrap"] || vm.ofNewField(a) || vm.ofNewField(b) {
		return vm.wrapTo(r, t)
	}
	if vm.c.Flags["nooverflow"] {
		vm.assumed["signed "+t.String()+" counters do not overflow in "+vm.c.Key+" (treated as mathematical integers)"] = true
		st.assume(inr)
		return r
	}
	vm.oblige(st, "no-overflow", pos, inr)
	st.assume(inr)
	return r
}

func (st *State) knownNonNeg(a *Term) bool {
	if a.Kind == KApp && a.Op == "mod" && a.Args[1].isNum() && a.Args[1].N.Sign() > 0 {
		return true
	}
	return a.isNum() && a.N.Sign() >= 0 || st.lits[litKey(Le(Num(0), a))] || st.lits[litKey(Ge(a, Num(0)))]
}

func (vm *VM) bvArith(st *State, op token.Token, a, b *Term, t types.Type, pos token.Pos) *Term {
	uns := isUnsigned(t)
	w := bvWidth(a.Sort)
	switch op {
	case token.ADD:
		return App("bvadd", a.Sort, a, b)
	case token.SUB:
		return App("bvsub", a.Sort, a, b)
	case token.MUL:
		return App("bvmul", a.Sort, a, b)
	case token.QUO, token.REM:
		vm.check(st, "division-by-zero", pos, Ne(b, BVLit(big.NewInt(0), w)))
		n := map[bool]map[token.Token]string{true: {token.QUO: "bvudiv", token.REM: "bvurem"}, false: {token.QUO: "bvsdiv", token.REM: "bvsrem"}}[uns][op]
		return App(n, a.Sort, a, b)
	case token.AND:
		return App("bvand", a.Sort, a, b)
	case token.OR:
		return App("bvor", a.Sort, a, b)
	case token.XOR:
		return App("bvxor", a.Sort, a, b)
	case token.AND_NOT:
		return App("bvand", a.Sort, a, App("bvnot", a.Sort, b))
	case token.SHL, token.SHR:
		// bring the shift count to the operand width, saturating
		bw := bvWidth(b.Sort)
		var cnt *Term
		switch {
		case bw == w:
			cnt = b
		case bw < w:
			cnt = App(fmt.Sprintf("(_ zero_extend %d)", w-bw), a.Sort, b)
		default:
			cnt = Ite(App("bvuge", SBool, b, BVLit(big.NewInt(int64(w)), bw)), BVLit(big.NewInt(int64(w)), w), App(fmt.Sprintf("(_ extract %d 0)", w-1), a.Sort, b))
		}
		if op == token.SHL {
			return App("bvshl", a.Sort, a, cnt)
		}
		if uns {
			return App("bvlshr", a.Sort, a, cnt)
		}
		return App("bvashr", a.Sort, a, cnt)
	}
	unsup("bv operator %s", op)
	return nil
}

func (vm *VM) binop(st *State, op token.Token, a, b Val, t, t2 types.Type, pos token.Pos) Val {
	if op == token.EQL || op == token.NEQ { // comparison with the empty string is one of lengths
		for i, v := range []Val{a, b} {
			w := []Val{b, a}[i]
			if vt, ok := v.(VTerm); ok && vt.T.Sort == SStr {
				if l, ok := vm.litOf(vt.T); ok && l == "" {
					if wt, ok := w.(VTerm); ok && wt.T.Sort == SStr && !wt.T.hasBound() {
						st.assume(And(Le(Num(0), vm.slen(wt.T)), Eq(Eq(wt.T, vt.T), Eq(vm.slen(wt.T), Num(0)))))
					}
				}
			}
		}
	}
	switch op {
	case token.EQL:
		return VTerm{vm.eqVal(st, a, b, t, t2)}
	case token.NEQ:
		return VTerm{Not(vm.eqVal(st, a, b, t, t2))}
	}
	x, ok1 := a.(VTerm)
	y, ok2 := b.(VTerm)
	if !ok1 || !ok2 {
		unsup("binary %s on %T", op, a)
	}
	bt, _ := under(t).(*types.Basic)
	if bt != nil && bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return VTerm{vm.sconcat(st, x.T, y.T)}
		}
		vm.declFun("strless", []Sort{SStr, SStr}, SBool)
		switch op {
		case token.LSS:
			return VTerm{App("strless", SBool, x.T, y.T)}
		case token.GTR:
			return VTerm{App("strless", SBool, y.T, x.T)}
		case token.LEQ:
			return VTerm{Not(App("strless", SBool, y.T, x.T))}
		case token.GEQ:
			return VTerm{Not(App("strless", SBool, x.T, y.T))}
		}
	}
	if x.T.Sort == "Flt" {
		n := "flt" + op.String()
		rs := Sort("Flt")
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			rs = SBool
		}
		vm.declFun(n, []Sort{"Flt", "Flt"}, rs)
		return VTerm{App(n, rs, x.T, y.T)}
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if vm.bv && isBV(x.T.Sort) {
			u := map[token.Token]string{token.LSS: "bvult", token.LEQ: "bvule", token.GTR: "bvugt", token.GEQ: "bvuge"}
			s := map[token.Token]string{token.LSS: "bvslt", token.LEQ: "bvsle", token.GTR: "bvsgt", token.GEQ: "bvsge"}
			if isUnsigned(t) {
				return VTerm{App(u[op], SBool, x.T, y.T)}
			}
			return VTerm{App(s[op], SBool, x.T, y.T)}
		}
		return VTerm{cmp(map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[op], x.T, y.T)}
	}
	if (op == token.SHL || op == token.SHR) && !isUnsigned(t2) && !vm.bv {
		vm.check(st, "negative-shift", pos, Ge(y.T, Num(0)))
	}
	return VTerm{vm.arith(st, op, x.T, y.T, t, pos)}
}

func (vm *VM) eqVal(st *State, a, b Val, t, t2 types.Type) *Term {
	// interface compared with concrete
	if ia, ok := a.(VIface); ok {
		if ib, ok := b.(VIface); ok {
			return And(Eq(ia.Tag, ib.Tag), Eq(ia.Data, ib.Data))
		}
		vb := vm.makeIface(st, b, t2).(VIface)
		return And(Eq(ia.Tag, vb.Tag), Eq(ia.Data, vb.Data))
	}
	if _, ok := b.(VIface); ok {
		return vm.eqVal(st, b, a, t2, t)
	}
	switch x := a.(type) {
	case VTerm:
		switch y := b.(type) {
		case VTerm:
			return Eq(x.T, y.T)
		case VPtr:
			if x.T.isNum() && x.T.N.Sign() == 0 {
				return False
			}
		case VFunc:
			if x.T.isNum() && x.T.N.Sign() == 0 {
				return False
			}
		}
	case VPtr:
		if y, ok := b.(VTerm); ok && y.T.isNum() && y.T.N.Sign() == 0 {
			return False
		}
		if y, ok := b.(VPtr); ok && x.L.kind == 'c' && y.L.kind == 'c' && x.L.cell != y.L.cell {
			return False
		}
	case VFunc:
		if y, ok := b.(VTerm); ok && y.T.isNum() && y.T.N.Sign() == 0 {
			return False
		}
	case VSlice: // only comparable with nil
		y := b.(VSlice)
		if x.Arr.isNum() {
			x, y = y, x
		}
		return Eq(x.Arr, Num(0))
	case VStruct:
		y := b.(VStruct)
		var cs []*Term
		for i, f := range vm.structFields(t) {
			if !f.ghost {
				cs = append(cs, vm.eqVal(st, x.F[i], y.F[i], f.t, f.t))
			}
		}
		return And(cs...)
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

func (vm *VM) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fb, _ := under(from).(*types.Basic)
	tb, _ := under(to).(*types.Basic)
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		x := v.(VTerm).T
		if vm.bv {
			fw, tw := intWidth(fb), intWidth(tb)
			switch {
			case fw == tw:
				return v
			case fw > tw:
				return VTerm{App(fmt.Sprintf("(_ extract %d 0)", tw-1), bvSort(tw), x)}
			case isUnsigned(from):
				return VTerm{App(fmt.Sprintf("(_ zero_extend %d)", tw-fw), bvSort(tw), x)}
			default:
				return VTerm{App(fmt.Sprintf("(_ sign_extend %d)", tw-fw), bvSort(tw), x)}
			}
		}
		flo, fhi, _ := intRange(from)
		tlo, thi, _ := intRange(to)
		if flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
			return v
		}
		if tlo.Sign() == 0 && flo.Sign() < 0 && fhi.Cmp(thi) <= 0 { // signed -> wide enough unsigned
			if x.isNum() {
				return VTerm{vm.wrapTo(x, to)}
			}
			if st.knownNonNeg(x) {
				return v
			}
			return VTerm{Ite(Lt(x, Num(0)), Add(x, NumB(new(big.Int).Add(thi, big.NewInt(1)))), x)}
		}
		return VTerm{vm.wrapTo(x, to)}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if _, ok := under(from).(*types.Slice); ok {
			s := v.(VSlice)
			et := under(from).(*types.Slice).Elem()
			if isByte(et) {
				m := vm.heapGet(st.heap, vm.elemKey(et), arrSort(SInt, arrSort(SInt, SInt)))
				return VTerm{vm.strOf(st, vm.sel(m, s.Arr), s.Off, s.Len)}
			}
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			return v
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if ts, ok := under(to).(*types.Slice); ok && isByte(ts.Elem()) {
			return vm.bytesOf(st, v.(VTerm).T, ts.Elem())
		}
	}
	if fb != nil && fb.Kind() == types.UnsafePointer || tb != nil && tb.Kind() == types.UnsafePointer {
		return vm.unsafeConvert(st, v, from, to)
	}
	if fb != nil && tb != nil && (fb.Info()&types.IsFloat != 0 || tb.Info()&types.IsFloat != 0) {
		n := "conv:" + fb.Name() + ">" + tb.Name()
		x := v.(VTerm).T
		rs := vm.comps(to)[0].sort
		vm.declFun(n, []Sort{x.Sort}, rs)
		r := VTerm{App(n, rs, x)}
		vm.typeFacts(st, r, to)
		return r
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (vm *VM) makeIface(st *State, v Val, t types.Type) Val {
	if x, ok := v.(VIface); ok {
		return x
	}
	if x, ok := v.(VTerm); ok && under(t) == types.Typ[types.UntypedNil] {
		_ = x
		return VIface{Num(0), Num(0)}
	}
	tag := Num(int64(vm.tagId("type:" + typeKey(t))))
	switch x := v.(type) {
	case VTerm:
		if _, ok := under(t).(*types.Pointer); ok {
			return VIface{tag, x.T}
		}
		if x.T.Sort == SInt {
			if isInteger(t) {
				return VIface{tag, x.T}
			}
		}
	case VPtr:
		vm.boxed = append(vm.boxed, v)
		return VIface{tag, Num(int64(-500000 - len(vm.boxed)))}
	}
	// general boxing: injective function per type
	ts := vm.flatten(v, t)
	n := "box:" + typeKey(t)
	var ss []Sort
	for _, x := range ts {
		ss = append(ss, x.Sort)
	}
	if len(ts) == 0 {
		return VIface{tag, Num(0)}
	}
	vm.declFun(n, ss, SInt)
	bx := App(n, SInt, ts...)
	for i, x := range ts {
		un := fmt.Sprintf("unbox%d:%s", i, typeKey(t))
		vm.declFun(un, []Sort{SInt}, x.Sort)
		if !bx.hasBound() {
			st.assume(Eq(App(un, x.Sort, bx), x))
		}
	}
	if !bx.hasBound() {
		st.assume(Lt(bx, st.alloc))
	}
	return VIface{tag, bx}
}

func (vm *VM) unboxIface(st *State, v VIface, t types.Type) Val {
	if _, ok := under(t).(*types.Pointer); ok {
		if v.Data.isNum() && v.Data.N.IsInt64() {
			k := -500000 - v.Data.N.Int64() - 1
			if k >= 0 && int(k) < len(vm.boxed) {
				return vm.boxed[k]
			}
		}
		r := VTerm{v.Data}
		vm.typeFacts(st, r, t)
		return r
	}
	if isInteger(t) && !vm.bv {
		r := VTerm{v.Data}
		vm.typeFacts(st, r, t)
		return r
	}
	if v.Data.Kind == KApp && v.Data.Op == "box:"+typeKey(t) {
		return vm.build(append([]*Term(nil), v.Data.Args...), t)
	}
	var ts []*Term
	for i, c := range vm.comps(t) {
		un := fmt.Sprintf("unbox%d:%s", i, typeKey(t))
		vm.declFun(un, []Sort{SInt}, c.sort)
		ts = append(ts, App(un, c.sort, v.Data))
	}
	r := vm.build(ts, t)
	vm.typeFacts(st, r, t)
	return r
}

func (vm *VM) typeAssert(st *State, x *ssa.TypeAssert, b *ssa.BasicBlock, idx int) bool {
	v := vm.get(st, x.X).(VIface)
	var ok *Term
	if _, isI := under(x.AssertedType).(*types.Interface); isI {
		n := "impl:" + typeKey(x.AssertedType)
		vm.declFun(n, []Sort{SInt}, SBool)
		ok = And(Ne(v.Tag, Num(0)), App(n, SBool, v.Tag))
	} else {
		ok = Eq(v.Tag, Num(int64(vm.tagId("type:"+typeKey(x.AssertedType)))))
	}
	val := func(s *State) Val {
		if _, isI := under(x.AssertedType).(*types.Interface); isI {
			return v
		}
		return vm.unboxIface(s, v, x.AssertedType)
	}
	if !x.CommaOk {
		vm.check(st, "type-assertion", x.Pos(), ok)
		st.fr.env[x] = val(st)
		return false
	}
	if ok.Kind == KBool {
		if ok.Op == "true" {
			st.fr.env[x] = VTuple{[]Val{val(st), VTerm{True}}}
		} else {
			st.fr.env[x] = VTuple{[]Val{vm.zero(x.AssertedType), VTerm{False}}}
		}
		return false
	}
	st2 := st.clone()
	st.assume(ok)
	st2.assume(Not(ok))
	if !st.dead {
		st.fr.env[x] = VTuple{[]Val{val(st), VTerm{True}}}
		vm.runBlock(st, b, idx+1)
	}
	if !st2.dead {
		st2.fr.env[x] = VTuple{[]Val{vm.zero(x.AssertedType), VTerm{False}}}
		vm.runBlock(st2, b, idx+1)
	}
	return true
}

// ---- maps

func (vm *VM) mapKeySort(mt *types.Map) Sort {
	cs := vm.comps(mt.Key())
	if len(cs) == 1 {
		return cs[0].sort
	}
	return SInt
}
func (vm *VM) mapKeyTerm(st *State, k Val, mt *types.Map) *Term {
	ts := vm.flatten(k, mt.Key())
	if len(ts) == 1 {
		return ts[0]
	}
	return vm.makeIface(st, k, mt.Key()).(VIface).Data
}
func (vm *VM) mapKeys(mt *types.Map) (dom string, vals []string, vs []Sort) {
	tk := typeKey(mt)
	dom = "MD:" + tk
	ks := vm.mapKeySort(mt)
	vm.keySort[dom] = arrSort(SInt, arrSort(ks, SBool))
	for _, c := range vm.comps(mt.Elem()) {
		k := "MV:" + tk + c.suffix
		vm.keySort[k] = arrSort(SInt, arrSort(ks, c.sort))
		vals = append(vals, k)
		vs = append(vs, c.sort)
	}
	return
}
func (vm *VM) initMap(st *State, r *Term, mt *types.Map) {
	dom, _, _ := vm.mapKeys(mt)
	m := vm.heapGet(st.heap, dom, vm.keySort[dom])
	_, inner, _ := splitArr(vm.keySort[dom])
	vm.setHeap(st, dom, Store(m, r, ConstArr(inner, False)))
}
func (vm *VM) mapStore(st *State, m *Term, mt *types.Map, k, v Val, pos token.Pos) {
	dom, vals, _ := vm.mapKeys(mt)
	kt := vm.mapKeyTerm(st, k, mt)
	vm.checkWrite(st, dom, m, nil, pos)
	d := vm.heapGet(st.heap, dom, vm.keySort[dom])
	vm.setHeap(st, dom, Store(d, m, Store(vm.sel(d, m), kt, True)))
	ts := vm.flatten(v, mt.Elem())
	for i, key := range vals {
		vm.checkWrite(st, key, m, nil, pos)
		h := vm.heapGet(st.heap, key, vm.keySort[key])
		vm.setHeap(st, key, Store(h, m, Store(vm.sel(h, m), kt, ts[i])))
	}
}
func (vm *VM) mapDelete(st *State, m *Term, mt *types.Map, k Val, pos token.Pos) {
	dom, _, _ := vm.mapKeys(mt)
	kt := vm.mapKeyTerm(st, k, mt)
	d := vm.heapGet(st.heap, dom, vm.keySort[dom])
	// delete on a nil map is a no-op
	vm.checkWriteIf(st, dom, m, Ne(m, Num(0)), pos)
	nd := Store(d, m, Store(vm.sel(d, m), kt, False))
	if !st.lits[litKey(Ne(m, Num(0)))] {
		nd = Ite(Eq(m, Num(0)), d, nd)
	}
	vm.setHeap(st, dom, nd)
}
func (vm *VM) checkWriteIf(st *State, key string, ref, cond *Term, pos token.Pos) {
	g := Implies(cond, vm.inMods(st, key, ref, nil))
	vm.oblige(st, "frame:"+key, pos, g)
	st.assume(g)
}
func (vm *VM) mapHas(st *State, h map[string]*Term, m *Term, mt *types.Map, kt *Term) *Term {
	dom, _, _ := vm.mapKeys(mt)
	d := vm.heapGet(h, dom, vm.keySort[dom])
	return And(Ne(m, Num(0)), vm.sel(vm.sel(d, m), kt))
}
func (vm *VM) mapVal(st *State, h map[string]*Term, m *Term, mt *types.Map, kt *Term) Val {
	_, vals, _ := vm.mapKeys(mt)
	var ts []*Term
	for _, key := range vals {
		ts = append(ts, vm.sel(vm.sel(vm.heapGet(h, key, vm.keySort[key]), m), kt))
	}
	return vm.build(ts, mt.Elem())
}

func (vm *VM) lookup(st *State, x *ssa.Lookup) bool {
	switch u := under(x.X.Type()).(type) {
	case *types.Map:
		m := vm.get(st, x.X).(VTerm).T
		kt := vm.mapKeyTerm(st, vm.get(st, x.Index), u)
		has := vm.mapHas(st, st.heap, m, u, kt)
		v := vm.mapVal(st, st.heap, m, u, kt)
		z := vm.zero(u.Elem())
		vt, zt := vm.flatten(v, u.Elem()), vm.flatten(z, u.Elem())
		var ts []*Term
		for i := range vt {
			ts = append(ts, Ite(has, vt[i], zt[i]))
		}
		r := vm.build(ts, u.Elem())
		vm.typeFacts(st, r, u.Elem())
		if x.CommaOk {
			st.fr.env[x] = VTuple{[]Val{r, VTerm{has}}}
		} else {
			st.fr.env[x] = r
		}
	default:
		unsup("lookup in %s", x.X.Type())
	}
	return false
}

var _ = os.Stderr
