package main

// Calls (contracts, inlining, builtins) and loops.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (vm *VM) contractFor(pkg, key string) *Contract {
	return vm.spec.Contracts[pkg+" "+key]
}

func (vm *VM) cont(st *State, ret ssa.Value, v Val, b *ssa.BasicBlock, idx int) {
	if st.dead {
		return
	}
	if ret != nil && v != nil {
		st.fr.env[ret] = v
	}
	vm.runBlock(st, b, idx)
}

func (vm *VM) call(st *State, cc *ssa.CallCommon, vals []Val, retC *ssa.Call, b *ssa.BasicBlock, idx int, pos token.Pos) {
	var ret ssa.Value
	if retC != nil {
		ret = retC
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		vm.builtin(st, bi.Name(), cc, vals, ret, b, idx, pos)
		return
	}
	if cc.IsInvoke() {
		vm.invoke(st, cc, vals, ret, b, idx, pos)
		return
	}
	var fn *ssa.Function
	var bind []Val
	if f, ok := cc.Value.(*ssa.Function); ok {
		fn = f
	} else {
		switch f := vals[0].(type) {
		case VFunc:
			fn, bind = f.Fn, f.Bind
			vals = vals[1:]
		case VTerm:
			vm.dynCall(st, cc, f.T, vals[1:], ret, b, idx, pos)
			return
		default:
			unsup("call of %T", f)
		}
	}
	vm.callFn(st, fn, bind, vals, ret, b, idx, pos)
}

func (vm *VM) callFn(st *State, fn *ssa.Function, bind, vals []Val, ret ssa.Value, b *ssa.BasicBlock, idx int, pos token.Pos) {
	pkg, key := funcKey(fn)
	if vm.intrinsic(st, pkg, key, fn, vals, ret, b, idx, pos) {
		return
	}
	// a contract for the dynamic type an interface argument is statically known to have:
	// "extern sort.Sort$IntSortSlice(data)"; the parameter then denotes the concrete value
	for i, v := range vals {
		iv, ok := v.(VIface)
		if !ok || !iv.Tag.isNum() {
			continue
		}
		t := vm.typeOfTag(iv.Tag)
		if t == nil {
			continue
		}
		tn := types.TypeString(t, func(*types.Package) string { return "" })
		tn = strings.TrimPrefix(tn, "*")
		if c := vm.contractFor(pkg, key+"$"+tn); c != nil {
			vm.used[pkg+" "+c.Key] = true
			vm.assumed["contract of "+pkg+"."+c.Key+" (dependency, not verified here)"] = true
			sg := fn.Signature
			var ps []*types.Var
			for j := 0; j < sg.Params().Len(); j++ {
				pv := sg.Params().At(j)
				k := j
				if sg.Recv() != nil {
					k++
				}
				if k == i {
					pv = types.NewVar(token.NoPos, nil, pv.Name(), t)
				}
				ps = append(ps, pv)
			}
			vals2 := append([]Val(nil), vals...)
			vals2[i] = vm.unboxIface(st, iv, t)
			vm.callContract(st, c, types.NewSignatureType(sg.Recv(), nil, nil, types.NewTuple(ps...), sg.Results(), false), nil, vals2, ret, b, idx, pos)
			return
		}
	}
	if c := vm.contractFor(pkg, key); c != nil && !c.Flags["inline"] && len(bind) == 0 && !(vm.c.Flags["inlineall"] && fn.Blocks != nil) {
		vm.used[pkg+" "+key] = true
		vm.callContract(st, c, fn.Signature, fn, vals, ret, b, idx, pos)
		return
	}
	if fn.Blocks == nil {
		unsup("call of %s.%s, which has neither body nor contract", pkg, key)
	}
	if st.fr.depth > 30 {
		unsup("recursion without contract: %s", key)
	}
	vm.inlined[pkg+" "+key] = true
	fr := vm.newFrame(fn, st.fr)
	fr.retBlk, fr.retIdx, fr.retInstr = b, idx, ret
	for i, p := range fn.Params {
		fr.env[p] = vals[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = bind[i]
	}
	if c := vm.contractFor(pkg, key); c != nil {
		fr.spec = c
		fr.params = vm.bindParams(c, fn.Signature, vals)
		fr.entry = st.snap()
	}
	st.fr = fr
	vm.runBlock(st, fn.Blocks[0], 0)
}

func (vm *VM) bindParams(c *Contract, sig *types.Signature, vals []Val) map[string]TV {
	names := map[string]TV{}
	i := 0
	if sig.Recv() != nil {
		rn := c.Recv
		if rn == "" {
			rn = "this"
		}
		names[rn] = TV{V: vals[0], T: sig.Recv().Type()}
		i = 1
	}
	if len(c.Params) != sig.Params().Len() {
		panic(specErr{fmt.Sprintf("contract of %s has %d parameters, the code has %d", c.Key, len(c.Params), sig.Params().Len())})
	}
	for j, n := range c.Params {
		names[n] = TV{V: vals[i+j], T: sig.Params().At(j).Type()}
	}
	return names
}

func (vm *VM) callContract(st *State, c *Contract, sig *types.Signature, fn *ssa.Function, vals []Val, ret ssa.Value, b *ssa.BasicBlock, idx int, pos token.Pos) {
	names := vm.bindParams(c, sig, vals)
	env := &SEnv{vm: vm, st: st, heap: st.heap, names: names, pkg: c.Pkg, alloc: st.alloc}
	lab := "call " + c.Key + " "
	if fn != nil && sig.Recv() != nil && fn.Blocks != nil {
		// nothing: a nil receiver is only a problem if the callee's contract says so
		_ = fn
	}
	for i, cl := range c.Requires {
		t := env.boolE(cl.E)
		vm.oblige(st, lab+clLabel("requires", i, cl), pos, t)
		st.assume(t)
	}
	if fn == vm.fn && len(c.Decreases) > 0 {
		e0 := vm.topEnv(st)
		e0.heap, e0.alloc, e0.inOld = vm.entry.heap, vm.entry.alloc, true
		vm.decreaseObl(st, "recursion", pos, e0.intsE(c.Decreases), env.intsE(c.Decreases))
	}
	if len(c.Panics) > 0 {
		var ps []*Term
		for _, cl := range c.Panics {
			ps = append(ps, env.boolE(cl.E))
		}
		p := Or(ps...)
		if p.Kind != KBool || p.Op == "true" {
			st2 := st.clone()
			st2.assume(p)
			vm.doPanic(st2, "in "+c.Key, pos)
			st.assume(Not(p))
			if st.dead {
				return
			}
		}
	}
	if c.MayPanic || len(c.MayPanicIf) > 0 {
		st2 := st.clone()
		for _, cl := range c.MayPanicIf {
			st2.assume(env.boolE(cl.E))
		}
		vm.doPanic(st2, "in "+c.Key, pos)
	}
	pre := st.snap()
	var items []*ModItem
	for _, m := range c.Modifies {
		items = append(items, env.modItem(m)...)
	}
	vm.checkModItems(st, items, lab, pos)
	vm.havocItems(st, items)
	vm.forgetNewFields(st)
	if !c.Flags["pure"] {
		na := vm.freshSym("alloc", SInt)
		st.assume(Ge(na, st.alloc))
		st.alloc = na
	}
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		v := vm.freshVal("r:"+c.Key, rt)
		vm.typeFacts(st, v, rt)
		rs = append(rs, v)
	}
	env2 := &SEnv{vm: vm, st: st, heap: st.heap, names: map[string]TV{}, pkg: c.Pkg, old: pre, oldNames: names, alloc: st.alloc}
	for k, v := range names {
		env2.names[k] = v
	}
	vm.bindResults(env2, c, sig, rs)
	for _, cl := range c.Ensures {
		t := env2.boolE(cl.E)
		st.assume(t)
		vm.noteStrDefs(t)
	}
	if c.Extern || c.Iface {
		vm.assumed["contract of "+c.Pkg+"."+c.Key+" (dependency, not verified here)"] = true
	}
	var rv Val
	if len(rs) == 1 {
		rv = rs[0]
	} else {
		rv = VTuple{rs}
	}
	vm.cont(st, ret, rv, b, idx)
}

// noteStrDefs records what a callee's postcondition says a ghost string it set is, so that further
// concatenations with it keep their normal form.
func (vm *VM) noteStrDefs(t *Term) {
	if t.Kind != KApp {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			vm.noteStrDefs(a)
		}
		return
	}
	if t.Op != "=" || t.Args[0].Sort != SStr {
		return
	}
	for i := 0; i < 2; i++ {
		v, d := t.Args[i], t.Args[1-i]
		if v.Kind == KSym && strings.HasPrefix(v.Op, "V:G:") && vm.strDef[v.Op] == nil && !strings.Contains(d.String(), v.Op) {
			if vm.strDef == nil {
				vm.strDef = map[string]*Term{}
			}
			vm.strDef[v.Op] = d
			return
		}
	}
}

func (vm *VM) decreaseObl(st *State, what string, pos token.Pos, before, after []*Term) {
	var alts []*Term
	pre := True
	for i := range before {
		alts = append(alts, And(pre, Lt(after[i], before[i]), Le(Num(0), before[i])))
		pre = And(pre, Eq(after[i], before[i]))
	}
	vm.oblige(st, "terminates:"+what, pos, Or(alts...))
}

func (vm *VM) checkModItems(st *State, items []*ModItem, lab string, pos token.Pos) {
	if vm.c.Flags["noframe"] {
		return
	}
	for _, m := range items {
		switch {
		case m.Whole:
			vm.oblige(st, lab+"frame:"+m.Key, pos, vm.inModsWhole(m.Key))
		case m.Pred != nil:
			r := Bound("fr", SInt)
			in := vm.inMods(st, m.Key, r, nil)
			g := Forall([]*Term{r}, nil, Implies(m.Pred(r), in))
			vm.oblige(st, lab+"frame:"+m.Key, pos, g)
		case m.Lo != nil:
			i := Bound("fi", SInt)
			in := vm.inMods(st, m.Key, m.Ref, i)
			g := Forall([]*Term{i}, nil, Implies(And(Le(m.Lo, i), Lt(i, m.Hi)), in))
			vm.oblige(st, lab+"frame:"+m.Key, pos, g)
		default:
			vm.oblige(st, lab+"frame:"+m.Key, pos, vm.inMods(st, m.Key, m.Ref, nil))
		}
	}
}

func (vm *VM) inModsWhole(key string) *Term {
	for _, m := range vm.mods {
		if m.Key == key && m.Whole {
			return True
		}
	}
	return False
}

// havocItems gives every location in items an arbitrary new value and keeps all others.
func (vm *VM) havocItems(st *State, items []*ModItem) {
	byKey := map[string][]*ModItem{}
	for _, m := range items {
		byKey[m.Key] = append(byKey[m.Key], m)
	}
	for _, key := range sortedKeys(byKey) {
		s := vm.keySort[key]
		old := vm.heapGet(st.heap, key, s)
		ms := byKey[key]
		whole, pred := false, false
		for _, m := range ms {
			whole = whole || m.Whole
			pred = pred || m.Pred != nil
		}
		if whole {
			st.heap[key] = vm.freshSym("H:"+key, s)
			continue
		}
		_, vs, _ := splitArr(s)
		if pred {
			n := vm.freshSym("H:"+key, s)
			b := Bound("r", SInt)
			var in []*Term
			for _, m := range ms {
				if m.Pred != nil {
					in = append(in, m.Pred(b))
				} else {
					in = append(in, Eq(b, m.Ref))
				}
			}
			st.assume(Forall([]*Term{b}, [][]*Term{{Select(n, b)}}, Or(Or(in...), Eq(Select(n, b), Select(old, b)))))
			st.heap[key] = n
			continue
		}
		cur := old
		seen := map[string]bool{}
		for _, m := range ms {
			rk := m.Ref.String()
			if m.Lo != nil {
				inner := vm.sel(cur, m.Ref)
				ni := vm.freshSym("A:"+key, inner.Sort)
				b := Bound("i", SInt)
				st.assume(Forall([]*Term{b}, [][]*Term{{Select(ni, b)}}, Or(And(Le(m.Lo, b), Lt(b, m.Hi)), Eq(Select(ni, b), Select(inner, b)))))
				cur = Store(cur, m.Ref, ni)
				continue
			}
			if seen[rk] {
				continue
			}
			seen[rk] = true
			cur = Store(cur, m.Ref, vm.freshSym("V:"+key, vs))
		}
		vm.setHeap(st, key, cur)
	}
}

// ---- interface method calls

func (vm *VM) invoke(st *State, cc *ssa.CallCommon, vals []Val, ret ssa.Value, b *ssa.BasicBlock, idx int, pos token.Pos) {
	iv, ok := vals[0].(VIface)
	if !ok {
		unsup("invoke on %T", vals[0])
	}
	vm.check(st, "nil-interface-call", pos, Ne(iv.Tag, Num(0)))
	// statically known dynamic type
	if iv.Tag.isNum() {
		for n, id := range vm.tags {
			if int64(id) == iv.Tag.N.Int64() && strings.HasPrefix(n, "type:") {
				if t := vm.findType(strings.TrimPrefix(n, "type:")); t != nil {
					if m := vm.ld.Prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); m != nil {
						recv := vm.unboxIface(st, iv, t)
						args := append([]Val{recv}, vals[1:]...)
						if m.Blocks != nil || vm.contractFor2(m) != nil {
							vm.callFn(st, m, nil, args, ret, b, idx, pos)
							return
						}
					}
				}
			}
		}
	}
	// contract on the interface method, searched through the interface the call goes through and the
	// interfaces it embeds
	sig := cc.Method.Type().(*types.Signature)
	c := vm.ifaceContract(cc.Value.Type(), cc.Method)
	if c == nil {
		unsup("call of interface method %s without contract", cc.Method.FullName())
	}
	// types of the code base behind the interface: the call goes to their own method ("opt dispatch T,U"
	// names types T, U whose pointers implement the interface); the contract is for all other types
	for _, t := range vm.dispatchTypes(c) {
		m := vm.ld.Prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			unsup("%s has no method %s", t, cc.Method.Name())
		}
		is := Eq(iv.Tag, Num(int64(vm.tagId("type:"+typeKey(t)))))
		st2 := st.clone()
		st2.assume(is)
		if !st2.dead {
			recv := vm.unboxIface(st2, iv, t)
			vm.callFn(st2, m, nil, append([]Val{recv}, vals[1:]...), ret, b, idx, pos)
		}
		st.assume(Not(is))
		if st.dead {
			return
		}
	}
	vm.used[c.Pkg+" "+c.Key] = true
	cs := *c
	cs.Recv = ""
	// bind receiver as an ordinary value
	recvT := cc.Value.Type()
	sig2 := types.NewSignatureType(types.NewVar(token.NoPos, nil, "this", recvT), nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	cs.Recv = c.Recv
	vm.callContract(st, &cs, sig2, nil, vals, ret, b, idx, pos)
}

func (vm *VM) dispatchTypes(c *Contract) []types.Type {
	var ts []types.Type
	for _, n := range strings.FieldsFunc(c.Opts["dispatch"], func(r rune) bool { return r == ',' || r == ' ' }) {
		t := vm.findType(strings.TrimPrefix(vm.pkg, modPath+"/") + "." + n)
		if t == nil {
			panic(specErr{fmt.Sprintf("dispatch of %s: no type %s in %s", c.Key, n, vm.pkg)})
		}
		ts = append(ts, types.NewPointer(t))
	}
	return ts
}

func (vm *VM) contractFor2(fn *ssa.Function) *Contract {
	p, k := funcKey(fn)
	return vm.contractFor(p, k)
}

func (vm *VM) ifaceContract(t types.Type, m *types.Func) *Contract {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		if c := vm.contractFor(n.Obj().Pkg().Path(), n.Obj().Name()+"."+m.Name()); c != nil {
			return c
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() == nil {
		if c := vm.contractFor("", n.Obj().Name()+"."+m.Name()); c != nil {
			return c
		}
	}
	// declared-in interface of the method
	if it, ok := under(t).(*types.Interface); ok {
		for i := 0; i < it.NumEmbeddeds(); i++ {
			e := it.EmbeddedType(i)
			if ei, ok := under(e).(*types.Interface); ok {
				for j := 0; j < ei.NumMethods(); j++ {
					if ei.Method(j).Name() == m.Name() {
						if c := vm.ifaceContract(e, m); c != nil {
							return c
						}
					}
				}
			}
		}
	}
	return nil
}

func (vm *VM) typeOfTag(tag *Term) types.Type {
	for n, id := range vm.tags {
		if int64(id) == tag.N.Int64() && strings.HasPrefix(n, "type:") {
			return vm.findType(strings.TrimPrefix(n, "type:"))
		}
	}
	return nil
}

func (vm *VM) findType(key string) types.Type {
	if strings.HasPrefix(key, "[]") {
		if e := vm.findType(key[2:]); e != nil {
			return types.NewSlice(e)
		}
		return nil
	}
	ptr := strings.HasPrefix(key, "*")
	k := strings.TrimPrefix(key, "*")
	i := strings.LastIndexByte(k, '.')
	if i < 0 {
		if o, ok := types.Universe.Lookup(k).(*types.TypeName); ok && !ptr {
			return o.Type()
		}
		return nil
	}
	for _, p := range vm.ld.Prog.AllPackages() {
		if pkgKey(p.Pkg.Path()) == k[:i] {
			if o := p.Pkg.Scope().Lookup(k[i+1:]); o != nil {
				if ptr {
					return types.NewPointer(o.Type())
				}
				return o.Type()
			}
		}
	}
	return nil
}

// ---- builtins

func (vm *VM) builtin(st *State, name string, cc *ssa.CallCommon, vals []Val, ret ssa.Value, b *ssa.BasicBlock, idx int, pos token.Pos) {
	if v, ok := vm.unsafeBuiltin(st, name, vals, pos); ok {
		vm.cont(st, ret, v, b, idx)
		return
	}
	switch name {
	case "len", "cap":
		var r *Term
		switch x := vals[0].(type) {
		case VSlice:
			r = x.Len
			if name == "cap" {
				r = x.Cap
			}
		case VTerm:
			switch u := under(cc.Args[0].Type()).(type) {
			case *types.Basic:
				r = vm.slen(x.T)
				st.assume(And(Le(Num(0), r), Le(r, vm.maxLen())))
				if _, lit := vm.litOf(x.T); !lit {
					st.assume(Eq(Eq(r, Num(0)), Eq(x.T, vm.strLit("")))) // the empty string is the one of length 0
				}
			case *types.Array:
				r = Num(u.Len())
			case *types.Map:
				r = vm.mapLen(st, st.heap, x.T, u)
			case *types.Pointer:
				r = Num(under(u.Elem()).(*types.Array).Len())
			default:
				unsup("len of %s", cc.Args[0].Type())
			}
		case VPtr:
			if u, ok := under(cc.Args[0].Type()).(*types.Pointer); ok {
				r = Num(under(u.Elem()).(*types.Array).Len())
			}
		case VArr:
			r = Num(under(cc.Args[0].Type()).(*types.Array).Len())
		}
		if r == nil {
			unsup("len of %T", vals[0])
		}
		vm.cont(st, ret, VTerm{r}, b, idx)
	case "append":
		vm.appendOp(st, cc, vals, ret, b, idx, pos)
	case "copy":
		d := vals[0].(VSlice)
		et := under(cc.Args[0].Type()).(*types.Slice).Elem()
		var srcArr func(k string, s Sort) (*Term, *Term)
		var sl *Term
		switch s := vals[1].(type) {
		case VSlice:
			sl = s.Len
			srcArr = func(k string, srt Sort) (*Term, *Term) {
				return vm.sel(vm.heapGet(st.heap, k, srt), s.Arr), s.Off
			}
		case VTerm:
			sl = vm.slen(s.T)
			srcArr = func(k string, srt Sort) (*Term, *Term) { return vm.sbytes(s.T), Num(0) }
		}
		n := vm.freshSym("ncopy", SInt)
		st.assume(Eq(n, Ite(Lt(d.Len, sl), d.Len, sl)))
		if isStruct(et) {
			unsup("copy of struct slices")
		}
		for _, k := range vm.elemKeys(et) {
			i := Bound("fi", SInt)
			in := vm.inMods(st, k, d.Arr, i)
			vm.oblige(st, "frame:"+k, pos, Forall([]*Term{i}, nil, Implies(And(Le(d.Off, i), Lt(i, Add(d.Off, n))), in)))
			srt := vm.keySort[k]
			m := vm.heapGet(st.heap, k, srt)
			da := vm.sel(m, d.Arr)
			sa, so := srcArr(k, srt)
			ni := vm.freshSym("A:"+k, da.Sort)
			bi := Bound("i", SInt)
			inr := And(Le(d.Off, bi), Lt(bi, Add(d.Off, n)))
			st.assume(Forall([]*Term{bi}, [][]*Term{{Select(ni, bi)}}, Eq(Select(ni, bi), Ite(inr, Select(sa, Add(so, Sub(bi, d.Off))), Select(da, bi)))))
			// the converse trigger: a known source element is found in the destination
			bj := Bound("j", SInt)
			if !(sa.Kind == KApp && strings.HasPrefix(sa.Op, "(as const")) {
				st.assume(Forall([]*Term{bj}, [][]*Term{{Select(sa, bj)}}, Implies(And(Le(so, bj), Lt(bj, Add(so, n))), Eq(Select(ni, Add(d.Off, Sub(bj, so))), Select(sa, bj)))))
			}
			vm.setHeap(st, k, Store(m, d.Arr, ni))
		}
		vm.cont(st, ret, VTerm{n}, b, idx)
	case "delete":
		mt := under(cc.Args[0].Type()).(*types.Map)
		vm.mapDelete(st, vals[0].(VTerm).T, mt, vals[1], pos)
		vm.cont(st, ret, nil, b, idx)
	case "panic":
		vm.doPanic(st, "explicit", pos)
	case "print", "println":
		vm.cont(st, ret, nil, b, idx)
	case "ssa:wrapnilchk":
		vm.check(st, "nil-dereference", pos, Ne(vals[0].(VTerm).T, Num(0)))
		vm.cont(st, ret, vals[0], b, idx)
	case "min", "max":
		r := vals[0].(VTerm).T
		for _, v := range vals[1:] {
			o := v.(VTerm).T
			if name == "min" {
				r = Ite(Lt(o, r), o, r)
			} else {
				r = Ite(Gt(o, r), o, r)
			}
		}
		vm.cont(st, ret, VTerm{r}, b, idx)
	case "ssa:deferstack":
		vm.cont(st, ret, VTerm{Num(0)}, b, idx)
	case "recover":
		vm.cont(st, ret, VIface{Num(0), Num(0)}, b, idx)
	default:
		unsup("builtin %s", name)
	}
}

func (vm *VM) innerSort(mt *types.Map) Sort {
	dom, _, _ := vm.mapKeys(mt)
	_, v, _ := splitArr(vm.keySort[dom])
	return v
}

// append: in place when the capacity suffices, otherwise into a fresh array with the same contents.
func (vm *VM) appendOp(st *State, cc *ssa.CallCommon, vals []Val, ret ssa.Value, b *ssa.BasicBlock, idx int, pos token.Pos) {
	s := vals[0].(VSlice)
	et := under(cc.Args[0].Type()).(*types.Slice).Elem()
	if isStruct(et) {
		unsup("append to a slice of structs")
	}
	var n *Term
	type src struct{ arr, off *Term }
	srcs := map[string]src{}
	switch t := vals[1].(type) {
	case VSlice:
		n = t.Len
		for _, k := range vm.elemKeys(et) {
			srcs[k] = src{vm.sel(vm.heapGet(st.heap, k, vm.keySort[k]), t.Arr), t.Off}
		}
	case VTerm: // append([]byte, string...)
		n = vm.slen(t.T)
		for _, k := range vm.elemKeys(et) {
			srcs[k] = src{vm.sbytes(t.T), Num(0)}
		}
	}
	vm.assumed["slice lengths stay below 2^48 elements"] = true
	nl := Add(s.Len, n)
	st.assume(Le(nl, vm.maxLen()))
	write := func(s2 *State, arr *Term, fresh bool) {
		for _, k := range vm.elemKeys(et) {
			m := vm.heapGet(s2.heap, k, vm.keySort[k])
			base := vm.sel(vm.heapGet(st.heap, k, vm.keySort[k]), s.Arr)
			sr := srcs[k]
			var na *Term
			if n.isNum() && n.N.IsInt64() && n.N.Int64() <= 8 {
				na = base
				for i := int64(0); i < n.N.Int64(); i++ {
					if !fresh {
						vm.checkWrite(s2, k, arr, Add(Add(s.Off, s.Len), Num(i)), pos)
					}
					na = Store(na, Add(Add(s.Off, s.Len), Num(i)), vm.sel(sr.arr, Add(sr.off, Num(i))))
				}
			} else {
				lo := Add(s.Off, s.Len)
				if !fresh {
					i := Bound("fi", SInt)
					in := vm.inMods(s2, k, arr, i)
					vm.oblige(s2, "frame:"+k, pos, Forall([]*Term{i}, nil, Implies(And(Le(lo, i), Lt(i, Add(lo, n))), in)))
				}
				na = vm.freshSym("A:"+k, base.Sort)
				bi := Bound("i", SInt)
				inr := And(Le(lo, bi), Lt(bi, Add(lo, n)))
				s2.assume(Forall([]*Term{bi}, [][]*Term{{Select(na, bi)}}, Eq(Select(na, bi), Ite(inr, vm.sel(sr.arr, Add(sr.off, Sub(bi, lo))), Select(base, bi)))))
				if !(sr.arr.Kind == KApp && (sr.arr.Op == "store" || strings.HasPrefix(sr.arr.Op, "(as const"))) {
					bj := Bound("j", SInt)
					s2.assume(Forall([]*Term{bj}, [][]*Term{{Select(sr.arr, bj)}}, Implies(And(Le(sr.off, bj), Lt(bj, Add(sr.off, n))), Eq(Select(na, Add(lo, Sub(bj, sr.off))), Select(sr.arr, bj)))))
				}
				bk := Bound("k", SInt)
				s2.assume(Forall([]*Term{bk}, [][]*Term{{Select(base, bk)}}, Implies(Lt(bk, lo), Eq(Select(na, bk), Select(base, bk)))))
			}
			vm.setHeap(s2, k, Store(m, arr, na))
		}
	}
	fits := Le(nl, s.Cap)
	var st2 *State
	if fits.Kind != KBool {
		st2 = st.clone()
		st.path = append(st.path, "append-in-place")
		st2.path = append(st2.path, "append-grow")
		st2.assume(Not(fits))
	} else if fits.Op == "false" {
		st2 = st.clone()
	}
	// copying into a fresh array: note st (not st2) supplies the old contents
	if st2 != nil && !st2.dead {
		r := vm.freshRef(st2)
		c := vm.freshSym("cap", SInt)
		st2.assume(And(Le(nl, c), Le(c, vm.maxLen())))
		for _, k := range vm.elemKeys(et) {
			_ = vm.heapGet(st2.heap, k, vm.keySort[k])
		}
		write(st2, r, true)
		vm.assumed["the contents of spare capacity after append reallocates are not observed"] = true
		vm.cont(st2, ret, VSlice{r, s.Off, nl, c}, b, idx)
	}
	st.assume(fits)
	if st.dead {
		return
	}
	write(st, s.Arr, false)
	vm.cont(st, ret, VSlice{s.Arr, s.Off, nl, s.Cap}, b, idx)
}

// ---- loops

type lmods struct {
	keys          map[string]bool
	allocs        map[string]bool
	cells         map[*ssa.Alloc]bool
	iters         bool
	callsContract bool
	fns           map[*ssa.Function]bool
}

func (vm *VM) staticMods(fn *ssa.Function, blocks []*ssa.BasicBlock, lm *lmods, subst map[ssa.Value]ssa.Value) {
	var resolve func(v ssa.Value) ssa.Value
	resolve = func(v ssa.Value) ssa.Value {
		for i := 0; i < 40; i++ {
			if w, ok := subst[v]; ok {
				v = w
				continue
			}
			// a parameter spilled into a cell: follow the single store
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if a, ok := u.X.(*ssa.Alloc); ok {
					if w := singleStore(a); w != nil {
						v = w
						continue
					}
				}
			}
			break
		}
		return v
	}
	addAlloc := func(ks []string) {
		for _, k := range ks {
			lm.keys[k] = true
			lm.allocs[k] = true
		}
	}
	addKeys := func(ks []string) {
		for _, k := range ks {
			lm.keys[k] = true
		}
	}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				t := x.Type().(*types.Pointer).Elem()
				if useCell(x) {
					lm.cells[x] = true
				} else if isStruct(t) {
					addAlloc(vm.structKeys(t))
				} else if at, ok := under(t).(*types.Array); ok {
					addAlloc(vm.elemKeys(at.Elem()))
				}
			case *ssa.MakeSlice:
				addAlloc(vm.elemKeys(under(x.Type()).(*types.Slice).Elem()))
			case *ssa.MakeMap:
				dom, vals, _ := vm.mapKeys(under(x.Type()).(*types.Map))
				addAlloc(append(vals, dom))
			case *ssa.MapUpdate:
				dom, vals, _ := vm.mapKeys(under(x.Map.Type()).(*types.Map))
				addKeys(append(vals, dom))
			case *ssa.Convert:
				if ts, ok := under(x.Type()).(*types.Slice); ok && isByte(ts.Elem()) {
					addAlloc(vm.elemKeys(ts.Elem()))
				}
			case *ssa.Next:
				lm.iters = true
			case *ssa.Store:
				vm.staticStore(resolve(x.Addr), resolve, lm, addKeys)
			case *ssa.Go:
				unsup("goroutine creation")
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						addAlloc(vm.elemKeys(under(cc.Args[0].Type()).(*types.Slice).Elem()))
					case "copy":
						addKeys(vm.elemKeys(under(cc.Args[0].Type()).(*types.Slice).Elem()))
					case "delete":
						dom, _, _ := vm.mapKeys(under(cc.Args[0].Type()).(*types.Map))
						addKeys([]string{dom})
					}
					continue
				}
				if cc.IsInvoke() {
					c := vm.ifaceContract(cc.Value.Type(), cc.Method)
					if c != nil {
						sig := cc.Method.Type().(*types.Signature)
						sig2 := types.NewSignatureType(types.NewVar(token.NoPos, nil, "this", cc.Value.Type()), nil, nil, sig.Params(), sig.Results(), sig.Variadic())
						addKeys(vm.contractKeys(c, sig2))
						for _, t := range vm.dispatchTypes(c) {
							m := vm.ld.Prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
							if m == nil {
								continue
							}
							if mc := vm.contractFor2(m); mc != nil && !mc.Flags["inline"] {
								addKeys(vm.contractKeys(mc, m.Signature))
							} else if m.Blocks != nil && !lm.fns[m] {
								lm.fns[m] = true
								vm.staticMods(m, m.Blocks, lm, map[ssa.Value]ssa.Value{})
								delete(lm.fns, m)
							}
						}
					}
					continue
				}
				fv := resolve(cc.Value)
				var callee *ssa.Function
				sub := map[ssa.Value]ssa.Value{}
				for k, v := range subst {
					sub[k] = v
				}
				switch f := fv.(type) {
				case *ssa.Function:
					callee = f
				case *ssa.MakeClosure:
					callee = f.Fn.(*ssa.Function)
					for i, fvv := range callee.FreeVars {
						sub[fvv] = f.Bindings[i]
					}
				}
				if callee == nil {
					vm.dynKeys(addKeys)
					continue
				}
				pkg, key := funcKey(callee)
				if ks, ok := vm.intrinsicKeys(pkg, key, cc); ok {
					addKeys(ks)
					// intrinsics that write through their pointer argument
					if len(cc.Args) > 0 {
						vm.staticStore(resolve(cc.Args[0]), resolve, lm, addKeys)
					}
					continue
				}
				if c := vm.contractFor(pkg, key); c != nil && !c.Flags["inline"] {
					addKeys(vm.contractKeys(c, callee.Signature))
					continue
				}
				if callee.Blocks == nil || lm.fns[callee] {
					continue
				}
				lm.fns[callee] = true
				vm.ghostKeys(vm.contractFor(pkg, key), lm, nil, nil)
				for i, p := range callee.Params {
					if i < len(cc.Args) {
						sub[p] = cc.Args[i]
					}
				}
				vm.staticMods(callee, callee.Blocks, lm, sub)
				delete(lm.fns, callee)
			}
		}
	}
}

func singleStore(a *ssa.Alloc) ssa.Value {
	var v ssa.Value
	n := 0
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			n++
			v = s.Val
		}
	}
	if n == 1 {
		switch v.(type) {
		case *ssa.Parameter, *ssa.MakeClosure, *ssa.FreeVar, *ssa.Function, *ssa.Alloc, *ssa.FieldAddr, *ssa.Global:
			return v
		}
	}
	return nil
}

func (vm *VM) staticStore(addr ssa.Value, resolve func(ssa.Value) ssa.Value, lm *lmods, addKeys func([]string)) {
	pt, ok := under(addr.Type()).(*types.Pointer)
	if !ok {
		return
	}
	t := pt.Elem()
	switch x := addr.(type) {
	case *ssa.Alloc:
		if useCell(x) {
			lm.cells[x] = true
			return
		}
	case *ssa.FieldAddr:
		base := resolve(x.X)
		if a := rootAlloc(base); a != nil && useCell(a) {
			lm.cells[a] = true
			return
		}
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		f := under(st).(*types.Struct).Field(x.Field)
		addKeys(vm.fieldKeys(st, structField{name: f.Name(), t: f.Type()}))
		return
	case *ssa.IndexAddr:
		base := resolve(x.X)
		if a := rootAlloc(base); a != nil && useCell(a) {
			if _, isP := under(x.X.Type()).(*types.Pointer); isP {
				lm.cells[a] = true
				return
			}
		}
		if fa, ok := base.(*ssa.FieldAddr); ok {
			if _, isP := under(x.X.Type()).(*types.Pointer); isP {
				vm.staticStore(fa, resolve, lm, addKeys)
				return
			}
		}
		addKeys(vm.elemKeys(t))
		return
	case *ssa.Global:
		if !isStruct(t) && !isArray(t) {
			for _, c := range vm.comps(t) {
				k := "V:" + x.Pkg.Pkg.Path() + "." + x.Name() + c.suffix
				vm.keySort[k] = c.sort
				addKeys([]string{k})
			}
			return
		}
	}
	switch {
	case isStruct(t):
		addKeys(vm.structKeys(t))
	case isArray(t):
		addKeys(vm.elemKeys(under(t).(*types.Array).Elem()))
	default:
		for _, c := range vm.comps(t) {
			k := "B:" + typeKey(t) + c.suffix
			vm.keySort[k] = arrSort(SInt, c.sort)
			addKeys([]string{k})
		}
	}
}

func (vm *VM) contractKeys(c *Contract, sig *types.Signature) []string {
	var vals []Val
	scratch := &State{lits: map[string]bool{}, heap: map[string]*Term{}, cells: map[int]Cell{}, alloc: Sym("alloc0", SInt)}
	if sig.Recv() != nil {
		vals = append(vals, vm.freshVal("x", sig.Recv().Type()))
	}
	for i := 0; i < sig.Params().Len(); i++ {
		vals = append(vals, vm.freshVal("x", sig.Params().At(i).Type()))
	}
	env := &SEnv{vm: vm, st: scratch, heap: scratch.heap, names: vm.bindParams(c, sig, vals), pkg: c.Pkg, alloc: scratch.alloc}
	var out []string
	for _, m := range c.Modifies {
		for _, it := range env.modItem(m) {
			out = append(out, it.Key)
		}
	}
	return out
}

func (vm *VM) loopSpec(st *State, h *loopHdr) (*LoopSpec, string) {
	fr := st.fr
	pkg, key := funcKey(fr.fn)
	lk := fmt.Sprintf("%s %s#%d", pkg, key, h.ord)
	if sf := specFrame(fr); sf != nil && sf.spec != nil && len(sf.spec.Loops) > 0 && vm.movedLoops(sf.spec, sf.fn) {
		if l := vm.movedSpec(sf, fr, h.ord); l != nil {
			return vm.adaptLoop(st, l), lk
		}
		return nil, lk
	}
	if fr.spec != nil {
		if l := fr.spec.Loops[h.ord]; l != nil {
			return vm.adaptLoop(st, l), lk
		}
	}
	return nil, lk
}

func (vm *VM) adaptLoop(st *State, l *LoopSpec) *LoopSpec {
	if !vm.lenientOn {
		return l
	}
	return vm.lenientSpec(st, l)
}

// ghostKeys: what the ghost assignments of a function's loops may change: all of them, or those made
// while loop h runs (its own steps, and the steps and entries of the loops inside it).
func (vm *VM) ghostKeys(c *Contract, lm *lmods, li *loopInfo, h *loopHdr) {
	if h == nil {
		vm.ghostKeysIn(c, lm, 0, func(int) bool { return true })
		return
	}
	vm.ghostKeysIn(c, lm, h.ord, func(ord int) bool {
		for _, o := range li.headers {
			if o.ord == ord && h.body[o.blk.Index] {
				return true
			}
		}
		return false
	})
}

// ghostKeysIn: the ghost state that the loop contracts assign in the loops that inside names, self being the
// loop at hand (its initial assignments come before it).
func (vm *VM) ghostKeysIn(c *Contract, lm *lmods, self int, inside func(int) bool) {
	if c == nil {
		return
	}
	for ord, l := range c.Loops {
		gs := append([]GhostAssign(nil), l.Ghost...)
		if ord != self {
			gs = append(gs, l.Init...)
		}
		if !inside(ord) {
			continue
		}
		for _, g := range gs {
			x := g.LHS
			name, field := "", ""
			switch {
			case x.K == "id":
				name = x.Name
			case x.K == "index" && x.Args[0].K == "id":
				name = x.Args[0].Name
			case x.K == "call" && x.Name == "all":
				field = x.Args[1].Name
			case x.K == "field":
				field = x.Name
			}
			if name != "" {
				e := &SEnv{vm: vm, pkg: c.Pkg}
				vm.keySort["G:"+name] = e.gsort(name)
				lm.keys["G:"+name] = true
				continue
			}
			for _, f := range vm.spec.GFields {
				if field == f.Name {
					k := "F:" + strings.TrimPrefix(f.Type, modPath+"/") + "." + field
					vm.keySort[k] = arrSort(SInt, f.T.sort())
					lm.keys[k] = true
				}
			}
		}
	}
}

// concreteTurn: whether a loop without invariants is at a turn whose condition has a known value. Such
// turns are executed one by one (no bound is assumed: a turn that is not known goes through loopEnter).
func (vm *VM) concreteTurn(st *State, h *loopHdr, n int) bool {
	const most = 64
	spec, _ := vm.loopSpec(st, h)
	if spec != nil || vm.rg != nil || n > most+1 {
		return false
	}
	bo := headerCond(h)
	if bo == nil {
		return false
	}
	x, y, ok := vm.evalHeader(st, h, bo)
	if !ok || !x.isNum() || !y.isNum() {
		return false
	}
	d := new(big.Int).Sub(x.N, y.N)
	return d.IsInt64() && d.Int64() <= most && d.Int64() >= -most
}

func (vm *VM) loopEnv(st *State) *SEnv {
	e := vm.topEnv(st)
	e.inLoop = true
	return e
}

func (vm *VM) loopEnter(st *State, h *loopHdr, from *ssa.BasicBlock) {
	spec, lk := vm.loopSpec(st, h)
	vm.usedLoops[lk] = true
	vm.curHdr = h
	env := vm.loopEnv(st)
	pos := h.pos
	var inv []Clause
	if spec != nil {
		inv = spec.Inv
	}
	name := fmt.Sprintf("loop%d", h.ord)
	if st.fr.parent != nil {
		name = st.fr.fn.Name() + "." + name
	}
	if vm.rg != nil {
		vm.rg.havoc(vm, st)
	}
	auto := vm.autoInv(st, h)
	if spec != nil {
		for _, g := range spec.Init {
			vm.ghostAssign(st, env, g)
			env = vm.loopEnv(st)
		}
		for _, cl := range spec.Hints {
			if cl.E.K == "apply" {
				vm.hint(st, env, "", pos, cl)
			}
		}
	}
	for i, cl := range inv {
		vm.curLoopKey = lk
		vm.oblige(st, name+" "+clLabel("invariant", i, cl)+" holds on entry", pos, env.goal(cl.E))
	}
	// havoc
	lm := &lmods{keys: map[string]bool{}, allocs: map[string]bool{}, cells: map[*ssa.Alloc]bool{}, fns: map[*ssa.Function]bool{}}
	var blocks []*ssa.BasicBlock
	for bi := range h.body {
		blocks = append(blocks, st.fr.fn.Blocks[bi])
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	sub := map[ssa.Value]ssa.Value{}
	vm.frameSubst(st.fr, sub)
	vm.staticMods(st.fr.fn, blocks, lm, sub)
	if sf := specFrame(st.fr); sf != nil && vm.movedLoops(sf.spec, sf.fn) {
		vm.movedGhosts(sf, st.fr, lm, h)
	} else {
		vm.ghostKeys(st.fr.spec, lm, vm.loops(st.fr.fn), h)
	}
	for _, a := range sortedAllocs(lm.cells) {
		for f := st.fr; f != nil; f = f.parent {
			if id, ok := f.allocs[a]; ok {
				c := st.cells[id]
				nm := a.Comment
				if nm == "" {
					nm = "cell"
				}
				v := vm.havocCell(st, nm, c)
				vm.typeFacts(st, v, c.T)
				st.cells[id] = Cell{v, c.T}
			}
		}
	}
	if lm.iters {
		vm.havocIters(st, h)
	}
	vm.loopHavocKeys(st, lm, spec)
	if spec != nil && len(spec.Split) > 0 {
		// case split over the values of a loop variable: the invariant must imply one of them
		sc := st.clone()
		e := vm.loopEnv(sc)
		for _, cl := range inv {
			sc.assume(e.boolE(cl.E))
		}
		var alts []*Term
		cur := e.intE(&Expr{K: "id", Name: spec.SplitVar})
		for _, v := range spec.Split {
			alts = append(alts, Eq(cur, NumB(v)))
		}
		vm.oblige(sc, name+" split is exhaustive", pos, Or(alts...))
		for _, v := range spec.Split {
			s2 := st.clone()
			done := false
			for a, id := range s2.fr.allocs {
				if c := s2.cells[id]; a.Comment == spec.SplitVar {
					if t, ok := c.V.(VTerm); ok && t.T == cur {
						s2.cells[id] = Cell{VTerm{NumB(v)}, c.T}
						done = true
					}
				}
			}
			if !done {
				panic(specErr{"split variable " + spec.SplitVar + " is not a local of the loop"})
			}
			vm.loopBody(s2, h, spec, auto, inv, name)
		}
		return
	}
	vm.loopBody(st, h, spec, auto, inv, name)
}

func (vm *VM) loopBody(st *State, h *loopHdr, spec *LoopSpec, auto []func(*State) *Term, inv []Clause, name string) {
	vm.curHdr = h
	env := vm.loopEnv(st)
	for _, a := range auto {
		st.assume(a(st))
	}
	for _, cl := range inv {
		st.assume(env.boolE(cl.E))
	}
	ctx := &loopCtx{start: st.snap()}
	if spec != nil && len(spec.Dec) > 0 {
		ctx.dec = env.intsE(spec.Dec)
	}
	st.fr.loops[h.blk.Index] = ctx
	for _, in := range h.blk.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			unsup("phi at loop header")
		}
	}
	st.path = append(st.path, name)
	if vm.rg != nil {
		vm.rg.havoc(vm, st)
	}
	vm.runBlock(st, h.blk, 0)
}

func (vm *VM) havocCell(st *State, nm string, c Cell) Val {
	switch c.V.(type) {
	case VFunc, VPtr, VIter:
		return c.V
	}
	return vm.freshVal("v:"+nm, c.T)
}

// frameSubst maps parameters of active inlined frames to the argument values of their call sites.
func (vm *VM) frameSubst(f *Frame, sub map[ssa.Value]ssa.Value) {
	for f != nil && f.parent != nil {
		if c, ok := f.retInstr.(*ssa.Call); ok {
			cc := c.Common()
			if !cc.IsInvoke() {
				for i, p := range f.fn.Params {
					if i < len(cc.Args) {
						sub[p] = cc.Args[i]
					}
				}
				v := cc.Value
				if u, ok := v.(*ssa.UnOp); ok {
					if a, ok := u.X.(*ssa.Alloc); ok {
						if w := singleStore(a); w != nil {
							v = w
						}
					}
				}
				if mc, ok := v.(*ssa.MakeClosure); ok {
					for i, fv := range f.fn.FreeVars {
						sub[fv] = mc.Bindings[i]
					}
				}
			}
		}
		f = f.parent
	}
}

func sortedAllocs(m map[*ssa.Alloc]bool) []*ssa.Alloc {
	var out []*ssa.Alloc
	for a := range m {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].Name() < out[j].Name()
	})
	return out
}

// loopHavocKeys: every key written in the loop becomes arbitrary except where the function's
// modifies clause (checked at each write) guarantees it unchanged.
func (vm *VM) loopHavocKeys(st *State, lm *lmods, spec *LoopSpec) {
	var extra []*ModItem
	if spec != nil && len(spec.Modifies) > 0 {
		env := vm.loopEnv(st)
		for _, m := range spec.Modifies {
			extra = append(extra, env.modItem(m)...)
		}
		_ = extra
	}
	vm.forgetNewFields(st)
	for _, key := range sortedKeys(lm.keys) {
		if vm.newFields()[key] {
			continue
		}
		s := vm.keySort[key]
		if s == "" {
			unsup("unknown key %s", key)
		}
		old := vm.heapGet(st.heap, key, s)
		_, isArr2, isA := splitArr(s)
		if !isA || strings.HasPrefix(key, "V:") {
			st.heap[key] = vm.freshSym("H:"+key, s)
			continue
		}
		var ms []*ModItem
		whole, pred := false, false
		for _, m := range vm.mods {
			if m.Key == key {
				ms = append(ms, m)
				whole = whole || m.Whole
				pred = pred || m.Pred != nil
			}
		}
		// Writes go to the modifies set or to objects allocated by this function.
		freshPossible := lm.allocs[key] || len(st.fresh) > 0
		if whole {
			st.heap[key] = vm.freshSym("H:"+key, s)
			continue
		}
		if !pred && !freshPossible {
			st.heap[key] = old
			vm.havocItems(st, ms)
			continue
		}
		n := vm.freshSym("H:"+key, s)
		b := Bound("r", SInt)
		root := b
		in := []*Term{Ge(root, vm.entry.alloc)}
		if vm.interior {
			vm.declFun("addr_root", []Sort{SInt}, SInt)
			in = append(in, And(Lt(b, Num(0)), Ge(App("addr_root", SInt, b), vm.entry.alloc)))
		}
		for _, m := range ms {
			if m.Pred != nil {
				in = append(in, m.Pred(b))
			} else {
				in = append(in, Eq(b, m.Ref))
			}
		}
		st.assume(Forall([]*Term{b}, [][]*Term{{Select(n, b)}}, Or(Or(in...), Eq(Select(n, b), Select(old, b)))))
		for _, m := range ms {
			if m.Lo != nil {
				i := Bound("i", SInt)
				ni, oi := Select(n, m.Ref), vm.sel(old, m.Ref)
				st.assume(Forall([]*Term{i}, [][]*Term{{Select(ni, i)}}, Or(And(Le(m.Lo, i), Lt(i, m.Hi)), Eq(Select(ni, i), Select(oi, i)))))
			}
		}
		_ = isArr2
		st.heap[key] = n
	}
	na := vm.freshSym("alloc", SInt)
	st.assume(Ge(na, st.alloc))
	st.alloc = na
}

func (vm *VM) loopBack(st *State, h *loopHdr, from *ssa.BasicBlock) {
	spec, lk := vm.loopSpec(st, h)
	vm.curHdr = h
	ctx := st.fr.loops[h.blk.Index]
	name := fmt.Sprintf("loop%d", h.ord)
	if st.fr.parent != nil {
		name = st.fr.fn.Name() + "." + name
	}
	if ctx == nil {
		unsup("back edge into a loop that was not entered")
	}
	if vm.rg != nil {
		vm.rg.havoc(vm, st)
	}
	if spec != nil {
		env := vm.loopEnv(st)
		env.loopStart = ctx.start
		for _, g := range spec.Ghost {
			vm.ghostAssign(st, env, g)
			env = vm.loopEnv(st)
			env.loopStart = ctx.start
		}
		for i, cl := range spec.Hints {
			vm.hint(st, env, name+" "+clLabel("hint", i, cl), h.pos, cl)
		}
		for i, cl := range spec.Inv {
			vm.curLoopKey = lk
			vm.oblige(st, name+" "+clLabel("invariant", i, cl)+" is preserved", h.pos, env.goal(cl.E))
		}
		if len(ctx.dec) > 0 {
			vm.decreaseObl(st, name, h.pos, ctx.dec, env.intsE(spec.Dec))
			return
		}
	}
	vm.autoDec(st, h, ctx, name)
}

// headerCond finds the comparison controlling the loop in the header block.
func headerCond(h *loopHdr) *ssa.BinOp {
	last := h.blk.Instrs[len(h.blk.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return nil
	}
	bo, _ := iff.Cond.(*ssa.BinOp)
	return bo
}

// evalHeader evaluates the header block up to its branch in a scratch copy of the state.
func (vm *VM) evalHeader(st *State, h *loopHdr, bo *ssa.BinOp) (x, y *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	s := st.clone()
	save := vm.obls
	defer func() { vm.obls = save }()
	for _, in := range h.blk.Instrs {
		switch in.(type) {
		case *ssa.Call, *ssa.Defer, *ssa.If, *ssa.Jump, *ssa.Return:
			if c, isC := in.(*ssa.Call); isC {
				if bi, isB := c.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
					if sl, isS := vm.get(s, c.Call.Args[0]).(VSlice); isS {
						s.fr.env[c] = VTerm{sl.Len}
						continue
					}
				}
				return nil, nil, false
			}
			goto done
		}
		vm.instr(s, in, h.blk, 0)
	}
done:
	a, ok1 := vm.get(s, bo.X).(VTerm)
	b, ok2 := vm.get(s, bo.Y).(VTerm)
	if !ok1 || !ok2 || a.T.Sort != SInt || b.T.Sort != SInt {
		return nil, nil, false
	}
	return a.T, b.T, true
}

func (vm *VM) measure(st *State, h *loopHdr) *Term {
	for _, in := range h.blk.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if it, ok := st.fr.env[n.Iter].(VIter); ok {
				end := it.N
				if end == nil {
					end = vm.slen(it.Coll.(VTerm).T)
				}
				return Sub(end, st.cells[it.Id].V.(VTerm).T)
			}
		}
	}
	bo := headerCond(h)
	if bo == nil {
		return nil
	}
	x, y, ok := vm.evalHeader(st, h, bo)
	if !ok {
		return nil
	}
	switch bo.Op {
	case token.LSS, token.LEQ, token.NEQ:
		return Sub(Add(y, Num(1)), x)
	case token.GTR, token.GEQ:
		return Sub(Add(x, Num(1)), y)
	}
	return nil
}

// autoDec: termination measure derived from the loop condition when the contract gives none.
func (vm *VM) autoDec(st *State, h *loopHdr, ctx *loopCtx, name string) {
	if vm.c.Flags["noterm"] {
		vm.assumed["termination of "+vm.c.Key+" is not proved"] = true
		return
	}
	// measure at the start of the iteration: rebuild the state at loop entry
	s0 := st.clone()
	s0.heap = map[string]*Term{}
	for k, v := range ctx.start.heap {
		s0.heap[k] = v
	}
	s0.cells = map[int]Cell{}
	for k, v := range ctx.start.cells {
		s0.cells[k] = v
	}
	m0 := vm.measure(s0, h)
	m1 := vm.measure(st, h)
	if m0 == nil || m1 == nil {
		vm.oblige(st, "terminates:"+name, h.pos, False)
		return
	}
	vm.decreaseObl(st, name, h.pos, []*Term{m0}, []*Term{m1})
}

// autoInv: facts that hold of compiler-generated range counters by construction.
func (vm *VM) autoInv(st *State, h *loopHdr) []func(*State) *Term {
	var out []func(*State) *Term
	for a, id := range st.fr.allocs {
		if a.Comment == "rangeindex" && h.cells[a] {
			inHdr := false
			for _, in := range h.blk.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == a {
					inHdr = true
				}
			}
			if !inHdr {
				continue
			}
			bo := headerCond(h)
			if bo == nil {
				continue
			}
			bound, ok := st.fr.env[bo.Y]
			if c, isC := bo.Y.(*ssa.Const); isC {
				bound, ok = vm.constVal(c.Value, c.Type()), true
			}
			if !ok {
				continue
			}
			bt := bound.(VTerm).T
			id := id
			out = append(out, func(s *State) *Term {
				ri := s.cells[id].V.(VTerm).T
				return And(Le(Num(-1), ri), Lt(ri, bt))
			})
		}
	}
	return out
}
