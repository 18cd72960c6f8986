package main

// Strings as an abstract sort: slen, sat (byte at index), and constructors with their axioms.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (vm *VM) slen(s *Term) *Term {
	vm.declFun("slen", []Sort{SStr}, SInt)
	return App("slen", SInt, s)
}
func (vm *VM) sat(s, i *Term) *Term { return vm.sel(vm.sbytes(s), i) }

// sbytes: the bytes of a string as an array indexed from 0.
func (vm *VM) sbytes(s *Term) *Term {
	vm.declFun("sbytes", []Sort{SStr}, arrSort(SInt, SInt))
	return App("sbytes", arrSort(SInt, SInt), s)
}

func (vm *VM) strLit(v string) *Term {
	if t, ok := vm.strs[v]; ok {
		return t
	}
	t := Sym(fmt.Sprintf("str:%q", strings.ReplaceAll(v, "|", "<bar>")), SStr)
	t.Op = strings.ReplaceAll(t.Op, "\\", "^")
	vm.strs[v] = t
	return t
}

// strAxioms: facts about the literals in use.
func (vm *VM) strAxioms() []*Term {
	var out []*Term
	for _, v := range sortedKeys(vm.strs) {
		t := vm.strs[v]
		out = append(out, Eq(vm.slen(t), Num(int64(len(v)))))
		if len(v) <= 64 {
			for i := 0; i < len(v); i++ {
				out = append(out, Eq(Select(vm.sbytes(t), Num(int64(i))), Num(int64(v[i]))))
			}
		}
	}
	return out
}

// litOf: the text of a literal term.
func (vm *VM) litOf(t *Term) (string, bool) {
	for v, x := range vm.strs {
		if x == t {
			return v, true
		}
	}
	return "", false
}

// sconcat keeps concatenations right-nested, with neighbouring literals joined and empty ones dropped.
func (vm *VM) sconcat(st *State, a, b *Term) *Term {
	var parts []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.Kind == KSym && vm.strDef[t.Op] != nil {
			t = vm.strDef[t.Op]
		}
		if t.Kind == KApp && t.Op == "sconcat" {
			flat(t.Args[0])
			flat(t.Args[1])
			return
		}
		if v, ok := vm.litOf(t); ok {
			if v == "" {
				return
			}
			if n := len(parts); n > 0 {
				if w, ok := vm.litOf(parts[n-1]); ok {
					parts[n-1] = vm.strLit(w + v)
					return
				}
			}
		}
		parts = append(parts, t)
	}
	flat(a)
	flat(b)
	if len(parts) == 0 {
		return vm.strLit("")
	}
	r := parts[len(parts)-1]
	for i := len(parts) - 2; i >= 0; i-- {
		r = vm.scat2(st, parts[i], r)
	}
	return r
}

func (vm *VM) scat2(st *State, a, b *Term) *Term {
	vm.declFun("sconcat", []Sort{SStr, SStr}, SStr)
	r := App("sconcat", SStr, a, b)
	if st != nil && !r.hasBound() {
		st.assume(Eq(vm.slen(r), Add(vm.slen(a), vm.slen(b))))
		i := Bound("i", SInt)
		st.assume(Forall([]*Term{i}, [][]*Term{{Select(vm.sbytes(r), i)}}, And(
			Implies(And(Le(Num(0), i), Lt(i, vm.slen(a))), Eq(Select(vm.sbytes(r), i), Select(vm.sbytes(a), i))),
			Implies(And(Le(vm.slen(a), i), Lt(i, vm.slen(r))), Eq(Select(vm.sbytes(r), i), Select(vm.sbytes(b), Sub(i, vm.slen(a))))))))
		st.assume(And(Le(Num(0), vm.slen(a)), Le(Num(0), vm.slen(b))))
	}
	return r
}

func (vm *VM) ssub(st *State, s, lo, hi *Term) *Term {
	vm.declFun("ssub", []Sort{SStr, SInt, SInt}, SStr)
	r := App("ssub", SStr, s, lo, hi)
	if st != nil && !r.hasBound() {
		ok := And(Le(Num(0), lo), Le(lo, hi), Le(hi, vm.slen(s)))
		st.assume(Implies(ok, Eq(vm.slen(r), Sub(hi, lo))))
		i := Bound("i", SInt)
		st.assume(Implies(ok, Forall([]*Term{i}, [][]*Term{{Select(vm.sbytes(r), i)}}, Implies(And(Le(Num(0), i), Lt(i, Sub(hi, lo))), Eq(Select(vm.sbytes(r), i), Select(vm.sbytes(s), Add(lo, i)))))))
	}
	return r
}

// strOf: the string with the bytes a[off..off+n)
func (vm *VM) strOf(st *State, a, off, n *Term) *Term {
	vm.declFun("strOf", []Sort{arrSort(SInt, SInt), SInt, SInt}, SStr)
	r := App("strOf", SStr, a, off, n)
	if st != nil && !r.hasBound() {
		st.assume(Implies(Le(Num(0), n), Eq(vm.slen(r), n)))
		i := Bound("i", SInt)
		st.assume(Forall([]*Term{i}, [][]*Term{{Select(vm.sbytes(r), i)}}, Implies(And(Le(Num(0), i), Lt(i, n)), Eq(Select(vm.sbytes(r), i), Select(a, Add(off, i))))))
	}
	return r
}

func (vm *VM) bytesOf(st *State, s *Term, et types.Type) Val {
	r := vm.freshRef(st)
	k := vm.elemKey(et)
	m := vm.heapGet(st.heap, k, arrSort(SInt, arrSort(SInt, SInt)))
	vm.setHeap(st, k, Store(m, r, vm.sbytes(s)))
	n := vm.slen(s)
	c := vm.freshSym("cap", SInt)
	st.assume(And(Le(Num(0), n), Le(n, c), Le(c, vm.maxLen())))
	return VSlice{r, Num(0), n, c}
}

// ---- range over maps and strings: an iterator is a count of completed steps

func (vm *VM) newIter(st *State, coll Val, t types.Type, id int) Val {
	it := VIter{Coll: coll, T: t, Id: id}
	switch u := under(t).(type) {
	case *types.Map:
		// the keys are produced in some order: an arbitrary one-to-one numbering of the map's keys
		m := coll.(VTerm).T
		ks := vm.mapKeySort(u)
		dom, _, _ := vm.mapKeys(u)
		it.Dom = vm.sel(vm.heapGet(st.heap, dom, vm.keySort[dom]), m)
		it.Enum = vm.freshSym("rangekey", arrSort(SInt, ks))
		it.Pos = vm.freshSym("rangepos", arrSort(ks, SInt))
		it.N = vm.mapLen(st, st.heap, m, u)
		i, k := Bound("i", SInt), Bound("k", ks)
		st.assume(Implies(Eq(m, Num(0)), Eq(it.N, Num(0))))
		in := And(Le(Num(0), Select(it.Pos, k)), Lt(Select(it.Pos, k), it.N), Eq(Select(it.Enum, Select(it.Pos, k)), k))
		st.assume(Implies(Ne(m, Num(0)), Forall([]*Term{k}, [][]*Term{{Select(it.Dom, k)}, {Select(it.Pos, k)}}, Implies(Select(it.Dom, k), in))))
		st.assume(Forall([]*Term{i}, [][]*Term{{Select(it.Enum, i)}}, Implies(And(Le(Num(0), i), Lt(i, it.N)), And(Select(it.Dom, Select(it.Enum, i)), Eq(Select(it.Pos, Select(it.Enum, i)), i)))))
		return it
	case *types.Basic:
		return it
	}
	unsup("range over %s", t)
	return nil
}

// mapLen: the number of keys of a map
func (vm *VM) mapLen(st *State, h map[string]*Term, m *Term, u *types.Map) *Term {
	s := vm.innerSort(u)
	f := "maplen:" + string(vm.mapKeySort(u))
	vm.declFun(f, []Sort{SInt, s}, SInt)
	dom, _, _ := vm.mapKeys(u)
	r := App(f, SInt, m, vm.sel(vm.heapGet(h, dom, vm.keySort[dom]), m))
	if st != nil && !r.hasBound() {
		st.assume(And(Le(Num(0), r), Le(r, vm.maxLen())))
	}
	return r
}

func (vm *VM) havocIters(st *State, h *loopHdr) {
	for _, bi := range sortedInts(h.body) {
		for _, in := range st.fr.fn.Blocks[bi].Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if it, ok := st.fr.env[n.Iter].(VIter); ok {
					c := st.cells[it.Id]
					s := c.V.(VTerm).T.Sort
					nv := vm.freshSym("iter", s)
					if it.N != nil {
						st.assume(And(Le(Num(0), nv), Le(nv, it.N)))
					} else {
						st.assume(And(Le(Num(0), nv), Le(nv, vm.slen(it.Coll.(VTerm).T))))
					}
					c.V = VTerm{nv}
					st.cells[it.Id] = c
				}
			}
		}
	}
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func (vm *VM) nextOp(st *State, x *ssa.Next) {
	it := st.fr.env[x.Iter].(VIter)
	c := st.cells[it.Id]
	tup := x.Type().(*types.Tuple)
	switch u := under(it.T).(type) {
	case *types.Map:
		m := it.Coll.(VTerm).T
		i := c.V.(VTerm).T
		dom, _, _ := vm.mapKeys(u)
		d := vm.sel(vm.heapGet(st.heap, dom, vm.keySort[dom]), m)
		vm.check(st, "map-unchanged-during-range", x.Pos(), Eq(d, it.Dom))
		ok := Lt(i, it.N)
		k := Select(it.Enum, i)
		c.V = VTerm{Ite(ok, Add(i, Num(1)), i)}
		st.cells[it.Id] = c
		var kv, vv Val
		kv = VTerm{k}
		if len(vm.comps(u.Key())) != 1 {
			unsup("range over map with composite keys")
		}
		vm.typeFacts(st, kv, u.Key())
		vv = vm.mapVal(st, st.heap, m, u, k)
		vm.typeFacts(st, vv, u.Elem())
		if tup.At(1).Type() == types.Typ[types.Invalid] {
			kv = nil
		}
		st.fr.env[x] = VTuple{[]Val{VTerm{ok}, kv, vv}}
	default:
		// string: the rune decoding is abstracted (width between 1 and 4)
		s := it.Coll.(VTerm).T
		p := c.V.(VTerm).T
		ok := Lt(p, vm.slen(s))
		w := vm.freshSym("width", SInt)
		r := vm.freshSym("rune", SInt)
		st.assume(And(Le(Num(1), w), Le(w, Num(4)), Le(Add(p, w), vm.slen(s))))
		st.assume(And(Le(Num(0), r), Le(r, Num(0x10ffff))))
		st.assume(Implies(Lt(Select(vm.sbytes(s), p), Num(128)), And(Eq(w, Num(1)), Eq(r, Select(vm.sbytes(s), p)))))
		c.V = VTerm{Ite(ok, Add(p, w), p)}
		st.cells[it.Id] = c
		st.fr.env[x] = VTuple{[]Val{VTerm{ok}, VTerm{p}, VTerm{r}}}
	}
}

// ---- intrinsics and special cases (extended in special.go)

var _ = token.NoPos

// itoa: the decimal text of an integer; zpad: zero-padded to a width.
func (vm *VM) itoa(st *State, x *Term) *Term {
	vm.declFun("itoa", []Sort{SInt}, SStr)
	r := App("itoa", SStr, x)
	if st != nil && !r.hasBound() {
		st.assume(Le(Num(1), vm.slen(r)))
	}
	return r
}
func (vm *VM) zpad(w, x *Term) *Term {
	vm.declFun("zpad", []Sort{SInt, SInt}, SStr)
	return App("zpad", SStr, w, x)
}

// sprintf interprets a constant format with %d, %0Nd, %s and %v of integers and strings.
func (vm *VM) sprintf(st *State, vals []Val) (*Term, bool) {
	if vm.bv || len(vals) != 2 {
		return nil, false
	}
	ft, ok := vals[0].(VTerm)
	if !ok {
		return nil, false
	}
	f, ok := vm.litOf(ft.T)
	if !ok {
		return nil, false
	}
	av, ok := vals[1].(VSlice)
	if !ok || !av.Len.isNum() {
		return nil, false
	}
	out := vm.strLit("")
	n := int64(0)
	add := func(t *Term) { out = vm.sconcat(st, out, t) }
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			add(vm.strLit(f[i:]))
			break
		}
		add(vm.strLit(f[i : i+j]))
		i += j + 1
		if i < len(f) && f[i] == '%' {
			add(vm.strLit("%"))
			i++
			continue
		}
		zero, width := false, int64(0)
		if i < len(f) && f[i] == '0' {
			zero = true
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			width = width*10 + int64(f[i]-'0')
			i++
		}
		if i >= len(f) || n >= av.Len.N.Int64() {
			return nil, false
		}
		verb := f[i]
		i++
		iv, ok := vm.loadElem(st, st.heap, av.Arr, Add(av.Off, Num(n)), types.NewInterfaceType(nil, nil), false).(VIface)
		n++
		if !ok || !iv.Tag.isNum() {
			return nil, false
		}
		t := vm.typeOfTag(iv.Tag)
		if t == nil || (width != 0) != zero && verb != 'X' {
			return nil, false
		}
		ms := types.NewMethodSet(t)
		has := func(m string) bool { return ms.Lookup(nil, m) != nil }
		if has("Format") {
			return nil, false
		}
		stringer := has("String") || has("Error") || has("GoString")
		b, _ := under(t).(*types.Basic)
		switch {
		case isInteger(t) && verb == 'd' || isInteger(t) && verb == 'v' && !stringer && !zero:
			x := vm.unboxIface(st, iv, t).(VTerm).T
			if zero {
				add(vm.zpad(Num(width), x))
			} else {
				add(vm.itoa(st, x))
			}
		case isInteger(t) && verb == 'x' && zero && st.knownNonNeg(vm.unboxIface(st, iv, t).(VTerm).T):
			add(vm.hexn(Num(width), vm.unboxIface(st, iv, t).(VTerm).T))
			vm.assumed["fmt.Sprintf renders %x of bytes as two lowercase hexadecimal digits each, %0Nx of a non-negative integer as hexadecimal zero-padded to N digits"] = true
		case isInteger(t) && isUnsigned(t) && verb == 'X' && width == 0 && !stringer:
			add(vm.hexU(vm.unboxIface(st, iv, t).(VTerm).T))
			vm.assumed["fmt.Sprintf renders %X and %0X of an unsigned integer as uppercase hexadecimal"] = true
		case isByteSlice(t) && verb == 'x' && !zero && !stringer:
			sl := vm.unboxIface(st, iv, t).(VSlice)
			mem := vm.byteMem(st)
			add(vm.hexs(vm.strOf(st, Select(mem, sl.Arr), sl.Off, sl.Len)))
			vm.assumed["fmt.Sprintf renders %x of bytes as two lowercase hexadecimal digits each, %0Nx of a non-negative integer as hexadecimal zero-padded to N digits"] = true
		case b != nil && b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v') && !stringer && !zero:
			add(vm.unboxIface(st, iv, t).(VTerm).T)
		case has("String") && !has("Error") && (verb == 's' || verb == 'v') && !zero:
			x, ok := vm.stringOf(st, t, vm.unboxIface(st, iv, t))
			if !ok {
				return nil, false
			}
			add(x)
			vm.assumed["fmt.Sprintf renders %s and %v of a value with a String method as what that returns"] = true
		default:
			return nil, false
		}
	}
	if n != av.Len.N.Int64() {
		return nil, false
	}
	vm.assumed["fmt.Sprintf renders %d as decimal text, %0Nd zero-padded to N digits, %s as the string itself"] = true
	return out, true
}

// stringOf: what the String method of a dependency's type returns, by its contract.
func (vm *VM) stringOf(st *State, t types.Type, v Val) (*Term, bool) {
	sel := types.NewMethodSet(t).Lookup(nil, "String")
	if sel == nil {
		return nil, false
	}
	m := vm.ld.Prog.MethodValue(sel)
	if m == nil {
		return nil, false
	}
	c := vm.contractFor2(m)
	if c == nil || !c.Extern || len(c.Requires)+len(c.Panics)+len(c.MayPanicIf)+len(c.Modifies) > 0 || c.MayPanic {
		return nil, false
	}
	names := vm.bindParams(c, m.Signature, []Val{v})
	r := vm.freshSym("text", SStr)
	env := &SEnv{vm: vm, st: st, heap: st.heap, names: map[string]TV{}, pkg: c.Pkg, old: st.snap(), oldNames: names, alloc: st.alloc}
	for k, v := range names {
		env.names[k] = v
	}
	vm.bindResults(env, c, m.Signature, []Val{VTerm{r}})
	for _, cl := range c.Ensures {
		st.assume(env.boolE(cl.E))
	}
	vm.assumed["contract of "+c.Pkg+"."+c.Key+" (dependency, not verified here)"] = true
	return r, true
}

// bufferWrite: a call that appends text to a bytes.Buffer through the io.Writer interface: the text.
func (vm *VM) bufferWrite(st *State, pkg, key string, vals []Val) (c *Contract, w Val, text *Term) {
	if len(vals) < 2 || pkg != "fmt" && pkg != "io" {
		return
	}
	iv, ok := vals[0].(VIface)
	if !ok || !iv.Tag.isNum() {
		return
	}
	t := vm.typeOfTag(iv.Tag)
	if t == nil || t.String() != "*bytes.Buffer" {
		return
	}
	switch {
	case key == "Fprintf":
		x, ok := vm.sprintf(st, vals[1:])
		if !ok {
			return
		}
		text = x
	case key == "Fprint":
		av, ok := vals[1].(VSlice)
		if !ok || !av.Len.isNum() || av.Len.N.Int64() != 1 {
			return
		}
		iv, ok := vm.loadElem(st, st.heap, av.Arr, av.Off, types.NewInterfaceType(nil, nil), false).(VIface)
		if !ok || !iv.Tag.isNum() {
			return
		}
		t := vm.typeOfTag(iv.Tag)
		if b, _ := types.Unalias(t).(*types.Basic); b == nil || b.Kind() != types.String {
			return
		}
		text = vm.unboxIface(st, iv, t).(VTerm).T
	case key == "WriteString":
		text = vals[1].(VTerm).T
	default:
		return
	}
	vm.assumed["fmt.Fprintf and io.WriteString write to a bytes.Buffer what its WriteString would"] = true
	return vm.contractFor("bytes", "Buffer.WriteString"), vm.unboxIface(st, iv, t), text
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}

// hexs: the lowercase hexadecimal text of a byte string; hexn: of a number, zero-padded to a width.
func (vm *VM) hexs(s *Term) *Term {
	vm.declFun("hexs", []Sort{SStr}, SStr)
	return App("hexs", SStr, s)
}
func (vm *VM) hexU(x *Term) *Term {
	vm.declFun("hexU", []Sort{SInt}, SStr)
	return App("hexU", SStr, x)
}
func (vm *VM) hexn(w, x *Term) *Term {
	vm.declFun("hexn", []Sort{SInt, SInt}, SStr)
	return App("hexn", SStr, w, x)
}
