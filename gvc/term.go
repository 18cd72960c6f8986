package main

// SMT terms: immutable, lightly simplified on construction.

import (
	"fmt"
	"math/big"
	"strings"
)

type Sort = string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
)

func arrSort(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

// splitArr returns key and value sorts of an array sort.
func splitArr(s Sort) (k, v Sort, ok bool) {
	if !strings.HasPrefix(s, "(Array ") {
		return "", "", false
	}
	body := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return body[:i], body[i+1:], true
			}
		}
	}
	return "", "", false
}

type Term struct {
	Op   string // operator, symbol name, or literal
	Args []*Term
	Sort Sort
	Kind int // 0 app, 1 symbol const, 2 int literal, 3 bool literal, 4 quantifier, 5 bound variable, 6 bv literal
	N    *big.Int
	// quantifiers
	Vars []*Term
	Pats [][]*Term
	size int
	str  string
}

const (
	KApp = iota
	KSym
	KInt
	KBool
	KQuant
	KBound
	KBV
)

var (
	True  = &Term{Op: "true", Sort: SBool, Kind: KBool}
	False = &Term{Op: "false", Sort: SBool, Kind: KBool}
)

func Num(n int64) *Term { return NumB(big.NewInt(n)) }
func NumB(n *big.Int) *Term {
	return &Term{Op: n.String(), Sort: SInt, Kind: KInt, N: n}
}
func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Sym(name string, s Sort) *Term { return &Term{Op: name, Sort: s, Kind: KSym} }
func Bound(name string, s Sort) *Term {
	return &Term{Op: name, Sort: s, Kind: KBound}
}
func BVLit(n *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v := new(big.Int).Mod(n, m)
	return &Term{Op: fmt.Sprintf("(_ bv%s %d)", v.String(), w), Sort: bvSort(w), Kind: KBV, N: v}
}
func bvSort(w int) Sort { return fmt.Sprintf("(_ BitVec %d)", w) }
func isBV(s Sort) bool  { return strings.HasPrefix(s, "(_ BitVec ") }
func bvWidth(s Sort) int {
	w := 0
	fmt.Sscanf(s, "(_ BitVec %d)", &w)
	return w
}

func (t *Term) isNum() bool { return t.Kind == KInt }

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Kind != b.Kind || a.Op != b.Op || len(a.Args) != len(b.Args) || a.Sort != b.Sort {
		return false
	}
	if a.Kind == KQuant {
		return a.String() == b.String()
	}
	for i := range a.Args {
		if !same(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

func App(op string, s Sort, args ...*Term) *Term {
	return &Term{Op: op, Args: args, Sort: s, Kind: KApp}
}

func Not(a *Term) *Term {
	switch {
	case a == True || a.Kind == KBool && a.Op == "true":
		return False
	case a.Kind == KBool:
		return True
	case a.Op == "not" && a.Kind == KApp:
		return a.Args[0]
	}
	return App("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.Kind == KBool {
			if a.Op == "false" {
				return False
			}
			continue
		}
		if a.Kind == KApp && a.Op == "and" {
			out = append(out, a.Args...)
			continue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.Kind == KBool {
			if a.Op == "true" {
				return True
			}
			continue
		}
		if a.Kind == KApp && a.Op == "or" {
			out = append(out, a.Args...)
			continue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("or", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a.Kind == KBool {
		if a.Op == "true" {
			return b
		}
		return True
	}
	if b.Kind == KBool && b.Op == "true" {
		return True
	}
	if b.Kind == KBool {
		return Not(a)
	}
	return App("=>", SBool, a, b)
}

func Eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if same(a, b) {
		return True
	}
	if a.Kind == KInt && b.Kind == KInt || a.Kind == KBV && b.Kind == KBV {
		return BoolT(a.N.Cmp(b.N) == 0)
	}
	if a.Sort == SBool {
		if a.Kind == KBool {
			if a.Op == "true" {
				return b
			}
			return Not(b)
		}
		if b.Kind == KBool {
			if b.Op == "true" {
				return a
			}
			return Not(a)
		}
	}
	return App("=", SBool, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if c.Kind == KBool {
		if c.Op == "true" {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.Sort == SBool {
		if a.Kind == KBool && b.Kind == KBool {
			if a.Op == "true" {
				return c
			}
			return Not(c)
		}
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Ite sort mismatch: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	return App("ite", a.Sort, c, a, b)
}

// linear normal form helpers: flatten sums with constants
func Add(a, b *Term) *Term {
	if a.isNum() && b.isNum() {
		return NumB(new(big.Int).Add(a.N, b.N))
	}
	if a.isNum() && a.N.Sign() == 0 {
		return b
	}
	if b.isNum() && b.N.Sign() == 0 {
		return a
	}
	if a.isNum() {
		a, b = b, a
	}
	// (x + c1) + c2
	if b.isNum() && a.Kind == KApp && a.Op == "+" && len(a.Args) == 2 && a.Args[1].isNum() {
		return Add(a.Args[0], NumB(new(big.Int).Add(a.Args[1].N, b.N)))
	}
	if b.isNum() && a.Kind == KApp && a.Op == "-" && len(a.Args) == 2 && a.Args[1].isNum() {
		return Add(a.Args[0], NumB(new(big.Int).Sub(b.N, a.Args[1].N)))
	}
	return App("+", SInt, a, b)
}
func Sub(a, b *Term) *Term {
	if b.isNum() {
		return Add(a, NumB(new(big.Int).Neg(b.N)))
	}
	if same(a, b) {
		return Num(0)
	}
	if a.Kind == KApp && a.Op == "+" && len(a.Args) == 2 {
		if same(a.Args[0], b) {
			return a.Args[1]
		}
		if same(a.Args[1], b) {
			return a.Args[0]
		}
	}
	return App("-", SInt, a, b)
}
func Neg(a *Term) *Term {
	if a.isNum() {
		return NumB(new(big.Int).Neg(a.N))
	}
	return App("-", SInt, a)
}
func Mul(a, b *Term) *Term {
	if a.isNum() && b.isNum() {
		return NumB(new(big.Int).Mul(a.N, b.N))
	}
	if a.isNum() {
		a, b = b, a
	}
	if b.isNum() {
		if b.N.Sign() == 0 {
			return Num(0)
		}
		if b.N.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return App("*", SInt, a, b)
}
func cmp(op string, a, b *Term) *Term {
	if a.isNum() && b.isNum() {
		c := a.N.Cmp(b.N)
		switch op {
		case "<":
			return BoolT(c < 0)
		case "<=":
			return BoolT(c <= 0)
		case ">":
			return BoolT(c > 0)
		case ">=":
			return BoolT(c >= 0)
		}
	}
	if same(a, b) {
		return BoolT(op == "<=" || op == ">=")
	}
	return App(op, SBool, a, b)
}
func Lt(a, b *Term) *Term { return cmp("<", a, b) }
func Le(a, b *Term) *Term { return cmp("<=", a, b) }
func Gt(a, b *Term) *Term { return cmp(">", a, b) }
func Ge(a, b *Term) *Term { return cmp(">=", a, b) }

// Euclidean div / mod (SMT-LIB)
func Div(a, b *Term) *Term {
	if a.isNum() && b.isNum() && b.N.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.N, b.N, new(big.Int))
		return NumB(q)
	}
	if b.isNum() && b.N.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return App("div", SInt, a, b)
}
func Mod(a, b *Term) *Term {
	if a.isNum() && b.isNum() && b.N.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.N, b.N, new(big.Int))
		return NumB(m)
	}
	// (x mod m) mod n
	if a.Kind == KApp && a.Op == "mod" && a.Args[1].isNum() && b.isNum() && a.Args[1].N.Sign() > 0 && b.N.Sign() > 0 {
		m := a.Args[1].N
		switch {
		case m.Cmp(b.N) <= 0:
			return a
		case new(big.Int).Mod(m, b.N).Sign() == 0:
			return Mod(a.Args[0], b)
		}
	}
	return App("mod", SInt, a, b)
}

func distinctNum(a, b *Term) bool {
	if a.isNum() && b.isNum() {
		return a.N.Cmp(b.N) != 0
	}
	// x + c1 vs x + c2
	ba, ca := splitOff(a)
	bb, cb := splitOff(b)
	if ba != nil && bb != nil && same(ba, bb) {
		return ca.Cmp(cb) != 0
	}
	return false
}
func splitOff(a *Term) (*Term, *big.Int) {
	if a.Kind == KApp && a.Op == "+" && len(a.Args) == 2 && a.Args[1].isNum() {
		return a.Args[0], a.Args[1].N
	}
	return a, big.NewInt(0)
}

func Select(a, i *Term) *Term {
	_, v, ok := splitArr(a.Sort)
	if !ok {
		panic("select on " + a.Sort + " " + a.String())
	}
	for a.Kind == KApp && a.Op == "store" {
		if same(a.Args[1], i) {
			return a.Args[2]
		}
		if distinctNum(a.Args[1], i) {
			a = a.Args[0]
			continue
		}
		break
	}
	return App("select", v, a, i)
}
func Store(a, i, v *Term) *Term {
	_, vs, ok := splitArr(a.Sort)
	if !ok || vs != v.Sort {
		panic("store sort mismatch " + a.Sort + " value " + v.Sort + " " + v.String())
	}
	if a.Kind == KApp && a.Op == "store" && same(a.Args[1], i) {
		return Store(a.Args[0], i, v)
	}
	return App("store", a.Sort, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term {
	return &Term{Op: "(as const " + s + ")", Args: []*Term{v}, Sort: s, Kind: KApp}
}

func Forall(vars []*Term, pats [][]*Term, body *Term) *Term {
	if body.Kind == KBool {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	pats = usablePats(vars, pats)
	vars, pats, body = absIndex(vars, pats, body)
	return &Term{Op: "forall", Kind: KQuant, Sort: SBool, Vars: vars, Pats: pats, Args: []*Term{body}}
}

// usablePats drops patterns that simplification has made meaningless (a literal, or one that
// no longer mentions every variable).
func usablePats(vars []*Term, pats [][]*Term) [][]*Term {
	var out [][]*Term
	for _, p := range pats {
		seen := map[string]bool{}
		ok := true
		for _, t := range p {
			n := len(seen)
			t.visit(func(x *Term) {
				if x.Kind == KBound {
					seen[x.Op] = true
				}
			})
			ok = ok && t.Kind == KApp && (len(seen) > n || len(p) > 1)
		}
		for _, v := range vars {
			ok = ok && seen[v.Op]
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

// absIndex restates a quantifier over slice indices as one over array positions: where a
// pattern reads A[off + i], i becomes k - off, so that the pattern is A[k] and matches a
// position however it is written (A[off] for the index 0, say).
func absIndex(vars []*Term, pats [][]*Term, body *Term) ([]*Term, [][]*Term, *Term) {
	mine := map[string]bool{}
	for _, v := range vars {
		mine[v.Op] = true
	}
	free := func(t *Term) bool {
		ok := true
		t.visit(func(x *Term) {
			if x.Kind == KBound && mine[x.Op] {
				ok = false
			}
		})
		return ok
	}
	m := map[string]*Term{}
	var find func(t *Term)
	find = func(t *Term) {
		if t.Kind == KQuant {
			return
		}
		if t.Kind == KApp && t.Op == "select" && len(t.Args) == 2 && t.Args[1].Kind == KApp && t.Args[1].Op == "+" && len(t.Args[1].Args) == 2 {
			a, b := t.Args[1].Args[0], t.Args[1].Args[1]
			if a.Kind == KBound && mine[a.Op] {
				a, b = b, a
			}
			if b.Kind == KBound && mine[b.Op] && m[b.Op] == nil && free(a) {
				m[b.Op] = Sub(Bound(b.Op+"k", b.Sort), a)
			}
		}
		for _, a := range t.Args {
			find(a)
		}
	}
	for _, p := range pats {
		for _, t := range p {
			find(t)
		}
	}
	if len(m) == 0 {
		return vars, pats, body
	}
	var vs []*Term
	for _, v := range vars {
		if m[v.Op] != nil {
			v = Bound(v.Op+"k", v.Sort)
		}
		vs = append(vs, v)
	}
	var ps [][]*Term
	for _, p := range pats {
		var q []*Term
		for _, t := range p {
			q = append(q, t.resub(m))
		}
		ps = append(ps, q)
	}
	return vs, ps, body.resub(m)
}

// resub is subst, with off + (k - off) written k.
func (t *Term) resub(m map[string]*Term) *Term {
	r := t.subst(m)
	if r == t {
		return t
	}
	return r.unshift()
}
func (t *Term) unshift() *Term {
	if t.Kind != KApp && t.Kind != KQuant {
		return t
	}
	n := *t
	n.Args = make([]*Term, len(t.Args))
	for i, a := range t.Args {
		n.Args[i] = a.unshift()
	}
	if len(t.Pats) > 0 {
		n.Pats = nil
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, x.unshift())
			}
			n.Pats = append(n.Pats, q)
		}
	}
	if n.Kind == KApp && n.Op == "+" && len(n.Args) == 2 {
		for i := 0; i < 2; i++ {
			a, b := n.Args[i], n.Args[1-i]
			if b.Kind == KApp && b.Op == "-" && len(b.Args) == 2 && same(a, b.Args[1]) {
				return b.Args[0]
			}
		}
	}
	return &n
}
func Exists(vars []*Term, pats [][]*Term, body *Term) *Term {
	if body.Kind == KBool {
		return body
	}
	return &Term{Op: "exists", Kind: KQuant, Sort: SBool, Vars: vars, Pats: pats, Args: []*Term{body}}
}

func quoteSym(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("~!@$%^&*_-+=<>.?/", c) >= 0) {
			return "|" + s + "|"
		}
	}
	return s
}

func (t *Term) String() string {
	if t.str != "" {
		return t.str
	}
	var b strings.Builder
	t.write(&b)
	s := b.String()
	if len(s) < 4096 {
		t.str = s
	}
	return s
}

func (t *Term) write(b *strings.Builder) {
	if t.str != "" {
		b.WriteString(t.str)
		return
	}
	switch t.Kind {
	case KSym, KBound:
		b.WriteString(quoteSym(t.Op))
	case KInt:
		if t.N.Sign() < 0 {
			b.WriteString("(- " + new(big.Int).Neg(t.N).String() + ")")
		} else {
			b.WriteString(t.Op)
		}
	case KBool, KBV:
		b.WriteString(t.Op)
	case KQuant:
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			b.WriteString("(" + quoteSym(v.Op) + " " + v.Sort + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		t.Args[0].write(b)
		for _, p := range t.Pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				x.write(b)
			}
			b.WriteString(")")
		}
		if len(t.Pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
	default:
		if len(t.Args) == 0 {
			b.WriteString(opName(t.Op))
			return
		}
		b.WriteString("(" + opName(t.Op))
		for _, a := range t.Args {
			b.WriteByte(' ')
			a.write(b)
		}
		b.WriteByte(')')
	}
}

func opName(op string) string {
	if strings.HasPrefix(op, "(") {
		return op
	}
	return quoteSym(op)
}

// free symbols (constants) and function applications
func (t *Term) visit(f func(*Term)) {
	f(t)
	for _, a := range t.Args {
		a.visit(f)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			x.visit(f)
		}
	}
}

// subst replaces bound variables by name.
func (t *Term) subst(m map[string]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	switch t.Kind {
	case KBound:
		if r, ok := m[t.Op]; ok {
			return r
		}
		return t
	case KSym, KInt, KBool, KBV:
		return t
	}
	ch := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = a.subst(m)
		if args[i] != a {
			ch = true
		}
	}
	var pats [][]*Term
	for _, p := range t.Pats {
		var q []*Term
		for _, x := range p {
			y := x.subst(m)
			if y != x {
				ch = true
			}
			q = append(q, y)
		}
		pats = append(pats, q)
	}
	if !ch {
		return t
	}
	return &Term{Op: t.Op, Args: args, Sort: t.Sort, Kind: t.Kind, N: t.N, Vars: t.Vars, Pats: pats}
}

// hasBound reports whether t mentions a bound variable (of an enclosing quantifier).
func (t *Term) hasBound() bool {
	if t.Kind == KBound {
		return true
	}
	for _, a := range t.Args {
		if a.hasBound() {
			return true
		}
	}
	return false
}
