package main

// The contract language: lexer, expression parser and file parser.

import (
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Tok struct {
	K    byte // 'i' ident, 'n' number, 's' string, 'o' operator, 0 eof
	S    string
	Line int
}

type Lexer struct {
	file string
	toks []Tok
	p    int
}

func lexFile(file, src string) (*Lexer, error) {
	lx := &Lexer{file: file}
	i, line := 0, 1
	isL := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$'
	}
	isD := func(c byte) bool { return c >= '0' && c <= '9' }
	ops := []string{"<==>", "==>", "::", ":=", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "..."}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case isL(c):
			j := i
			for j < len(src) && (isL(src[j]) || isD(src[j]) || src[j] == '\'') {
				j++
			}
			lx.toks = append(lx.toks, Tok{'i', src[i:j], line})
			i = j
		case isD(c):
			j := i
			for j < len(src) && (isL(src[j]) || isD(src[j])) {
				j++
			}
			lx.toks = append(lx.toks, Tok{'n', src[i:j], line})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			text, err := strconv.Unquote(src[i:min(j+1, len(src))])
			if err != nil {
				text = src[i+1 : j]
			}
			lx.toks = append(lx.toks, Tok{'s', text, line})
			i = j + 1
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					lx.toks = append(lx.toks, Tok{'o', o, line})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				lx.toks = append(lx.toks, Tok{'o', string(c), line})
				i++
			}
		}
	}
	return lx, nil
}

type specErr struct{ msg string }

func (lx *Lexer) peek() Tok {
	if lx.p < len(lx.toks) {
		return lx.toks[lx.p]
	}
	return Tok{}
}
func (lx *Lexer) peekAt(k int) Tok {
	if lx.p+k < len(lx.toks) {
		return lx.toks[lx.p+k]
	}
	return Tok{}
}
func (lx *Lexer) next() Tok { t := lx.peek(); lx.p++; return t }
func (lx *Lexer) fail(f string, a ...any) {
	t := lx.peek()
	panic(specErr{fmt.Sprintf("%s:%d near %q: ", lx.file, t.Line, t.S) + fmt.Sprintf(f, a...)})
}
func (lx *Lexer) isOp(s string) bool { t := lx.peek(); return t.K == 'o' && t.S == s }
func (lx *Lexer) isId(s string) bool { t := lx.peek(); return t.K == 'i' && t.S == s }
func (lx *Lexer) expect(s string) Tok {
	t := lx.next()
	if t.S != s || t.K == 's' {
		lx.p--
		lx.fail("expected %q", s)
	}
	return t
}
func (lx *Lexer) accept(s string) bool {
	t := lx.peek()
	if t.S == s && (t.K == 'o' || t.K == 'i') {
		lx.p++
		return true
	}
	return false
}
func (lx *Lexer) ident() string {
	t := lx.next()
	if t.K != 'i' {
		lx.p--
		lx.fail("identifier expected")
	}
	return t.S
}

// ---- expressions

type STy struct {
	K        string // int bool ref str ptr arr named bv
	Name     string // ptr/named
	Key, Val *STy
	W        int
}

type QVar struct {
	Name string
	T    *STy
}

type Expr struct {
	K    string // num bool str id call field index slice un bin quant let ite old
	Op   string
	Name string
	N    *big.Int
	Args []*Expr
	Vars []QVar
	Pats [][]*Expr
	Pos  string
}

func (lx *Lexer) sty() *STy {
	if lx.accept("*") {
		n := lx.ident()
		for lx.accept(".") {
			n += "." + lx.ident()
		}
		return &STy{K: "ptr", Name: n}
	}
	if lx.accept("[") {
		k := lx.sty()
		lx.expect("]")
		return &STy{K: "arr", Key: k, Val: lx.sty()}
	}
	n := lx.ident()
	switch n {
	case "int", "bool", "ref", "str":
		return &STy{K: n}
	}
	if strings.HasPrefix(n, "bv") {
		w := 0
		fmt.Sscanf(n, "bv%d", &w)
		if w > 0 {
			return &STy{K: "bv", W: w}
		}
	}
	for lx.accept(".") {
		n += "." + lx.ident()
	}
	return &STy{K: "named", Name: n}
}

func (t *STy) sort() Sort {
	switch t.K {
	case "int", "ref", "ptr":
		return SInt
	case "bool":
		return SBool
	case "str":
		return SStr
	case "bv":
		return bvSort(t.W)
	case "arr":
		return arrSort(t.Key.sort(), t.Val.sort())
	}
	return t.Name // user-declared sort
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "|": 6, "^": 6, "*": 7, "/": 7, "%": 7, "&": 7, "<<": 7, ">>": 7}

func (lx *Lexer) mk(k string) *Expr {
	return &Expr{K: k, Pos: fmt.Sprintf("%s:%d", lx.file, lx.peek().Line)}
}

func (lx *Lexer) expr() *Expr { return lx.exprP(1) }

func (lx *Lexer) exprP(min int) *Expr {
	l := lx.unary()
	for {
		t := lx.peek()
		p, ok := binPrec[t.S]
		if t.K != 'o' || !ok || p < min {
			return l
		}
		lx.next()
		if p == 5 { // chainable comparison
			r := lx.exprP(6)
			e := &Expr{K: "bin", Op: t.S, Args: []*Expr{l, r}, Pos: l.Pos}
			last := r
			for {
				t2 := lx.peek()
				if t2.K == 'o' && binPrec[t2.S] == 5 {
					lx.next()
					r2 := lx.exprP(6)
					e2 := &Expr{K: "bin", Op: t2.S, Args: []*Expr{last, r2}, Pos: l.Pos}
					e = &Expr{K: "bin", Op: "&&", Args: []*Expr{e, e2}, Pos: l.Pos}
					last = r2
				} else {
					break
				}
			}
			l = e
			continue
		}
		var r *Expr
		if t.S == "==>" {
			r = lx.exprP(p)
		} else {
			r = lx.exprP(p + 1)
		}
		l = &Expr{K: "bin", Op: t.S, Args: []*Expr{l, r}, Pos: l.Pos}
	}
}

func (lx *Lexer) unary() *Expr {
	e := lx.mk("un")
	if lx.accept("!") {
		e.Op = "!"
		e.Args = []*Expr{lx.unary()}
		return e
	}
	if lx.accept("-") {
		e.Op = "-"
		e.Args = []*Expr{lx.unary()}
		return e
	}
	return lx.postfix()
}

func (lx *Lexer) postfix() *Expr {
	l := lx.primary()
	for {
		switch {
		case lx.isOp("."):
			e := lx.mk("field")
			lx.next()
			t := lx.next()
			if t.K != 'i' && t.K != 'n' {
				lx.fail("field name expected")
			}
			e.Name = t.S
			e.Args = []*Expr{l}
			l = e
		case lx.isOp("["):
			e := lx.mk("index")
			lx.next()
			if lx.accept(":") {
				e.K = "slice"
				hi := lx.expr()
				e.Args = []*Expr{l, nil, hi}
				lx.expect("]")
				l = e
				continue
			}
			if lx.accept("*") {
				e.K = "slice"
				e.Args = []*Expr{l, nil, nil}
				lx.expect("]")
				l = e
				continue
			}
			i := lx.expr()
			if lx.accept(":=") { // array update a[i := v]
				e.K = "update"
				v := lx.expr()
				e.Args = []*Expr{l, i, v}
				lx.expect("]")
				l = e
				continue
			}
			if lx.accept(":") {
				e.K = "slice"
				var hi *Expr
				if !lx.isOp("]") {
					hi = lx.expr()
				}
				e.Args = []*Expr{l, i, hi}
				lx.expect("]")
				l = e
				continue
			}
			e.Args = []*Expr{l, i}
			lx.expect("]")
			l = e
		case lx.isOp("(") && l.K == "id":
			e := lx.mk("call")
			lx.next()
			e.Name = l.Name
			for !lx.isOp(")") {
				e.Args = append(e.Args, lx.expr())
				if !lx.accept(",") {
					break
				}
			}
			lx.expect(")")
			if e.Name == "old" {
				e.K = "old"
			}
			if e.Name == "ite" {
				e.K = "ite"
			}
			l = e
		default:
			return l
		}
	}
}

func (lx *Lexer) qvars() []QVar {
	var vs []QVar
	for {
		names := []string{lx.ident()}
		for lx.accept(",") {
			names = append(names, lx.ident())
		}
		t := lx.sty()
		for _, m := range names {
			vs = append(vs, QVar{m, t})
		}
		if !lx.accept(",") {
			return vs
		}
	}
}

func (lx *Lexer) primary() *Expr {
	t := lx.peek()
	switch {
	case t.K == 'n':
		e := lx.mk("num")
		lx.next()
		n, ok := new(big.Int).SetString(strings.ReplaceAll(t.S, "_", ""), 0)
		if !ok {
			lx.fail("bad number")
		}
		e.N = n
		return e
	case t.K == 's':
		e := lx.mk("str")
		lx.next()
		e.Name = t.S
		return e
	case t.S == "(":
		lx.next()
		e := lx.expr()
		lx.expect(")")
		return e
	case t.K == 'i' && (t.S == "forall" || t.S == "exists"):
		e := lx.mk("quant")
		lx.next()
		e.Op = t.S
		e.Vars = lx.qvars()
		for lx.accept("{") {
			var pat []*Expr
			for {
				pat = append(pat, lx.expr())
				if !lx.accept(",") {
					break
				}
			}
			lx.expect("}")
			e.Pats = append(e.Pats, pat)
		}
		lx.expect("::")
		e.Args = []*Expr{lx.expr()}
		return e
	case t.K == 'i' && t.S == "let":
		e := lx.mk("let")
		lx.next()
		e.Name = lx.ident()
		lx.expect(":=")
		v := lx.expr()
		lx.expect("::")
		e.Args = []*Expr{v, lx.expr()}
		return e
	case t.K == 'i' && t.S == "mapof": // mapof n T :: expr  (array comprehension)
		e := lx.mk("mapof")
		lx.next()
		e.Vars = lx.qvars()
		lx.expect("::")
		e.Args = []*Expr{lx.expr()}
		return e
	case t.K == 'i' && (t.S == "true" || t.S == "false"):
		e := lx.mk("bool")
		lx.next()
		e.Name = t.S
		return e
	case t.K == 'i':
		e := lx.mk("id")
		lx.next()
		e.Name = t.S
		return e
	}
	lx.fail("expression expected")
	return nil
}

// ---- contract files

type Clause struct {
	Label string
	E     *Expr
}
type ModClause struct {
	E     *Expr // field/index/slice expression or id (ghost var)
	Vars  []QVar
	Where *Expr
	Fresh string // fresh T
}
type GhostAssign struct {
	LHS, RHS *Expr
	Cond     *Expr
}
type LoopSpec struct {
	SplitVar string
	Split    []*big.Int
	Inv      []Clause
	Dec      []*Expr
	Hints    []Clause // proved at the end of the body before the invariants
	Ghost    []GhostAssign
	Init     []GhostAssign // ghost assignments made when the loop is entered
	Modifies []ModClause
	Locals   [][2]string // of an alternative: locals it names that the original code does not have, with their types
}
type Contract struct {
	Alts          map[int][]*LoopSpec // other invariants to try when a loop was rewritten
	File          string
	Line          int
	Pkg, Key      string
	Recv          string
	Params        []string
	Results       []string
	Props         []string
	Requires      []Clause
	Ensures       []Clause
	Panics        []Clause // panics exactly when
	MayPanic      bool
	Modifies      []ModClause
	HasModifies   bool
	Loops         map[int]*LoopSpec
	Uses          []string
	ExitGhost     []GhostAssign
	EntryGhost    []GhostAssign
	ExitHints     []Clause
	EntryHints    []Clause
	Flags         map[string]bool
	Extern, Iface bool
	Lets          []GhostAssign
	Decreases     []*Expr
	Opts          map[string]string
	MayPanicIf    []Clause
	Region        string
	RegionArg     *Expr
	Guarantee     []Clause
	Rely          []Clause
}

type RegionLoc struct {
	E     *Expr
	Steps []GhostAssign
}
type Region struct {
	Name, Pkg, Param, Type string
	Locs                   []*RegionLoc
	Env                    []string
	Rely, Bound, Inv       []Clause
}
type Lemma struct {
	Name     string
	Vars     []QVar
	Requires []Clause
	Ensures  []Clause
	Pats     [][]*Expr
	Induct   string
	IHArgs   [][]*Expr
	Uses     []string
	Axiom    bool
	Hints    []Clause
	File     string
	Reason   string
	Flags    map[string]bool
	Cases    []*Expr
	Pkg      string
}
type Def struct {
	Name   string
	Params []string
	Body   *Expr
}
type FunDecl struct {
	Name string
	Args []Sort
	Res  Sort
}
type GhostField struct {
	Type, Name string
	T          *STy
}
type Spec struct {
	Picked     map[*ssa.Function]int // the renaming of locals under which an adapted function was proved
	Pkg        string
	Contracts  map[string]*Contract // pkg + " " + key
	Order      []string
	Lemmas     map[string]*Lemma
	LemmaOrd   []string
	Defs       map[string]*Def
	Funs       map[string]*FunDecl
	GFields    []GhostField
	GVars      map[string]*STy
	Regions    map[string]*Region
	Sorts      []string
	Aliases    map[string]string // package alias -> path
	Files      []string
	PkgLoads   map[string]bool
	Checks     []*TableCheck
	GlobalInvs []GlobalInv
	Prop       string // the property being decided
	Base       *Baseline
}

// TableCheck: a closed fact evaluated directly on data in the source (e.g. the prime table).
type TableCheck struct {
	Name, Kind, Arg string
	Props           []string
	Pkg             string
	Gives           *Expr // what functions may assume about the variable
}

func NewSpec() *Spec {
	return &Spec{Contracts: map[string]*Contract{}, Lemmas: map[string]*Lemma{}, Defs: map[string]*Def{}, Funs: map[string]*FunDecl{}, GVars: map[string]*STy{}, Aliases: map[string]string{}, PkgLoads: map[string]bool{}, Regions: map[string]*Region{}}
}

func (sp *Spec) ParseFile(file string) (err error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", se.msg)
				return
			}
			panic(r)
		}
	}()
	short := file
	if i := strings.LastIndexByte(file, '/'); i >= 0 {
		short = file[i+1:]
	}
	lx, err := lexFile(short, string(src))
	if err != nil {
		return err
	}
	sp.Files = append(sp.Files, file)
	pkg := ""
	for lx.peek().K != 0 {
		kw := lx.ident()
		switch kw {
		case "package":
			t := lx.next()
			pkg = t.S
			if !strings.Contains(pkg, "/") || strings.HasPrefix(pkg, "./") {
				pkg = modPath + "/" + strings.TrimPrefix(pkg, "./")
			} else if !strings.HasPrefix(pkg, modPath) {
				pkg = modPath + "/" + pkg
			}
			sp.PkgLoads[pkg] = true
		case "import":
			a := lx.ident()
			t := lx.next()
			sp.Aliases[a] = t.S
		case "sort":
			sp.Sorts = append(sp.Sorts, lx.ident())
		case "ghost":
			switch lx.ident() {
			case "field":
				tn := lx.ident()
				lx.expect(".")
				fn := lx.ident()
				sp.GFields = append(sp.GFields, GhostField{pkg + "." + tn, fn, lx.sty()})
			case "var":
				n := lx.ident()
				sp.GVars[n] = lx.sty()
			default:
				lx.fail("ghost field|var")
			}
		case "region":
			r := &Region{Name: lx.ident(), Pkg: pkg}
			lx.expect("(")
			r.Param = lx.ident()
			r.Type = lx.ident()
			lx.expect(")")
			lx.expect("{")
			for !lx.accept("}") {
				switch k := lx.ident(); k {
				case "loc":
					l := &RegionLoc{E: lx.postfix()}
					lx.expect("{")
					for !lx.accept("}") {
						if lx.ident() != "step" {
							lx.p--
							lx.fail("step")
						}
						l.Steps = append(l.Steps, lx.ghostAssign())
					}
					r.Locs = append(r.Locs, l)
				case "env":
					r.Env = append(r.Env, lx.idlist()...)
				case "rely":
					r.Rely = append(r.Rely, lx.clause())
				case "bound":
					r.Bound = append(r.Bound, lx.clause())
				case "invariant":
					r.Inv = append(r.Inv, lx.clause())
				default:
					lx.p--
					lx.fail("region clause")
				}
			}
			sp.Regions[r.Name] = r
		case "def":
			d := &Def{Name: lx.ident()}
			lx.expect("(")
			for !lx.isOp(")") {
				d.Params = append(d.Params, lx.ident())
				if !lx.accept(",") {
					break
				}
			}
			lx.expect(")")
			lx.expect(":=")
			d.Body = lx.expr()
			sp.Defs[d.Name] = d
		case "fun":
			f := &FunDecl{Name: lx.ident()}
			lx.expect("(")
			for !lx.isOp(")") {
				f.Args = append(f.Args, lx.sty().sort())
				if !lx.accept(",") {
					break
				}
			}
			lx.expect(")")
			f.Res = lx.sty().sort()
			sp.Funs[f.Name] = f
		case "axiom", "lemma":
			l := &Lemma{Axiom: kw == "axiom", File: short, Flags: map[string]bool{}, Pkg: pkg}
			l.Name = lx.ident()
			lx.expect("(")
			if !lx.isOp(")") {
				l.Vars = lx.qvars()
			}
			lx.expect(")")
			lx.expect("{")
			for !lx.accept("}") {
				switch k := lx.ident(); k {
				case "requires":
					l.Requires = append(l.Requires, lx.clause())
				case "ensures":
					l.Ensures = append(l.Ensures, lx.clause())
				case "trigger":
					lx.expect("{")
					var pat []*Expr
					for {
						pat = append(pat, lx.expr())
						if !lx.accept(",") {
							break
						}
					}
					lx.expect("}")
					l.Pats = append(l.Pats, pat)
				case "induct":
					l.Induct = lx.ident()
				case "ih":
					lx.expect("(")
					var as []*Expr
					for !lx.isOp(")") {
						as = append(as, lx.expr())
						if !lx.accept(",") {
							break
						}
					}
					lx.expect(")")
					l.IHArgs = append(l.IHArgs, as)
				case "uses":
					l.Uses = append(l.Uses, lx.idlist()...)
				case "hint":
					l.Hints = append(l.Hints, lx.clause())
				case "apply":
					l.Hints = append(l.Hints, lx.apply())
				case "cases":
					l.Cases = append(l.Cases, lx.expr())
				case "reason":
					l.Reason = lx.next().S
				case "flag":
					l.Flags[lx.ident()] = true
				default:
					lx.p--
					lx.fail("lemma clause")
				}
			}
			if sp.Lemmas[l.Name] != nil {
				lx.fail("duplicate lemma %s", l.Name)
			}
			sp.Lemmas[l.Name] = l
			sp.LemmaOrd = append(sp.LemmaOrd, l.Name)
		case "globalinv":
			cl := lx.clause()
			sp.GlobalInvs = append(sp.GlobalInvs, GlobalInv{pkg, cl.Label, cl.E})
		case "check":
			c := &TableCheck{Name: lx.ident(), Kind: lx.ident(), Pkg: pkg}
			c.Arg = lx.next().S
			lx.expect("props")
			c.Props = lx.idlist()
			if lx.accept("gives") {
				c.Gives = lx.expr()
			}
			sp.Checks = append(sp.Checks, c)
		case "func", "extern", "iface":
			sp.contract(lx, pkg, kw)
		default:
			lx.p--
			lx.fail("declaration expected")
		}
	}
	return nil
}

func (lx *Lexer) idlist() []string {
	var r []string
	for {
		r = append(r, lx.ident())
		if !lx.accept(",") {
			return r
		}
	}
}

func (lx *Lexer) clause() Clause {
	var c Clause
	if lx.isOp("[") && lx.peekAt(1).K == 'i' && lx.peekAt(2).S == "]" {
		lx.next()
		c.Label = lx.ident()
		lx.expect("]")
	}
	c.E = lx.expr()
	return c
}

// apply L(args): an instance of a lemma proved elsewhere
func (lx *Lexer) apply() Clause {
	pos := fmt.Sprintf("%s:%d", lx.file, lx.peek().Line)
	x := &Expr{K: "apply", Name: lx.ident(), Pos: pos}
	lx.expect("(")
	for !lx.isOp(")") {
		x.Args = append(x.Args, lx.expr())
		if !lx.accept(",") {
			break
		}
	}
	lx.expect(")")
	return Clause{E: x}
}

func applied(cls []Clause) []string {
	var out []string
	for _, c := range cls {
		if c.E.K == "apply" {
			out = append(out, c.E.Name)
		}
	}
	return out
}

func (c *Contract) applied() []string {
	out := append(applied(c.ExitHints), applied(c.EntryHints)...)
	for _, l := range c.Loops {
		out = append(out, applied(l.Hints)...)
	}
	for _, ls := range c.Alts {
		for _, l := range ls {
			out = append(out, applied(l.Hints)...)
		}
	}
	return out
}

func (lx *Lexer) modClauses() []ModClause {
	var out []ModClause
	for {
		var m ModClause
		if lx.isId("nothing") {
			lx.next()
			return out
		}
		if lx.accept("fresh") {
			m.Fresh = lx.ident()
			for lx.accept(".") {
				m.Fresh += "." + lx.ident()
			}
		} else {
			m.E = lx.postfix()
			if lx.accept("for") {
				m.Vars = lx.qvars()
				if lx.accept("where") {
					m.Where = lx.expr()
				}
			}
		}
		out = append(out, m)
		if !lx.accept(",") {
			return out
		}
	}
}

func (lx *Lexer) ghostAssign() GhostAssign {
	var g GhostAssign
	if lx.accept("if") {
		g.Cond = lx.expr()
		lx.expect("then")
	}
	g.LHS = lx.postfix()
	lx.expect(":=")
	g.RHS = lx.expr()
	return g
}

func (sp *Spec) contract(lx *Lexer, pkg, kw string) {
	c := &Contract{File: lx.file, Line: lx.peek().Line, Pkg: pkg, Loops: map[int]*LoopSpec{}, Flags: map[string]bool{}, Opts: map[string]string{}, Extern: kw == "extern", Iface: kw == "iface"}
	if lx.accept("(") {
		c.Recv = lx.ident()
		lx.accept("*")
		tn := lx.ident()
		if lx.accept(".") {
			c.Pkg = tn
			tn = lx.ident()
		}
		lx.expect(")")
		c.Key = tn + "." + lx.ident()
	} else {
		n := lx.ident()
		if lx.accept(".") {
			n2 := lx.ident()
			if lx.accept(".") {
				c.Pkg, c.Key = n, n2+"."+lx.ident()
			} else if kw == "iface" {
				c.Key = n + "." + n2
			} else {
				c.Pkg, c.Key = n, n2
			}
		} else {
			c.Key = n
		}
	}
	if c.Pkg != pkg {
		if a, ok := sp.Aliases[c.Pkg]; ok {
			c.Pkg = a
		}
	}
	lx.expect("(")
	for !lx.isOp(")") {
		c.Params = append(c.Params, lx.ident())
		if !lx.accept(",") {
			break
		}
	}
	lx.expect(")")
	if lx.accept("(") {
		for !lx.isOp(")") {
			c.Results = append(c.Results, lx.ident())
			if !lx.accept(",") {
				break
			}
		}
		lx.expect(")")
	}
	lx.expect("{")
	for !lx.accept("}") {
		switch k := lx.ident(); k {
		case "prop":
			c.Props = append(c.Props, lx.idlist()...)
		case "requires":
			c.Requires = append(c.Requires, lx.clause())
		case "ensures":
			c.Ensures = append(c.Ensures, lx.clause())
		case "panics":
			c.Panics = append(c.Panics, lx.clause())
		case "maypanic":
			if lx.peek().S == "if" {
				lx.next()
				c.MayPanicIf = append(c.MayPanicIf, lx.clause())
			} else {
				c.MayPanic = true
			}
		case "region":
			c.Region = lx.ident()
			lx.expect("(")
			c.RegionArg = lx.expr()
			lx.expect(")")
		case "rely":
			c.Rely = append(c.Rely, lx.clause())
		case "guarantee":
			c.Guarantee = append(c.Guarantee, lx.clause())
		case "modifies":
			c.HasModifies = true
			c.Modifies = append(c.Modifies, lx.modClauses()...)
		case "uses":
			c.Uses = append(c.Uses, lx.idlist()...)
		case "decreases":
			c.Decreases = append(c.Decreases, lx.expr())
		case "exitghost":
			c.ExitGhost = append(c.ExitGhost, lx.ghostAssign())
		case "entryghost":
			c.EntryGhost = append(c.EntryGhost, lx.ghostAssign())
		case "exithint":
			c.ExitHints = append(c.ExitHints, lx.clause())
		case "exitapply":
			c.ExitHints = append(c.ExitHints, lx.apply())
		case "entryapply":
			c.EntryHints = append(c.EntryHints, lx.apply())
		case "entryhint":
			c.EntryHints = append(c.EntryHints, lx.clause())
		case "flag":
			c.Flags[lx.ident()] = true
		case "opt":
			k := lx.ident()
			c.Opts[k] = lx.next().S
		case "loop":
			n := lx.next()
			idx := 0
			fmt.Sscanf(n.S, "%d", &idx)
			l := &LoopSpec{}
			alt := lx.isId("alt")
			if alt {
				lx.next()
			}
			lx.expect("{")
			for !lx.accept("}") {
				switch k := lx.ident(); k {
				case "invariant":
					l.Inv = append(l.Inv, lx.clause())
				case "decreases":
					l.Dec = append(l.Dec, lx.expr())
					for lx.accept(",") {
						l.Dec = append(l.Dec, lx.expr())
					}
				case "split": // split i 0 2 4
					l.SplitVar = lx.ident()
					for lx.peek().K == 'n' {
						n, ok := new(big.Int).SetString(lx.next().S, 0)
						if !ok {
							lx.fail("number")
						}
						l.Split = append(l.Split, n)
					}
				case "hint":
					l.Hints = append(l.Hints, lx.clause())
				case "apply":
					l.Hints = append(l.Hints, lx.apply())
				case "ghost":
					l.Ghost = append(l.Ghost, lx.ghostAssign())
				case "initghost":
					l.Init = append(l.Init, lx.ghostAssign())
				case "modifies":
					l.Modifies = append(l.Modifies, lx.modClauses()...)
				case "locals": // locals i "int", p "*@.Node"
					for {
						n := lx.ident()
						l.Locals = append(l.Locals, [2]string{n, strings.ReplaceAll(lx.next().S, "@", c.Pkg)})
						if !lx.accept(",") {
							break
						}
					}
				default:
					lx.p--
					lx.fail("loop clause")
				}
			}
			if alt {
				if c.Alts == nil {
					c.Alts = map[int][]*LoopSpec{}
				}
				c.Alts[idx] = append(c.Alts[idx], l)
			} else {
				c.Loops[idx] = l
			}
		default:
			lx.p--
			lx.fail("contract clause")
		}
	}
	id := c.Pkg + " " + c.Key
	if sp.Contracts[id] != nil {
		lx.fail("duplicate contract %s", id)
	}
	sp.Contracts[id] = c
	sp.Order = append(sp.Order, id)
}
