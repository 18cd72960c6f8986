package main

// From obligations to SMT-LIB queries, and the solver portfolio that discharges them.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// lemmaTerm: a lemma or axiom as a closed quantified fact.
func (vm *VM) lemmaTerm(l *Lemma) *Term {
	body := clausesExpr(l.Ensures)
	if len(l.Requires) > 0 {
		body = &Expr{K: "bin", Op: "==>", Args: []*Expr{clausesExpr(l.Requires), body}, Pos: l.File}
	}
	st := &State{lits: map[string]bool{}, heap: map[string]*Term{}, cells: map[int]Cell{}, alloc: Num(1)}
	e := &SEnv{vm: vm, st: st, heap: st.heap, alloc: st.alloc, names: map[string]TV{}, pkg: l.Pkg, cells: st.cells}
	if len(l.Vars) == 0 {
		return e.boolE(body)
	}
	return e.boolE(&Expr{K: "quant", Op: "forall", Vars: l.Vars, Pats: l.Pats, Args: []*Expr{body}, Pos: l.File})
}

func clausesExpr(cs []Clause) *Expr {
	if len(cs) == 0 {
		return &Expr{K: "bool", Name: "true"}
	}
	e := cs[0].E
	for _, c := range cs[1:] {
		e = &Expr{K: "bin", Op: "&&", Args: []*Expr{e, c.E}, Pos: c.E.Pos}
	}
	return e
}

type symSet struct {
	consts map[string]Sort
	funs   map[string]bool
	sorts  map[string]bool
}

func (s *symSet) add(vm *VM, t *Term) {
	t.visit(func(x *Term) {
		switch x.Kind {
		case KSym:
			s.consts[x.Op] = x.Sort
			s.sort(x.Sort)
		case KApp:
			if _, ok := vm.funs[x.Op]; ok {
				s.funs[x.Op] = true
			}
		case KQuant:
			for _, v := range x.Vars {
				s.sort(v.Sort)
			}
		}
	})
}
func (s *symSet) sort(x Sort) {
	if k, v, ok := splitArr(x); ok {
		s.sort(k)
		s.sort(v)
		return
	}
	if x != SInt && x != SBool && !isBV(x) {
		s.sorts[x] = true
	}
}

// builtin axioms on the fixed string functions (used only if the symbol occurs)
func (vm *VM) stdAxioms(s *symSet) []*Term {
	var out []*Term
	if s.funs["slen"] {
		b := Bound("s", SStr)
		out = append(out, Forall([]*Term{b}, [][]*Term{{App("slen", SInt, b)}}, And(Le(Num(0), App("slen", SInt, b)), Le(App("slen", SInt, b), vm.maxLen()))))
	}
	if s.funs["sbytes"] {
		b, i := Bound("s", SStr), Bound("i", SInt)
		t := Select(App("sbytes", arrSort(SInt, SInt), b), i)
		out = append(out, Forall([]*Term{b, i}, [][]*Term{{t}}, And(Le(Num(0), t), Le(t, Num(255)))))
		// extensionality through an explicit witness
		if s.funs["streq_wit"] {
			c := Bound("t", SStr)
			w := App("streq_wit", SInt, b, c)
			sb, tb := App("sbytes", arrSort(SInt, SInt), b), App("sbytes", arrSort(SInt, SInt), c)
			lb, lc := App("slen", SInt, b), App("slen", SInt, c)
			out = append(out, Forall([]*Term{b, c}, [][]*Term{{w}}, Or(Eq(b, c), Ne(lb, lc), And(Le(Num(0), w), Lt(w, lb), Ne(Select(sb, w), Select(tb, w))))))
		}
	}
	return out
}

func (o *Obligation) factList() []*Term {
	var fs []*Term
	for n := o.Facts; n != nil; n = n.prev {
		fs = append(fs, n.t)
	}
	for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
		fs[i], fs[j] = fs[j], fs[i]
	}
	return fs
}

// SMT builds the query text for an obligation. level>0 prunes unrelated facts.
func (o *Obligation) SMT(spec *Spec) (string, []string) {
	vm := o.Decls
	facts := o.factList()
	goal := o.Goal
	ss := &symSet{consts: map[string]Sort{}, funs: map[string]bool{}, sorts: map[string]bool{}}
	for _, f := range facts {
		ss.add(vm, f)
	}
	ss.add(vm, goal)
	var extra []*Term
	usedAx := []string{}
	seenLemma := map[string]bool{}
	for _, u := range o.Uses {
		l := spec.Lemmas[u]
		if l == nil {
			panic(specErr{"unknown lemma " + u})
		}
		if seenLemma[u] {
			continue
		}
		seenLemma[u] = true
		t := vm.lemmaTerm(l)
		extra = append(extra, t)
		ss.add(vm, t)
		if l.Axiom {
			usedAx = append(usedAx, u)
		}
	}
	for changed := true; changed; {
		changed = false
		for _, n := range spec.LemmaOrd {
			l := spec.Lemmas[n]
			if !l.Axiom || seenLemma[n] || l.Flags["explicit"] {
				continue
			}
			fs := spec.axiomFuns(l)
			ok := len(fs) > 0
			for _, f := range fs {
				if !ss.funs[f] && ss.consts[f] == "" {
					ok = false
				}
			}
			if !ok {
				continue
			}
			seenLemma[n] = true
			changed = true
			t := vm.lemmaTerm(l)
			extra = append(extra, t)
			ss.add(vm, t)
			usedAx = append(usedAx, n)
		}
	}
	for _, k := range sortedKeys(vm.addrAx) {
		if ss.funs[k] {
			extra = append(extra, vm.addrAx[k])
			ss.add(vm, vm.addrAx[k])
		}
	}
	if len(vm.strs) > 0 {
		need := map[string]bool{}
		for _, t := range vm.strs {
			if ss.consts[t.Op] != "" {
				need[t.Op] = true
			}
		}
		for _, ax := range vm.strAxiomsFor(need) {
			extra = append(extra, ax)
			ss.add(vm, ax)
		}
	}
	for _, ax := range vm.stdAxioms(ss) {
		extra = append(extra, ax)
		ss.add(vm, ax)
	}
	for _, t := range vm.boolAx {
		extra = append(extra, t)
		ss.add(vm, t)
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	for f := range ss.funs {
		fd := vm.funs[f]
		for _, a := range fd.Args {
			ss.sort(a)
		}
		ss.sort(fd.Res)
	}
	for _, s := range sortedKeys(ss.sorts) {
		b.WriteString("(declare-sort " + s + " 0)\n")
	}
	for _, f := range sortedKeys(ss.funs) {
		fd := vm.funs[f]
		if len(fd.Args) == 0 {
			ss.consts[f] = fd.Res
			continue
		}
		b.WriteString("(declare-fun " + quoteSym(f) + " (" + strings.Join(fd.Args, " ") + ") " + fd.Res + ")\n")
	}
	for _, c := range sortedKeys(ss.consts) {
		b.WriteString("(declare-fun " + quoteSym(c) + " () " + ss.consts[c] + ")\n")
	}
	// distinct string literals
	for _, t := range extra {
		b.WriteString("(assert " + t.String() + ")\n")
	}
	for _, t := range facts {
		b.WriteString("(assert " + t.String() + ")\n")
	}
	b.WriteString("(assert " + Not(goal).String() + ")\n")
	b.WriteString("(check-sat)\n")
	return b.String(), usedAx
}

func (vm *VM) strAxiomsFor(need map[string]bool) []*Term {
	save := vm.strs
	sub := map[string]*Term{}
	for k, t := range save {
		if need[t.Op] {
			sub[k] = t
		}
	}
	vm.strs = sub
	out := vm.strAxioms()
	vm.strs = save
	if len(sub) > 1 {
		var ts []*Term
		for _, k := range sortedKeys(sub) {
			ts = append(ts, sub[k])
		}
		out = append(out, App("distinct", SBool, ts...))
	}
	return out
}

// axiomFuns: the declared function symbols of an axiom's triggers (or body).
func (sp *Spec) axiomFuns(l *Lemma) []string {
	set := map[string]bool{}
	var walk func(x *Expr)
	walk = func(x *Expr) {
		if x == nil {
			return
		}
		if x.K == "call" || x.K == "id" {
			if _, ok := sp.Funs[x.Name]; ok {
				set[x.Name] = true
			}
			if d, ok := sp.Defs[x.Name]; ok {
				walk(d.Body)
			}
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	if len(l.Pats) > 0 {
		for _, p := range l.Pats {
			for _, x := range p {
				walk(x)
			}
		}
	} else {
		for _, c := range l.Ensures {
			walk(c.E)
		}
	}
	return sortedKeys(set)
}

// ---- solvers

type solverCfg struct {
	name string
	args func(secs int, seed int) []string
}

var solvers = map[string]solverCfg{
	"z3": {"z3-5.3.2", func(s, seed int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", s), "-smt2", fmt.Sprintf("smt.random_seed=%d", seed), "-in"}
	}},
	"z3em": {"z3-5.3.2/ematching", func(s, seed int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", s), "-smt2", "auto_config=false", "smt.mbqi=false", fmt.Sprintf("smt.random_seed=%d", seed), "-in"}
	}},
	"z3old": {"z3-4.8.12", func(s, seed int) []string {
		return []string{"z3", fmt.Sprintf("-T:%d", s), "-smt2", fmt.Sprintf("smt.random_seed=%d", seed), "-in"}
	}},
	"z3oldem": {"z3-4.8.12/ematching", func(s, seed int) []string {
		return []string{"z3", fmt.Sprintf("-T:%d", s), "-smt2", "auto_config=false", "smt.mbqi=false", fmt.Sprintf("smt.random_seed=%d", seed), "-in"}
	}},
	"cvc5": {"cvc5-1.1.2", func(s, seed int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), fmt.Sprintf("--seed=%d", seed), "-"}
	}},
	"cvc5fmf": {"cvc5-1.1.2/enum", func(s, seed int) []string {
		return []string{"cvc5", "--lang=smt2", "--enum-inst", fmt.Sprintf("--tlimit=%d", s*1000), "-"}
	}},
}

type Runner struct {
	sem     *slots
	seed    int
	quick   int // first-stage timeout
	long    int // second-stage timeout
	mu      sync.Mutex
	secs    map[string]float64
	wins    map[string]int
	ctx     context.Context
	covers  chan struct{}
	reached sync.Map // functions with a reachable exit
	fails   sync.Map // function: number of its obligations that no solver could discharge
}

// slots: solver processes at a time; second-stage queries go first
type slots struct {
	mu   sync.Mutex
	free int
	q    [2][]chan struct{}
}

func (s *slots) get(first bool) {
	s.mu.Lock()
	if s.free > 0 {
		s.free--
		s.mu.Unlock()
		return
	}
	c := make(chan struct{})
	k := 1
	if first {
		k = 0
	}
	s.q[k] = append(s.q[k], c)
	s.mu.Unlock()
	<-c
}

func (s *slots) put() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k := range s.q {
		if len(s.q[k]) > 0 {
			close(s.q[k][0])
			s.q[k] = s.q[k][1:]
			return
		}
	}
	s.free++
}

func (r *Runner) failed(fn string) *atomic.Int32 {
	n, _ := r.fails.LoadOrStore(fn, &atomic.Int32{})
	return n.(*atomic.Int32)
}

// once this many obligations of a function have failed, the others are left
const maxFails = 8

func NewRunner(par, quick, long int) *Runner {
	return &Runner{sem: &slots{free: par}, covers: make(chan struct{}, 4), quick: quick, long: long, secs: map[string]float64{}, wins: map[string]int{}, ctx: context.Background(), seed: 0}
}

var errRe = regexp.MustCompile(`\(error "([^"]*)"`)

func (r *Runner) one(ctx context.Context, fn, sv, query string, secs int, late bool) (res string, took float64, out string) {
	r.sem.get(late)
	defer r.sem.put()
	if ctx.Err() != nil || fn != "" && r.failed(fn).Load() >= maxFails {
		return "cancelled", 0, ""
	}
	cfg := solvers[sv]
	args := cfg.args(secs, r.seed)
	c2, cancel := context.WithTimeout(ctx, time.Duration(secs+3)*time.Second)
	defer cancel()
	c := exec.CommandContext(c2, args[0], args[1:]...)
	c.Stdin = strings.NewReader(query)
	var ob bytes.Buffer
	c.Stdout, c.Stderr = &ob, &ob
	t0 := time.Now()
	c.Run()
	took = time.Since(t0).Seconds()
	r.mu.Lock()
	r.secs[cfg.name] += took
	r.mu.Unlock()
	s := strings.TrimSpace(ob.String())
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown", "timeout":
			return l, took, s
		}
	}
	if m := errRe.FindStringSubmatch(s); m != nil {
		return "error: " + m[1], took, s
	}
	return "unknown", took, s
}

func (r *Runner) discharge(o *Obligation, stage2 bool) {
	if o.Kind == "table" {
		return
	}
	if o.Kind == "subset" {
		o.Result = "failed"
		return
	}
	if strings.Contains(o.Query, "error") && o.Query == "" {
		o.Result = "failed"
		return
	}
	first := []string{"z3em"}
	rest := []string{"z3", "cvc5", "z3oldem"}
	if o.Decls != nil && o.Decls.bv {
		first = []string{"z3"}
		rest = []string{"z3", "cvc5", "z3old"}
	}
	to := r.quick
	if o.Kind == "cover" || o.Kind == "exitcover" {
		r.covers <- struct{}{}
		defer func() { <-r.covers }()
		if _, ok := r.reached.Load(o.Fn); ok && o.Kind == "exitcover" { // one exit is enough
			o.Result, o.Model = "proved", "another exit is reachable"
			return
		}
		res, t, _ := r.one(r.ctx, "", "z3", o.Query, 2, false)
		o.Secs += t
		o.Solver = solvers["z3"].name
		if res == "unsat" {
			o.Result = "failed"
		} else {
			o.Result = "proved"
			o.Model = res
			r.reached.Store(o.Fn, true)
		}
		return
	}
	for _, s := range first {
		res, t, out := r.one(r.ctx, o.Fn, s, o.Query, to, false)
		o.Secs += t
		if res == "unsat" {
			o.Result, o.Solver = "proved", solvers[s].name
			return
		}
		if strings.HasPrefix(res, "error") {
			o.Model = out
		}
		if res == "sat" && s == "z3" {
			o.Result, o.Solver = "failed", solvers[s].name
			o.Model = "sat"
			return
		}
	}
	if !stage2 {
		o.Result = "unknown"
		return
	}
	defer func() {
		if o.Result != "proved" {
			r.failed(o.Fn).Add(1)
		}
	}()
	ctx, cancel := context.WithCancel(r.ctx)
	defer cancel()
	type rr struct {
		s, res, out string
		t           float64
	}
	ch := make(chan rr, len(rest))
	long := r.long
	if o.Timeout > 0 {
		long = o.Timeout
	}
	for _, s := range rest {
		go func(s string) {
			res, t, out := r.one(ctx, o.Fn, s, o.Query, long, true)
			ch <- rr{s, res, out, t}
		}(s)
	}
	o.Result = "unknown"
	for range rest {
		x := <-ch
		o.Secs += x.t
		if x.res == "unsat" {
			o.Result, o.Solver = "proved", solvers[x.s].name
			cancel()
			return
		}
		if x.res == "sat" && o.Result == "unknown" {
			o.Result, o.Solver, o.Model = "failed", solvers[x.s].name, "sat"
			cancel()
		}
		if strings.HasPrefix(x.res, "error") && o.Model == "" {
			o.Model = x.res
		}
	}
}

// All discharges a set of obligations; stage 1 for all, then stage 2 for the remaining ones.
// quickAll: whether every obligation is discharged; gives up at the first that is not.
func (r *Runner) quickAll(spec *Spec, obls []*Obligation) bool {
	for _, o := range obls {
		if o.Kind == "subset" {
			return false
		}
		if o.Kind != "table" {
			o.Query, o.Axioms = o.SMT(spec)
		}
	}
	ctx, cancel := context.WithCancel(r.ctx)
	defer cancel()
	q := &Runner{quick: r.quick, long: min(r.long, 10), sem: r.sem, covers: r.covers, ctx: ctx, secs: map[string]float64{}, wins: map[string]int{}, seed: r.seed}
	var wg sync.WaitGroup
	var mu sync.Mutex
	good, reach, exits := true, false, false
	for _, o := range obls {
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			q.discharge(o, true)
			mu.Lock()
			defer mu.Unlock()
			if o.Kind == "exitcover" {
				exits = true
				reach = reach || o.Result == "proved"
			} else if o.Result != "proved" {
				good = false
				cancel()
			}
		}(o)
	}
	wg.Wait()
	for k, v := range q.secs {
		r.secs[k] += v
	}
	return good && (reach || !exits)
}

func (r *Runner) All(spec *Spec, obls []*Obligation, dump string) {
	for i, o := range obls {
		if o.Kind == "subset" || o.Kind == "table" {
			continue
		}
		q, ax := o.SMT(spec)
		o.Query = q
		o.Axioms = ax
		if dump != "" {
			name := fmt.Sprintf("%s-%03d.smt2", strings.ReplaceAll(o.Fn, "/", "_"), i)
			os.WriteFile(filepath.Join(dump, name), []byte("; "+o.Fn+" "+o.Label+" "+o.Pos+" "+o.Path+"\n"+q), 0644)
			o.Dump = name
		}
	}
	var wg sync.WaitGroup
	for _, o := range obls {
		wg.Add(1)
		go func(o *Obligation) { defer wg.Done(); r.discharge(o, true) }(o)
	}
	wg.Wait()
	// last resort for the few left over: once more with the machine to themselves
	var left []*Obligation
	for _, o := range obls {
		if o.Result == "unknown" {
			left = append(left, o)
		}
	}
	if n := len(left); n > 0 && n <= 3 && r.long >= 10 {
		for _, o := range left {
			o.Timeout = r.long * 2
			r.discharge(o, true)
		}
	}
	for _, o := range obls {
		if o.Solver != "" && o.Result == "proved" {
			r.mu.Lock()
			r.wins[o.Solver]++
			r.mu.Unlock()
		}
	}
	sort.SliceStable(obls, func(i, j int) bool { return obls[i].Fn < obls[j].Fn })
}

// getModel asks z3 for the values of the parameters in a failing state.
func (r *Runner) getModel(o *Obligation) map[string]string {
	if o.Query == "" {
		return nil
	}
	re := regexp.MustCompile(`\(declare-fun (\|p:[^|]*\||p:\S+) \(\) (Int|Bool|\(_ BitVec \d+\))\)`)
	var names []string
	for _, m := range re.FindAllStringSubmatch(o.Query, -1) {
		names = append(names, m[1])
	}
	if len(names) == 0 {
		return nil
	}
	q := o.Query + "(get-value (" + strings.Join(names, " ") + "))\n"
	_, _, out := r.one(context.Background(), "", "z3", q, 5, true)
	vals := map[string]string{}
	vre := regexp.MustCompile(`\((\|p:[^|]*\||p:\S+) (\(- \d+\)|-?\d+|true|false|#x[0-9a-f]+|#b[01]+)\)`)
	for _, m := range vre.FindAllStringSubmatch(out, -1) {
		n := strings.Trim(m[1], "|")
		v := m[2]
		if strings.HasPrefix(v, "(- ") {
			v = "-" + strings.TrimSuffix(v[3:], ")")
		}
		vals[strings.TrimPrefix(n, "p:")] = v
	}
	return vals
}
