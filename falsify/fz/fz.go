// Package fz: support for replaying contracts on the real code. Programs using it exercise only the
// exported API of vipally/gx, compare with the property's own reference model, and stop at the first
// disagreement, printing the failing input or history.
package fz

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

type R struct {
	*rand.Rand
	mu       sync.Mutex
	trace    []string
	started  time.Time
	active   bool
	Cases    int64
	deadline time.Time
	prop     string
	Limit    time.Duration // per case
	complete string
}

// Complete: this run covered the whole input space of the property.
func (r *R) Complete(what string) { r.complete = what }

// Exhaust: enumerate the whole input space, if that is possible (set when the proof failed).
func Exhaust() bool { return os.Getenv("FZ_EXHAUST") == "1" }

type stop struct{}

func seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

// Budget of the whole run in seconds (FZ_BUDGET).
func budget() time.Duration {
	n, err := strconv.ParseFloat(os.Getenv("FZ_BUDGET"), 64)
	if err != nil || n <= 0 {
		n = 8
	}
	return time.Duration(n * float64(time.Second))
}

func Main(prop string, f func(r *R)) {
	r := &R{Rand: rand.New(rand.NewSource(seed()*7919 + 17)), prop: prop, Limit: 20 * time.Second}
	r.deadline = time.Now().Add(budget())
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			r.mu.Lock()
			if r.active && time.Since(r.started) > r.Limit {
				r.report("does not terminate (still running after " + r.Limit.String() + ")")
			}
			r.mu.Unlock()
		}
	}()
	f(r)
	if r.complete != "" {
		fmt.Printf("FZ-COMPLETE %s\n", r.complete)
	}
	fmt.Printf("FZ-OK property=%s cases=%d\n", prop, r.Cases)
	os.Exit(0)
}

// More: is there budget left?
func (r *R) More() bool { return time.Now().Before(r.deadline) }

// Frac: still within the given fraction of the budget.
func (r *R) Frac(x float64) bool {
	return time.Until(r.deadline) > time.Duration((1-x)*float64(budget()))
}

// Log one step of the current case.
func (r *R) Log(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	r.mu.Lock()
	r.trace = append(r.trace, s)
	r.mu.Unlock()
}

func (r *R) report(what string) {
	tr := r.trace
	if len(tr) > 400 {
		tr = append(append([]string{}, tr[:20]...), append([]string{fmt.Sprintf("... %d steps ...", len(tr)-220)}, tr[len(tr)-200:]...)...)
	}
	b, _ := json.Marshal(map[string]any{"property": r.prop, "what": what, "case": tr, "case_number": r.Cases, "seed": seed()})
	fmt.Printf("FALSIFIED %s\n", b)
	os.Stdout.Sync()
	os.Exit(1)
}

// Fail: the real code disagrees with the property on the current case.
func (r *R) Fail(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	r.mu.Lock()
	r.report(s)
}

func (r *R) Check(ok bool, f string, a ...any) {
	if !ok {
		r.Fail(f, a...)
	}
}

// Case runs one case; a panic that escapes is a violation.
func (r *R) Case(f func()) {
	r.mu.Lock()
	r.trace = r.trace[:0]
	r.started, r.active = time.Now(), true
	r.Cases++
	r.mu.Unlock()
	func() {
		defer func() {
			if e := recover(); e != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				if len(st) > 24 {
					st = st[:24]
				}
				r.mu.Lock()
				r.trace = append(r.trace, st...)
				r.report(fmt.Sprintf("panics: %v", e))
			}
		}()
		f()
	}()
	r.mu.Lock()
	r.active = false
	r.mu.Unlock()
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

// Model returns the parameter values of solver counterexamples (FZ_MODELS: JSON list of maps).
func Model() []map[string]string {
	var m []map[string]string
	json.Unmarshal([]byte(os.Getenv("FZ_MODELS")), &m)
	return m
}

// ModelInts: every integer value occurring in the solver's counterexamples.
func ModelInts() []uint64 {
	var out []uint64
	for _, m := range Model() {
		for _, v := range m {
			s := strings.TrimSpace(v)
			neg := false
			if strings.HasPrefix(s, "(-") {
				s = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(s, "(-"), ")"))
				neg = true
			}
			base := 10
			if strings.HasPrefix(s, "#x") {
				s, base = s[2:], 16
			}
			if strings.HasPrefix(s, "#b") {
				s, base = s[2:], 2
			}
			if n, err := strconv.ParseUint(s, base, 64); err == nil {
				if neg {
					n = -n
				}
				out = append(out, n)
			}
		}
	}
	return out
}

// Interesting 64-bit values for scalar inputs.
func (r *R) U64() uint64 {
	switch r.Intn(6) {
	case 5:
		if n := len(lits.Ints); n > 0 {
			return lits.Ints[r.Intn(n)] + uint64(r.Intn(5)) - 2
		}
		return r.Uint64()
	case 0:
		return r.Uint64()
	case 1:
		return r.Uint64() >> uint(r.Intn(64))
	case 2:
		return (uint64(1) << uint(r.Intn(64))) + uint64(r.Intn(5)) - 2
	case 3:
		return -uint64(r.Intn(5))
	}
	return uint64(r.Intn(300))
}

// lits: the literals of the source files the property is anchored in, as hints for sizes, numbers and texts (FZ_LITS).
var lits struct {
	Ints []uint64
	Strs []string
}

func init() { json.Unmarshal([]byte(os.Getenv("FZ_LITS")), &lits) }

// Big: a size up to max, mostly near a power of two or near a number that occurs in the source.
func (r *R) Big(max int) int {
	n := r.Intn(max + 1)
	if k := len(lits.Ints); k > 0 && r.Intn(2) == 0 {
		if l := lits.Ints[r.Intn(k)]; l <= uint64(max) {
			n = int(l)*(1+r.Intn(3)/2) + r.Intn(5) - 2
		}
	} else if r.Intn(3) > 0 {
		for n = 8; n < max && r.Intn(8) > 0; {
			n *= 2
		}
		n += r.Intn(5) - 2
	}
	if n < 1 {
		n = 1
	}
	if n > max {
		n = max
	}
	return n
}

// Like: a text resembling one of the given ones or a literal of the source.
func (r *R) Like(known ...string) string {
	s := known[r.Intn(len(known))]
	if k := len(lits.Strs); k > 0 && r.Intn(3) == 0 {
		s = lits.Strs[r.Intn(k)]
	}
	for r.Intn(3) > 0 {
		t := known[r.Intn(len(known))]
		switch i := r.Intn(len(s) + 1); r.Intn(9) {
		case 0:
			s = s[:i]
		case 1:
			s = s[i:]
		case 2:
			s = s[:i] + string(rune(r.Intn(128))) + s[i:]
		case 3:
			s = strings.ToUpper(s)
		case 4:
			s = strings.ToLower(s)
		case 5:
			s += t
		case 6:
			s = s + []string{" ", "s", "_", "r", "Than", "2", "\x00"}[r.Intn(7)]
		case 7:
			s = " " + s
		case 8:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		}
	}
	return s
}
