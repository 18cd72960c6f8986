package main

import (
	"fmt"
	"regexp"
	"runtime"
	"strings"

	"falsify/fz"

	"github.com/vipally/gx/debug"
)

// everything the package says at one line of one function, and what the runtime says there
type seen struct {
	bt, btFL, btFunc string
	c, cFL, cFunc    string
	depth            int
	bts              string
	list             []string
	from             int
	panicked, stop   bool
	msg              string
	assert           bool
	frames           []runtime.Frame
}

//go:noinline
func here() []runtime.Frame {
	pcs := make([]uintptr, 400)
	n := runtime.Callers(2, pcs)
	var out []runtime.Frame
	fs := runtime.CallersFrames(pcs[:n])
	for more := n > 0; more; {
		var f runtime.Frame
		f, more = fs.Next()
		out = append(out, f)
	}
	return out
}

func recovered(s *seen) {
	if x := recover(); x != nil {
		s.panicked, s.msg = true, fmt.Sprint(x)
	}
}

// the call sites; each asks and compares on one line
//
//go:noinline
func plain(s *seen, d, from int) {
	s.bt, s.btFL, s.btFunc, s.c, s.cFL, s.cFunc, s.bts, s.list, s.frames = debug.Bt(), debug.BtFileLine(), debug.BtFunc(), debug.Caller(d), debug.CallerFileLine(d), debug.CallerFunc(d), debug.Bts(), debug.CallStackList(from), here()
}
func inlined(s *seen, d, from int) {
	s.bt, s.frames = debug.Bt(), here()
}
func inlinedFL(s *seen, d, from int)    { s.btFL, s.frames = debug.BtFileLine(), here() }
func inlinedFunc(s *seen, d, from int)  { s.btFunc, s.frames = debug.BtFunc(), here() }
func inlinedC(s *seen, d, from int)     { s.c, s.frames = debug.Caller(d), here() }
func inlinedCFL(s *seen, d, from int)   { s.cFL, s.frames = debug.CallerFileLine(d), here() }
func inlinedCFunc(s *seen, d, from int) { s.cFunc, s.frames = debug.CallerFunc(d), here() }
func inlinedBts(s *seen, d, from int) {

	s.bts, s.frames = debug.Bts(), here()
}
func inlinedList(s *seen, d, from int) {

	s.list, s.frames = debug.CallStackList(from), here()
}

//go:noinline
func failing(s *seen, d, from int) {
	defer recovered(s)
	s.frames, s.assert = here(), debug.Assert(false)
}

//go:noinline
func passing(s *seen, d, from int) {
	defer recovered(s)
	s.assert = debug.Assert(true)
}

//go:noinline
func deferred(s *seen, d, from int) {
	defer func() {
		s.bt, s.bts, s.c, s.list, s.frames = debug.Bt(), debug.Bts(), debug.Caller(d), debug.CallStackList(from), here()
	}()
	s.stop = false
}

type meth struct{ s *seen }

func (m *meth) ask(d, from int) {
	m.s.bt, m.s.cFunc, m.s.frames = debug.Bt(), debug.CallerFunc(d), here()
}

type asker interface{ ask(d, from int) }

func site(k int, s *seen, d, from int) {
	switch k {
	case 0:
		plain(s, d, from)
	case 1:
		inlined(s, d, from)
	case 2:
		inlinedFL(s, d, from)
	case 3:
		inlinedFunc(s, d, from)
	case 4:
		inlinedC(s, d, from)
	case 5:
		inlinedCFL(s, d, from)
	case 6:
		inlinedCFunc(s, d, from)
	case 7:
		inlinedBts(s, d, from)
	case 8:
		inlinedList(s, d, from)
	case 9:
		failing(s, d, from)
	case 10:
		func() {
			s.bt, s.btFunc, s.bts, s.list, s.frames = debug.Bt(), debug.BtFunc(), debug.Bts(), debug.CallStackList(from), here()
		}()
	case 11:
		f := func() {
			s.btFL, s.bts, s.cFL, s.frames = debug.BtFileLine(), debug.Bts(), debug.CallerFileLine(d), here()
		}
		f()
	case 12:
		var a asker = &meth{s}
		a.ask(d, from)
	case 13:
		deferred(s, d, from)
	case 14:
		s.bt, s.btFL, s.btFunc, s.c, s.cFL, s.cFunc, s.bts, s.list, s.frames = debug.Bt(), debug.BtFileLine(), debug.BtFunc(), debug.Caller(d), debug.CallerFileLine(d), debug.CallerFunc(d), debug.Bts(), debug.CallStackList(from), here()
	case 15:
		done := make(chan bool)
		go func() {
			defer close(done)
			s.bt, s.c, s.bts, s.list, s.frames = debug.Bt(), debug.Caller(d), debug.Bts(), debug.CallStackList(from), here()
		}()
		<-done
	case 16:
		passing(s, d, from)
	}
}

//go:noinline
func deeper(n, k int, s *seen, d, from int) {
	if n > 0 {
		if n%3 == 0 {
			shallow(n, k, s, d, from)
		} else {
			deeper(n-1, k, s, d, from)
		}
		return
	}
	site(k, s, d, from)
}

// small enough to be inlined into deeper
func shallow(n, k int, s *seen, d, from int) { deeper(n-1, k, s, d, from) }

var pcRE = regexp.MustCompile(`pc\{([0-9A-F]+)\}`)

// the text without the code addresses, which the runtime does not promise
func noPC(s string) string { return pcRE.ReplaceAllString(s, "pc{}") }

func main() {
	fz.Main("C32", func(r *fz.R) {
		n := 0
		for r.Cases < 800 || r.More() {
			r.Case(func() { one(r, n%17) })
			n++
		}
	})
}

func one(r *fz.R, k int) {
	depth := r.Intn(8)
	if r.Intn(4) == 0 {
		depth = r.Intn(120)
	}
	d := r.Intn(6)
	if r.Intn(4) == 0 {
		d = r.Intn(140)
	}
	from := 2 + r.Intn(5)
	if r.Intn(4) == 0 {
		from = r.Intn(140)
	}
	r.Log("call site %d below %d nested calls, Caller*(%d), CallStackList(%d)", k, depth, d, from)
	s := &seen{}
	deeper(depth, k, s, d, from)
	if k == 16 {
		r.Check(s.assert && !s.panicked, "Assert(true) gives %v, panic %v", s.assert, s.panicked)
		return
	}
	fr := s.frames
	head := func(h string, j int, what int) string {
		if j >= len(fr) {
			return ""
		}
		f := fr[j]
		switch what {
		case 0:
			return fmt.Sprintf("%s FileLine{%s : %d}", h, f.File, f.Line)
		case 1:
			return fmt.Sprintf("%s Func{%s}", h, f.Function)
		}
		return fmt.Sprintf("%s Func{%s} FileLine{%s : %d} pc{}", h, f.Function, f.File, f.Line)
	}
	cmp := func(name, got, want string) {
		r.Check(noPC(got) == want, "%s gives %q, the runtime says %q", name, got, want)
	}
	if s.bt != "" || k == 1 {
		cmp("Bt()", s.bt, head("", 0, 2))
	}
	if s.btFL != "" || k == 2 {
		cmp("BtFileLine()", s.btFL, head("", 0, 0))
	}
	if s.btFunc != "" || k == 3 {
		cmp("BtFunc()", s.btFunc, head("", 0, 1))
	}
	switch k {
	case 0, 4, 13, 14, 15:
		cmp(fmt.Sprintf("Caller(%d)", d), s.c, head("Caller:", d+1, 2))
	}
	switch k {
	case 0, 5, 11, 14:
		cmp(fmt.Sprintf("CallerFileLine(%d)", d), s.cFL, head("Caller:", d+1, 0))
	}
	switch k {
	case 0, 6, 12, 14:
		cmp(fmt.Sprintf("CallerFunc(%d)", d), s.cFunc, head("Caller:", d+1, 1))
	}
	listing := func(n int) string {
		var b strings.Builder
		for i := 0; i < n && i < len(fr); i++ {
			fmt.Fprintf(&b, "#%d Func{%s} File{%s : %d} pc{}\n", i, fr[i].Function, fr[i].File, fr[i].Line)
		}
		return b.String()
	}
	switch k {
	case 0, 7, 10, 11, 13, 14, 15:
		cmp("Bts()", s.bts, listing(50))
	}
	switch k {
	case 0, 8, 10, 13, 14, 15:
		if from >= 2 {
			want := []string{}
			for j := from - 2; j < len(fr) && len(want) < 50; j++ {
				want = append(want, fmt.Sprintf("Func{%s} FileLine{%s : %d} pc{}", fr[j].Function, fr[j].File, fr[j].Line))
			}
			r.Check(len(s.list) == len(want), "CallStackList(%d) lists %d frames, the runtime has %d from there", from, len(s.list), len(want))
			for i := range want {
				cmp(fmt.Sprintf("CallStackList(%d)[%d]", from, i), s.list[i], want[i])
			}
		}
	case 9:
		r.Check(s.panicked, "Assert(false) does not panic")
		// below Assert itself, the message lists the frames of the caller
		lines := strings.SplitAfter(noPC(s.msg), "\n")
		r.Check(len(lines) > 2 && lines[0] == "Assert fail\n", "Assert(false) panics with %q", s.msg)
		for i := 0; i < len(fr) && i+2 < len(lines)-1; i++ {
			w := fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{}\n", i+1, fr[i].Function, fr[i].File, fr[i].Line)
			r.Check(lines[i+2] == w, "Assert(false) lists %q where the runtime says %q", lines[i+2], w)
		}
	}
}
