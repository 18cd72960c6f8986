package main

import (
	"sort"

	"falsify/fz"

	"github.com/vipally/gx/stl"
)

func main() {
	fz.Main("C05", func(r *fz.R) {
		// every slice of up to 6 values over {0,1,2}, up to 8 over {0,1}
		for _, d := range []struct{ k, n int }{{3, 6}, {2, 8}, {1, 3}} {
			for n := 0; n <= d.n; n++ {
				t := 1
				for i := 0; i < n; i++ {
					t *= d.k
				}
				for c := 0; c < t; c++ {
					b := make([]int, n)
					for i, x := 0, c; i < n; i, x = i+1, x/d.k {
						b[i] = x % d.k
					}
					r.Case(func() { one(r, b) })
				}
			}
		}
		for i := 0; i < 300 || r.More(); i++ {
			n := r.Intn(40)
			if r.Intn(5) == 0 {
				n = r.Intn(400)
				if r.Intn(6) == 0 {
					n = r.Big(5000)
				}
			}
			span := []int{1, 5, 60, 1 << 30}[r.Intn(4)]
			b := make([]int, n)
			for i := range b {
				b[i] = r.Intn(2*span+1) - span
				if r.Intn(20) == 0 {
					b[i] = []int{1<<63 - 1, -1 << 63, 0, -1}[r.Intn(4)]
				}
			}
			r.Case(func() { one(r, b) })
		}
	})
}

func one(r *fz.R, v []int) {
	n := len(v)
	for _, max := range []bool{true, false} {
		// the buffer has guards on both sides, also within the capacity
		buf := make([]int, n+6)
		for i := range buf {
			buf[i] = 7777 + i
		}
		copy(buf[3:], v)
		b := buf[3 : n+3]
		h := stl.NewIntHeap(0, 0, max)
		h.Push(5)
		r.Log("maxTop %v, SortHeap(%v)", max, v)
		want := append([]int(nil), v...)
		sort.Ints(want)
		if !max {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				want[i], want[j] = want[j], want[i]
			}
		}
		g := h.SortHeap(b)
		r.Check(len(g) == n && (n == 0 || &g[0] == &b[0]), "SortHeap returned another slice: %v", g)
		for i := range want {
			if b[i] != want[i] {
				r.Fail("SortHeap left %v, want %v", b, want)
				break
			}
		}
		guards(r, buf, n, "SortHeap")
		r.Check(h.Size() == 1 && h.Buffer()[0] == 5, "SortHeap changed the heap's own values")
		copy(b, v)
		r.Log("Reverse(%v)", v)
		h.Reverse(b)
		for i := range b {
			if b[i] != v[n-1-i] {
				r.Fail("Reverse left %v", b)
				break
			}
		}
		guards(r, buf, n, "Reverse")
	}
}

func guards(r *fz.R, buf []int, n int, what string) {
	for i := range buf {
		if i < 3 || i >= n+3 {
			r.Check(buf[i] == 7777+i, "%s wrote outside the slice", what)
		}
	}
}
