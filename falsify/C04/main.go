package main

import (
	"sort"

	"falsify/fz"

	"github.com/vipally/gx/stl"
)

func main() {
	fz.Main("C04", func(r *fz.R) {
		for r.Cases < 400 || r.More() {
			r.Case(func() { history(r) })
			r.Case(func() { slices(r) })
		}
	})
}

func val(r *fz.R, span int) int {
	switch r.Intn(12) {
	case 0:
		return []int{1<<63 - 1, -1 << 63, 0, -1, 1 << 62, -1 << 62}[r.Intn(6)]
	}
	return r.Intn(2*span+1) - span
}

// beats: a stands strictly above b
func beats(max bool, a, b int) bool {
	if max {
		return a > b
	}
	return a < b
}

func best(max bool, m []int) int {
	k := 0
	for i := range m {
		if beats(max, m[i], m[k]) {
			k = i
		}
	}
	return k
}

func valid(max bool, b []int) bool {
	for i := 1; i < len(b); i++ {
		if beats(max, b[i], b[(i-1)/2]) {
			return false
		}
	}
	return true
}

func sameBag(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	x := append([]int(nil), a...)
	y := append([]int(nil), b...)
	sort.Ints(x)
	sort.Ints(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func history(r *fz.R) {
	max := r.Intn(2) == 0
	c := r.Intn(12) - 1
	lim := []int{0, 0, -1, -5}[r.Intn(4)]
	if c < 0 {
		c = 0
	}
	r.Log("h := NewIntHeap(%d, %d, %v)", c, lim, max)
	h := stl.NewIntHeap(c, lim, max)
	var m []int
	span := []int{1, 3, 20, 1000}[r.Intn(4)]
	steps := 1 + r.Intn(150)
	bias := 3 + r.Intn(6)
	for i := 0; i < steps; i++ {
		if i%30 == 29 {
			bias = 2 + r.Intn(7)
		}
		if r.Intn(600) == 0 {
			k := r.Big(1000)
			for j := 0; j < k; j++ {
				v := val(r, span)
				r.Log("Push(%d)", v)
				h.Push(v)
				m = append(m, v)
			}
		}
		switch x := r.Intn(50); {
		case x == 0:
			max = r.Intn(2) == 0
			n := r.Intn(12)
			r.Log("Init(%d, 0, %v)", n, max)
			h.Init(n, 0, max)
			m = nil
		case r.Intn(10) < bias:
			v := val(r, span)
			r.Log("Push(%d)", v)
			h.Push(v)
			m = append(m, v)
		default:
			r.Log("Pop")
			v, ok := h.Pop()
			if len(m) == 0 {
				r.Check(!ok && v == 0, "Pop of empty heap = %d,%v", v, ok)
			} else {
				k := best(max, m)
				r.Check(ok && v == m[k], "Pop = %d,%v want %d", v, ok, m[k])
				m = append(m[:k], m[k+1:]...)
			}
		}
		r.Check(h.Size() == len(m), "Size = %d, want %d", h.Size(), len(m))
		r.Check(h.Empty() == (len(m) == 0), "Empty = %v with %d values", h.Empty(), len(m))
		v, ok := h.Top()
		if len(m) == 0 {
			r.Check(!ok && v == 0, "Top of empty heap = %d,%v", v, ok)
		} else {
			r.Check(ok && v == m[best(max, m)], "Top = %d,%v want %d", v, ok, m[best(max, m)])
		}
		b := h.Buffer()
		r.Check(valid(max, b), "Buffer %v is no heap (maxTop %v)", b, max)
		r.Check(sameBag(b, m), "Buffer %v does not hold %v", b, m)
		r.Check(h.CheckHeap(b), "CheckHeap(Buffer) = false for %v", b)
	}
}

func slices(r *fz.R) {
	max := r.Intn(2) == 0
	h := stl.NewIntHeap(0, 0, max)
	n := r.Intn(20)
	if r.Intn(6) == 0 {
		n = r.Intn(200)
		if r.Intn(6) == 0 {
			n = r.Big(3000)
		}
	}
	span := []int{1, 3, 20, 1000}[r.Intn(4)]
	in := make([]int, n+4)
	for i := range in {
		in[i] = val(r, span)
	}
	back := append([]int(nil), in...)
	b := in[2 : n+2 : n+2]
	r.Log("maxTop %v, b := %v", max, b)
	r.Check(h.CheckHeap(b) == valid(max, b), "CheckHeap = %v", !valid(max, b))
	h.MakeHeap(b)
	r.Check(valid(max, b), "MakeHeap left %v", b)
	r.Check(sameBag(b, back[2:n+2]), "MakeHeap changed the values: %v", b)
	r.Check(h.CheckHeap(b), "CheckHeap after MakeHeap = false for %v", b)
	r.Check(in[0] == back[0] && in[1] == back[1] && in[n+2] == back[n+2] && in[n+3] == back[n+3], "MakeHeap wrote outside the slice")
	m := append([]int(nil), b...)
	if n > 0 {
		i := r.Intn(n)
		w := append([]int(nil), b...)
		w[i] = val(r, span)
		r.Check(h.CheckHeap(w) == valid(max, w), "CheckHeap(%v) = %v", w, !valid(max, w))
	}
	for i := 0; i < 12; i++ {
		if r.Intn(2) == 0 {
			v := val(r, span)
			r.Log("b = PushHeap(b, %d)", v)
			b = h.PushHeap(b, v)
			m = append(m, v)
		} else {
			r.Log("b, _, _ = PopHeap(b)")
			full := b
			t, v, ok := h.PopHeap(b)
			if len(m) == 0 {
				r.Check(!ok && v == 0 && len(t) == 0, "PopHeap of an empty slice = %v,%d,%v", t, v, ok)
			} else {
				k := best(max, m)
				r.Check(ok && v == m[k], "PopHeap = %d,%v want %d", v, ok, m[k])
				r.Check(sameBag(full, m), "PopHeap changed the values of the whole slice: %v", full)
				m = append(m[:k], m[k+1:]...)
			}
			b = t
		}
		r.Check(valid(max, b), "%v is no heap", b)
		r.Check(sameBag(b, m), "%v does not hold %v", b, m)
	}
}
