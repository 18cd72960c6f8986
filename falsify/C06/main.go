package main

import (
	"sort"

	"falsify/fz"

	"github.com/vipally/gx/stl"
)

func main() {
	fz.Main("C06", func(r *fz.R) {
		for r.Cases < 500 || r.More() {
			r.Case(func() { history(r) })
		}
	})
}

func history(r *fz.R) {
	max := r.Intn(2) == 0
	lim := 1 + r.Intn(9)
	if r.Intn(4) == 0 {
		lim = 1 + r.Intn(70)
		if r.Intn(30) == 0 {
			lim = r.Big(400)
		}
	}
	c := []int{0, lim, lim / 2, lim + 5}[r.Intn(4)]
	r.Log("h := NewIntHeap(%d, %d, %v)", c, lim, max)
	h := stl.NewIntHeap(c, lim, max)
	var kept []int // ordered: the best N so far, the top last
	span := []int{1, 3, 20, 1 << 40}[r.Intn(4)]
	pops := r.Intn(3) == 0
	steps := 1 + r.Intn(5*lim+10)
	for i := 0; i < steps; i++ {
		if r.Intn(60) == 0 {
			max = r.Intn(2) == 0
			lim = 1 + r.Intn(9)
			r.Log("Init(%d, %d, %v)", lim, lim, max)
			h.Init(lim, lim, max)
			kept = nil
		}
		if pops && r.Intn(5) == 0 {
			r.Log("Pop")
			v, ok := h.Pop()
			if len(kept) == 0 {
				r.Check(!ok && v == 0, "Pop of an empty heap = %d,%v", v, ok)
			} else {
				w := kept[len(kept)-1]
				r.Check(ok && v == w, "Pop = %d,%v want %d", v, ok, w)
				kept = kept[:len(kept)-1]
			}
		} else {
			v := r.Intn(2*span+1) - span
			if r.Intn(25) == 0 {
				v = []int{1<<63 - 1, -1 << 63, 0, -1}[r.Intn(4)]
			}
			r.Log("Push(%d)", v)
			h.Push(v)
			kept = append(kept, v)
			sort.Slice(kept, func(i, j int) bool {
				if max {
					return kept[i] < kept[j]
				}
				return kept[i] > kept[j]
			})
			if len(kept) > lim {
				kept = kept[:lim]
			}
		}
		b := append([]int(nil), h.Buffer()...)
		r.Check(h.Size() <= lim, "limit %d but Size = %d", lim, h.Size())
		r.Check(h.Size() == len(kept), "Size = %d, want %d", h.Size(), len(kept))
		sort.Slice(b, func(i, j int) bool {
			if max {
				return b[i] < b[j]
			}
			return b[i] > b[j]
		})
		for k := range kept {
			if k >= len(b) || b[k] != kept[k] {
				r.Fail("heap holds %v, want %v", b, kept)
				break
			}
		}
		v, ok := h.Top()
		if len(kept) > 0 {
			r.Check(ok && v == kept[len(kept)-1], "Top = %d,%v want %d", v, ok, kept[len(kept)-1])
		} else {
			r.Check(!ok && v == 0, "Top of an empty heap = %d,%v", v, ok)
		}
		r.Check(h.CheckHeap(h.Buffer()), "not a heap: %v", h.Buffer())
	}
}
