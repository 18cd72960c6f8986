package main

import (
	"falsify/fz"

	"github.com/vipally/gx/stl"
)

type slice[T comparable] interface {
	Init(int)
	Push(T) int
	Insert(T, int) int
	Remove(int) (T, bool)
	Pop() (T, bool)
	Get(int) (T, bool)
	MustGet(int) T
	Len() int
	Buffer() []T
}

func main() {
	var root stl.IntTreeNode
	var nodes []*stl.IntTreeNode
	for i := 0; i < 40; i++ {
		nodes = append(nodes, root.AddChild(i, -1))
	}
	fz.Main("C11", func(r *fz.R) {
		for r.Cases < 300 || r.More() {
			r.Case(func() {
				if r.Intn(2) == 0 {
					s := new(stl.IntSortSlice)
					if r.Intn(3) > 0 {
						n := r.Intn(20)
						r.Log("s := NewIntSortSlice(%d)", n)
						s = stl.NewIntSortSlice(n)
					}
					history[int](r, s, func() int { return r.Intn(50) - 25 })
				} else {
					s := new(stl.IntTreeNodeSortSlice)
					if r.Intn(3) > 0 {
						n := r.Intn(20)
						r.Log("s := NewIntTreeNodeSortSlice(%d)", n)
						s = stl.NewIntTreeNodeSortSlice(n)
					}
					history[*stl.IntTreeNode](r, s, func() *stl.IntTreeNode { return nodes[r.Intn(len(nodes))] })
				}
			})
		}
	})
}

func history[T comparable](r *fz.R, s slice[T], gen func() T) {
	var m []T
	var zero T
	steps := 1 + r.Intn(60)
	index := func() int {
		switch r.Intn(8) {
		case 0:
			return -1 - r.Intn(3)
		case 1:
			return len(m) + r.Intn(3)
		case 2:
			return 1<<62 - r.Intn(2)
		case 3:
			return -1 << 63
		case 4:
			return 0
		}
		return r.Intn(len(m) + 1)
	}
	for i := 0; i < steps; i++ {
		if r.Intn(400) == 0 {
			k := r.Big(3000)
			r.Log("Push %d values", k)
			for j := 0; j < k; j++ {
				v := gen()
				s.Push(v)
				m = append(m, v)
			}
		}
		switch r.Intn(9) {
		case 0, 1:
			v := gen()
			r.Log("Push(%v)", v)
			n := s.Push(v)
			m = append(m, v)
			r.Check(n == len(m), "Push returned %d, want %d", n, len(m))
		case 2, 3, 4:
			v, k := gen(), index()
			r.Log("Insert(%v, %d)", v, k)
			n := s.Insert(v, k)
			if k >= 0 && k < len(m) {
				m = append(m, zero)
				copy(m[k+1:], m[k:])
				m[k] = v
			} else {
				m = append(m, v)
			}
			r.Check(n == len(m), "Insert returned %d, want %d", n, len(m))
		case 5, 6:
			k := index()
			r.Log("Remove(%d)", k)
			v, ok := s.Remove(k)
			if k >= 0 && k < len(m) {
				r.Check(ok && v == m[k], "Remove(%d) = %v,%v want %v,true", k, v, ok, m[k])
				m = append(m[:k:k], m[k+1:]...)
			} else {
				r.Check(!ok && v == zero, "Remove(%d) out of range = %v,%v", k, v, ok)
			}
		case 7:
			r.Log("Pop")
			v, ok := s.Pop()
			if len(m) > 0 {
				r.Check(ok && v == m[len(m)-1], "Pop = %v,%v want %v,true", v, ok, m[len(m)-1])
				m = m[:len(m)-1]
			} else {
				r.Check(!ok && v == zero, "Pop of empty = %v,%v", v, ok)
			}
		case 8:
			if r.Intn(6) == 0 {
				n := r.Intn(9)
				r.Log("Init(%d)", n)
				s.Init(n)
				m = nil
			}
		}
		r.Check(s.Len() == len(m), "Len = %d, want %d", s.Len(), len(m))
		b := s.Buffer()
		r.Check(len(b) == len(m), "Buffer has %d values, want %d", len(b), len(m))
		for j := range m {
			r.Check(b[j] == m[j], "Buffer[%d] = %v, want %v", j, b[j], m[j])
		}
		k := index()
		in := k >= 0 && k < len(m)
		v, ok := s.Get(k)
		r.Check(ok == in, "Get(%d) of %d: ok=%v", k, len(m), ok)
		r.Check(in && v == m[k] || !in && v == zero, "Get(%d) = %v", k, v)
		var w T
		p := fz.Panics(func() { w = s.MustGet(k) })
		r.Check(p == !in, "MustGet(%d) of %d: panics=%v", k, len(m), p)
		r.Check(!in || w == m[k], "MustGet(%d) = %v", k, w)
	}
}
