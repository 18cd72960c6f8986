package main

import (
	"falsify/fz"

	"github.com/vipally/gx/stl"
)

func main() {
	fz.Main("C01", func(r *fz.R) {
		for r.Cases < 300 || r.More() {
			r.Case(func() { history(r) })
		}
	})
}

func history(r *fz.R) {
	var s *stl.IntStack
	if r.Intn(2) == 0 {
		n := r.Intn(24) - 2
		r.Log("s := New(%d)", n)
		s = stl.NewGOGPStackNamePrefixStack(n)
	} else {
		r.Log("s := new(IntStack)")
		s = new(stl.IntStack)
	}
	var m []int
	check := func() {
		r.Check(s.Size() == len(m), "Size = %d, want %d", s.Size(), len(m))
		r.Check(s.Empty() == (len(m) == 0), "Empty = %v with %d values", s.Empty(), len(m))
		v, ok := s.Top()
		if len(m) == 0 {
			r.Check(!ok && v == 0, "Top of empty stack = %d,%v", v, ok)
		} else {
			r.Check(ok && v == m[len(m)-1], "Top = %d,%v want %d", v, ok, m[len(m)-1])
		}
	}
	check()
	steps := 1 + r.Intn(80)
	bias := 2 + r.Intn(7)
	for i := 0; i < steps; i++ {
		if r.Intn(400) == 0 {
			k := r.Big(5000)
			r.Log("Push %d values", k)
			for j := 0; j < k; j++ {
				r.Check(s.Push(j), "Push reported false")
				m = append(m, j)
			}
			check()
			if r.Intn(2) == 0 {
				r.Log("Pop until it is shorter again")
				for k = r.Intn(k + 1); len(m) > k; {
					v, ok := s.Pop()
					r.Check(ok && v == m[len(m)-1], "Pop = %d,%v want %d", v, ok, m[len(m)-1])
					m = m[:len(m)-1]
				}
			}
			check()
		}
		switch x := r.Intn(40); {
		case x == 0:
			r.Log("Clear")
			s.Clear()
			m = m[:0]
		case x == 1:
			n := r.Intn(20) - 2
			r.Log("Init(%d)", n)
			s.Init(n)
			m = m[:0]
		case r.Intn(10) < bias:
			v := r.Intn(1000) - 500
			r.Log("Push(%d)", v)
			ok := s.Push(v)
			r.Check(ok, "Push reported false")
			m = append(m, v)
		default:
			r.Log("Pop")
			v, ok := s.Pop()
			if len(m) == 0 {
				r.Check(!ok && v == 0, "Pop of empty stack = %d,%v", v, ok)
			} else {
				r.Check(ok && v == m[len(m)-1], "Pop = %d,%v want %d", v, ok, m[len(m)-1])
				m = m[:len(m)-1]
			}
		}
		check()
	}
	for len(m) > 0 {
		v, ok := s.Pop()
		r.Check(ok && v == m[len(m)-1], "draining: Pop = %d,%v want %d", v, ok, m[len(m)-1])
		m = m[:len(m)-1]
	}
	_, ok := s.Pop()
	r.Check(!ok, "Pop after draining reports ok")
}
