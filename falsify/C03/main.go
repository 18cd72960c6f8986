package main

import (
	"falsify/fz"

	"github.com/vipally/gx/stl"
)

func main() {
	fz.Main("C03", func(r *fz.R) {
		for r.Cases < 300 || r.More() {
			r.Case(func() { history(r) })
		}
	})
}

func history(r *fz.R) {
	var q *stl.IntDeque
	if r.Intn(3) > 0 {
		n := r.Intn(24) - 2
		r.Log("q := New(%d)", n)
		q = stl.NewGOGPDequeNamePrefixDeque(n)
	} else {
		r.Log("q := new(IntDeque)")
		q = new(stl.IntDeque)
	}
	var m []int
	check := func() {
		r.Check(q.Size() == len(m), "Size = %d, want %d", q.Size(), len(m))
		r.Check(q.Empty() == (len(m) == 0), "Empty = %v with %d values", q.Empty(), len(m))
		v, ok := q.Front()
		w, ok2 := q.Back()
		if len(m) == 0 {
			r.Check(!ok && v == 0 && !ok2 && w == 0, "Front/Back of empty deque = %d,%v / %d,%v", v, ok, w, ok2)
		} else {
			r.Check(ok && v == m[0], "Front = %d,%v want %d", v, ok, m[0])
			r.Check(ok2 && w == m[len(m)-1], "Back = %d,%v want %d", w, ok2, m[len(m)-1])
		}
	}
	check()
	steps := 1 + r.Intn(200)
	bias := 2 + r.Intn(7)
	pop := func() {
		if r.Intn(2) == 0 {
			r.Log("PopFront")
			v, ok := q.PopFront()
			if len(m) == 0 {
				r.Check(!ok && v == 0, "PopFront of empty deque = %d,%v", v, ok)
			} else {
				r.Check(ok && v == m[0], "PopFront = %d,%v want %d", v, ok, m[0])
				m = m[1:]
			}
			return
		}
		r.Log("PopBack")
		v, ok := q.PopBack()
		if len(m) == 0 {
			r.Check(!ok && v == 0, "PopBack of empty deque = %d,%v", v, ok)
		} else {
			r.Check(ok && v == m[len(m)-1], "PopBack = %d,%v want %d", v, ok, m[len(m)-1])
			m = m[:len(m)-1]
		}
	}
	next := 0
	for i := 0; i < steps; i++ {
		if i%40 == 39 {
			bias = 2 + r.Intn(7)
		}
		if r.Intn(1500) == 0 {
			k, front := r.Big(2000), r.Intn(2) == 0
			r.Log("push %d values, at the front: %v", k, front)
			for j := 0; j < k; j++ {
				next++
				if front {
					r.Check(q.PushFront(next), "PushFront reported false")
					m = append([]int{next}, m...)
				} else {
					r.Check(q.PushBack(next), "PushBack reported false")
					m = append(m, next)
				}
			}
			check()
			if r.Intn(2) == 0 {
				for k = r.Intn(k + 1); len(m) > k; {
					pop()
				}
				check()
			}
		}
		switch x := r.Intn(60); {
		case x == 0:
			r.Log("Clear")
			q.Clear()
			m = nil
		case x == 1:
			n := r.Intn(20) - 2
			r.Log("Init(%d)", n)
			q.Init(n)
			m = nil
		case x < 5:
			c := q.Cap()
			r.Log("Shrink")
			ok := q.Shrink()
			r.Check(ok == (q.Cap() < c) && q.Cap() <= c, "Shrink = %v, capacity %d -> %d", ok, c, q.Cap())
		case r.Intn(10) < bias:
			next++
			if r.Intn(2) == 0 {
				r.Log("PushBack(%d)", next)
				r.Check(q.PushBack(next), "PushBack reported false")
				m = append(m, next)
			} else {
				r.Log("PushFront(%d)", next)
				r.Check(q.PushFront(next), "PushFront reported false")
				m = append([]int{next}, m...)
			}
		default:
			pop()
		}
		check()
	}
	r.Log("drain")
	for len(m) > 0 {
		pop()
	}
	pop()
}
