package main

import (
	"falsify/fz"

	"github.com/vipally/gx/stl"
)

func main() {
	fz.Main("C02", func(r *fz.R) {
		for r.Cases < 300 || r.More() {
			r.Case(func() { history(r) })
		}
	})
}

func history(r *fz.R) {
	var q *stl.IntQueue
	if r.Intn(3) > 0 {
		n := r.Intn(24) - 2
		r.Log("q := New(%d)", n)
		q = stl.NewGOGPQueueNamePrefixQueue(n)
	} else {
		r.Log("q := new(IntQueue)")
		q = new(stl.IntQueue)
	}
	var m []int
	check := func() {
		r.Check(q.Size() == len(m), "Size = %d, want %d", q.Size(), len(m))
		r.Check(q.Empty() == (len(m) == 0), "Empty = %v with %d values", q.Empty(), len(m))
		v, ok := q.Front()
		w, ok2 := q.Back()
		if len(m) == 0 {
			r.Check(!ok && v == 0 && !ok2 && w == 0, "Front/Back of empty queue = %d,%v / %d,%v", v, ok, w, ok2)
		} else {
			r.Check(ok && v == m[0], "Front = %d,%v want %d", v, ok, m[0])
			r.Check(ok2 && w == m[len(m)-1], "Back = %d,%v want %d", w, ok2, m[len(m)-1])
		}
	}
	check()
	steps := 1 + r.Intn(200)
	bias := 2 + r.Intn(7)
	pop := func() {
		v, ok := q.Pop()
		if len(m) == 0 {
			r.Check(!ok && v == 0, "Pop of empty queue = %d,%v", v, ok)
		} else {
			r.Check(ok && v == m[0], "Pop = %d,%v want %d", v, ok, m[0])
			m = m[1:]
		}
	}
	next := 0
	for i := 0; i < steps; i++ {
		if i%40 == 39 {
			bias = 2 + r.Intn(7)
		}
		if r.Intn(400) == 0 {
			k := r.Big(5000)
			r.Log("Push %d values", k)
			for j := 0; j < k; j++ {
				next++
				r.Check(q.Push(next), "Push reported false")
				m = append(m, next)
			}
			check()
			if r.Intn(2) == 0 {
				k = r.Intn(k + 1)
				r.Log("Pop until %d are left", k)
				for len(m) > k {
					pop()
				}
				check()
			}
		}
		switch x := r.Intn(60); {
		case x == 0:
			r.Log("Clear")
			q.Clear()
			m = nil
		case x == 1:
			n := r.Intn(20) - 2
			r.Log("Init(%d)", n)
			q.Init(n)
			m = nil
		case x < 5:
			c := q.Cap()
			r.Log("Shrink")
			ok := q.Shrink()
			r.Check(ok == (q.Cap() < c) && q.Cap() <= c, "Shrink = %v, capacity %d -> %d", ok, c, q.Cap())
		case r.Intn(10) < bias:
			next++
			r.Log("Push(%d)", next)
			r.Check(q.Push(next), "Push reported false")
			m = append(m, next)
		default:
			r.Log("Pop")
			pop()
		}
		check()
	}
	r.Log("drain")
	for len(m) > 0 {
		pop()
	}
	pop()
}
