package main

import (
	"time"

	"falsify/fz"

	"github.com/vipally/gx/stl"
)

type node = stl.IntSListNode

func main() {
	fz.Main("C09", func(r *fz.R) {
		for p := 0; p < 9; p++ {
			for c := 0; c < 9; c++ {
				r.Case(func() { chain(r, p, c) })
			}
		}
		for r.Cases < 400 || r.More() {
			r.Case(func() { history(r) })
			if r.Cases%150 == 149 || r.Cases == 50 {
				r.Case(func() { long(r) })
			}
			if r.Intn(20) == 0 {
				r.Case(func() { chain(r, r.Intn(100), r.Intn(100)) })
			}
		}
	})
}

// chain: a chain of p nodes that leads into a loop of c nodes (none if c is 0)
func chain(r *fz.R, p, c int) {
	a := stl.NewIntSList()
	m := []int{1, 2, 1000}[r.Intn(3)] // how many different values
	for i := 0; i < c; i++ {
		a.PushFront(i % m)
	}
	l := *a
	if c > 0 {
		l.PushFrontList(a) // closes the ring: the tail leads back to the first node
	}
	var first *node
	if c > 0 {
		first = l.Front()
		x := first
		for i := 0; i < c; i++ {
			if x == nil {
				return // could not build the ring this way
			}
			x = x.Next()
		}
		if x != first {
			return
		}
	}
	for i := 0; i < p; i++ {
		first = l.PushFront(-i % m)
	}
	r.Log("HasCycle of a chain of %d nodes that leads into a loop of %d", p, c)
	done := make(chan bool, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- c == 0 // as if answered wrongly
			}
		}()
		done <- l.HasCycle(first)
	}()
	select {
	case got := <-done:
		r.Check(got == (c > 0), "HasCycle = %v (or it panicked)", got)
	case <-time.After(5 * time.Second):
		r.Fail("HasCycle does not return")
	}
}

// long: the same operations on long lists, checked once each
func long(r *fz.R) {
	n := []int{100, 257, 1025, 3000, 5000, 2 + r.Big(5000)}[r.Intn(6)]
	r.Log("lists of %d nodes", n)
	build := func(from, n int) (*stl.IntSList, []*node) {
		l := stl.NewIntSList()
		var m []*node
		for i := n - 1; i >= 0; i-- {
			m = append(m, l.PushFront((from + i) % 7))
		}
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			m[i], m[j] = m[j], m[i]
		}
		return l, m
	}
	same := func(what string, l *stl.IntSList, m []*node) {
		x := l.Front()
		for i := range m {
			if x != m[i] {
				r.Fail("%s: another node at index %d", what, i)
			}
			x = x.Next()
		}
		r.Check(x == nil, "%s: the list goes on after %d nodes", what, len(m))
		r.Check(l.Len() == len(m), "%s: Len = %d", what, l.Len())
		t, size := l.Front().Tail()
		r.Check(t == m[len(m)-1] && size == len(m), "%s: Tail is off (size %d)", what, size)
		r.Check(l.IsValidNode(m[len(m)-1]), "%s: the last node is not valid", what)
		r.Check(!l.HasCycle(l.Front()), "%s: HasCycle", what)
	}
	l, m := build(0, n)
	same("build", l, m)
	l2, m2 := build(n, n)
	r.Log("PushFrontList")
	l.PushFrontList(l2)
	m = append(append([]*node(nil), m2...), m...)
	same("PushFrontList", l, m)
	r.Check(l2.Empty(), "the spliced list is not empty")
	r.Log("Remove the last node")
	k := len(m) - 1
	r.Check(l.Remove(m[k]) == m[k], "the last node was not removed")
	m = m[:k]
	same("Remove", l, m)
	k = len(m) - 2
	r.Log("MoveFront")
	l.MoveFront(m[k])
	m = ins(del(m, k), 0, m[k])
	same("MoveFront", l, m)
	r.Log("MoveAfter")
	k = len(m) - 1
	x := m[0]
	l.MoveAfter(x, m[k])
	m = ins(del(m, 0), k, x)
	same("MoveAfter", l, m)
	r.Log("Reverse")
	l.Reverse()
	for i, j := 0, len(m)-1; i < j; i, j = i+1, j-1 {
		m[i], m[j] = m[j], m[i]
	}
	same("Reverse", l, m)
}

type world struct {
	r    *fz.R
	l    [2]*stl.IntSList
	m    [2][]*node
	val  map[*node]int
	free []*node // removed nodes
	name map[*node]int
}

func at(m []*node, n *node) int {
	for i, x := range m {
		if x == n {
			return i
		}
	}
	return -1
}

func (w *world) know(n *node, v int) {
	w.val[n] = v
	w.name[n] = len(w.name) + 1
}

func ins(m []*node, k int, n *node) []*node {
	var out []*node
	out = append(out, m[:k]...)
	out = append(out, n)
	return append(out, m[k:]...)
}
func del(m []*node, k int) []*node {
	var out []*node
	out = append(out, m[:k]...)
	return append(out, m[k+1:]...)
}

func (w *world) check() {
	r := w.r
	for k, l := range w.l {
		m := w.m[k]
		n := len(m)
		r.Check(l.Empty() == (n == 0), "list %d: Empty = %v with %d nodes", k, l.Empty(), n)
		x := l.Front()
		for i, y := range m {
			if x != y {
				r.Fail("list %d: node %d at index %d, want node %d", k, w.name[x], i, w.name[y])
				return
			}
			r.Check(x.Get() == w.val[x], "node %d has value %d, want %d", w.name[x], x.Get(), w.val[x])
			t, size := x.Tail()
			r.Check(t == m[n-1] && size == n-i, "Tail of node %d = node %d, %d", w.name[x], w.name[t], size)
			x = x.Next()
		}
		if x != nil {
			r.Fail("list %d goes on with node %d after its last node", k, w.name[x])
			return
		}
		r.Check(l.Len() == n, "list %d: Len = %d, want %d", k, l.Len(), n)
		r.Check(!l.HasCycle(l.Front()), "list %d: HasCycle", k)
		v := l.Visitor()
		for i, y := range m {
			ok := v.Next()
			r.Check(ok && v.Get() == y, "list %d: visitor step %d: ok %v at node %d, want node %d", k, i, ok, w.name[v.Get()], w.name[y])
		}
		r.Check(!v.Next(), "list %d: visitor goes on past the end", k)
	}
	for x := range w.val {
		for k, l := range w.l {
			i := at(w.m[k], x)
			r.Check(l.IsValidNode(x) == (i >= 0), "IsValidNode(node %d) of list %d = %v", w.name[x], k, i < 0)
			if n := len(w.m[k]); n > 0 {
				j := r.Intn(n)
				y := w.m[k][j]
				r.Check(l.Reachable(y, x) == (i >= j), "Reachable(node %d, node %d) of list %d = %v", w.name[y], w.name[x], k, i < j)
			}
		}
	}
	for _, x := range w.free {
		r.Check(x.Next() == nil, "removed node %d is still linked", w.name[x])
		r.Check(x.Get() == w.val[x], "removed node %d has value %d, want %d", w.name[x], x.Get(), w.val[x])
	}
	r.Check(!w.l[0].IsValidNode(nil) && !w.l[0].Reachable(nil, nil), "nil is a valid node")
	t, size := (*node)(nil).Tail()
	r.Check(t == nil && size == 0, "Tail of nil")
}

func history(r *fz.R) {
	w := &world{r: r, val: map[*node]int{}, name: map[*node]int{nil: 0}}
	w.l[0], w.l[1] = stl.NewIntSList(), new(stl.IntSList)
	maxn := 2 + r.Intn(7)
	steps := 5 + r.Intn(60)
	val, vmod := 0, []int{1, 3, 1 << 30}[r.Intn(3)]
	for s := 0; s < steps; s++ {
		k := r.Intn(2)
		l, m := w.l[k], w.m[k]
		n := len(m)
		val = (val + 1) % vmod
		var pick, pick2 *node
		pi, pj := -1, -1
		if n > 0 {
			pi, pj = r.Intn(n), r.Intn(n)
			if r.Intn(3) == 0 {
				pi = []int{0, n - 1}[r.Intn(2)]
			}
			if r.Intn(3) == 0 {
				pj = []int{0, n - 1}[r.Intn(2)]
			}
			pick, pick2 = m[pi], m[pj]
		}
		takeFree := func() *node {
			if len(w.free) == 0 {
				x := new(node)
				x.Set(val)
				w.know(x, val)
				w.free = append(w.free, x)
			}
			return w.free[r.Intn(len(w.free))]
		}
		unfree := func(x *node) {
			if i := at(w.free, x); i >= 0 {
				w.free = del(w.free, i)
			}
		}
		id := w.name[pick]
		op := r.Intn(20)
		if n >= maxn && op < 8 {
			op = 8 + r.Intn(12)
		}
		switch op {
		case 0, 1:
			r.Log("l%d.PushFront(%d)", k, val)
			x := l.PushFront(val)
			w.know(x, val)
			w.m[k] = ins(m, 0, x)
		case 2, 3:
			x := takeFree()
			r.Log("l%d.InsertFront(node %d)", k, w.name[x])
			r.Check(l.InsertFront(x) == x, "InsertFront returned another node")
			unfree(x)
			w.m[k] = ins(m, 0, x)
		case 4, 5:
			if pick == nil {
				r.Check(l.PushAfter(val, nil) == nil && l.InsertAfter(new(node), nil) == nil && l.InsertAfter(nil, new(node)) == nil, "inserting after nil or nil returned a node")
				break
			}
			r.Log("l%d.PushAfter(%d, node %d)", k, val, id)
			x := l.PushAfter(val, pick)
			w.m[k] = ins(m, pi+1, x)
			w.know(x, val)
		case 6:
			if pick == nil {
				break
			}
			x := takeFree()
			r.Log("l%d.InsertAfter(node %d, node %d)", k, w.name[x], id)
			r.Check(l.InsertAfter(x, pick) == x, "InsertAfter returned another node")
			w.m[k] = ins(m, pi+1, x)
			unfree(x)
		case 7:
			o := w.m[1-k]
			r.Log("l%d.PushFrontList(l%d)", k, 1-k)
			l.PushFrontList(w.l[1-k])
			w.m[k] = append(append([]*node(nil), o...), m...)
			w.m[1-k] = nil
		case 8:
			r.Log("l%d.PopFront()", k)
			v, ok := l.PopFront()
			if n == 0 {
				r.Check(!ok && v == 0, "pop of an empty list = %d,%v", v, ok)
			} else {
				r.Check(ok && v == w.val[m[0]], "pop = %d,%v want %d", v, ok, w.val[m[0]])
				w.free = append(w.free, m[0])
				w.m[k] = del(m, 0)
			}
		case 9, 10:
			var x *node
			if op == 9 {
				r.Log("l%d.RemoveFront()", k)
				x = l.RemoveFront()
				pi = 0
			} else {
				r.Log("l%d.Remove(node %d)", k, id)
				x = l.Remove(pick)
			}
			if n == 0 {
				r.Check(x == nil, "removing from an empty list returned a node")
			} else {
				r.Check(x == m[pi], "removed node %d, want node %d", w.name[x], w.name[m[pi]])
				w.free = append(w.free, m[pi])
				w.m[k] = del(m, pi)
			}
		case 11: // nodes that are not in the list
			x := takeFree()
			if o := w.m[1-k]; len(o) > 0 && r.Intn(2) == 0 {
				x = o[r.Intn(len(o))]
			}
			r.Log("l%d.Remove/MoveFront/MoveAfter(node %d of elsewhere)", k, w.name[x])
			r.Check(l.Remove(x) == nil && l.MoveFront(x) == nil, "a node of elsewhere was removed or moved")
			if pick != nil {
				r.Check(l.MoveAfter(x, pick) == nil, "a node of elsewhere was moved")
			}
		case 12, 13:
			if pick == nil {
				r.Check(l.MoveFront(nil) == nil && l.MoveAfter(nil, nil) == nil, "moving nil returned a node")
				break
			}
			r.Log("l%d.MoveFront(node %d)", k, id)
			x := l.MoveFront(pick)
			r.Check(x == nil || x == pick, "MoveFront returned another node")
			w.m[k] = ins(del(m, pi), 0, pick)
		case 14, 15, 16:
			if pick == nil {
				break
			}
			q := del(m, pi)
			r.Log("l%d.MoveAfter(node %d, node %d)", k, id, w.name[pick2])
			x := l.MoveAfter(pick, pick2)
			if pi != pj {
				w.m[k] = ins(q, at(q, pick2)+1, pick)
			}
			r.Check(x == nil || x == pick, "move returned another node")
		case 17, 18:
			r.Log("l%d.Reverse()", k)
			l.Reverse()
			var q []*node
			for i := n - 1; i >= 0; i-- {
				q = append(q, m[i])
			}
			w.m[k] = q
		case 19:
			if r.Intn(4) > 0 {
				if pick != nil {
					r.Log("node %d.Set(%d)", id, val)
					r.Check(pick.Set(val) == w.val[pick], "Set returned another value")
					w.val[pick] = val
				}
				break
			}
			r.Log("l%d.Clear()", k)
			l.Clear()
			for _, x := range m {
				delete(w.val, x)
			}
			w.m[k] = nil
		}
		w.check()
	}
}
