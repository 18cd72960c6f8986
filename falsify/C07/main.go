package main

import (
	"falsify/fz"

	"github.com/vipally/gx/stl"
)

type node = stl.IntListNode

func main() {
	fz.Main("C07", func(r *fz.R) {
		for r.Cases < 400 || r.More() {
			r.Case(func() { history(r) })
			if r.Cases%150 == 149 || r.Cases == 50 {
				r.Case(func() { long(r) })
			}
		}
	})
}

// long: the same operations on long lists, checked once each
func long(r *fz.R) {
	n := []int{100, 257, 1025, 3000, 5000, 2 + r.Big(5000)}[r.Intn(6)]
	r.Log("lists of %d nodes", n)
	build := func(from, n int) (*stl.IntList, []*node) {
		l := stl.NewIntList()
		var m []*node
		for i := 0; i < n; i++ {
			m = append(m, l.PushBack(from+i))
		}
		return l, m
	}
	same := func(what string, l *stl.IntList, m []*node) {
		x := l.Front()
		n := len(m)
		for i := range m {
			if x != m[i] || x.Next().Prev() != x || x.Prev() != m[(i+n-1)%n] {
				r.Fail("%s: another node or a wrong link at index %d", what, i)
			}
			x = x.Next()
		}
		r.Check(x == m[0], "%s: the ring does not close after %d nodes", what, n)
		r.Check(l.Back() == m[n-1], "%s: Back is off", what)
		r.Check(l.IsValidNode(m[n-1]) && l.Reachable(m[1], m[0]), "%s: a node is not valid", what)
	}
	l, m := build(0, n)
	same("build", l, m)
	l2, m2 := build(n, n)
	r.Log("InsertFrontList")
	l.InsertFrontList(l2)
	m = append(append([]*node(nil), m2...), m...)
	same("InsertFrontList", l, m)
	l2, m2 = build(n, n)
	r.Log("InsertBackList")
	l.InsertBackList(l2)
	m = append(append([]*node(nil), m...), m2...)
	same("InsertBackList", l, m)
	r.Check(l2.Empty(), "the spliced list is not empty")
	k := len(m) - 1
	r.Check(l.Remove(m[k]) == m[k], "the last node was not removed")
	r.Check(!l.IsValidNode(m[k]), "a removed node is valid")
	m = m[:k]
	same("Remove", l, m)
	k = len(m) - 2
	r.Log("MoveFront")
	l.MoveFront(m[k])
	m = ins(del(m, k), 0, m[k])
	same("MoveFront", l, m)
	r.Log("MoveAfter")
	k = len(m) - 1
	x := m[0]
	l.MoveAfter(x, m[k])
	m = ins(del(m, 0), k, x)
	same("MoveAfter", l, m)
	r.Log("Reverse")
	l.Reverse()
	for i, j := 0, len(m)-1; i < j; i, j = i+1, j-1 {
		m[i], m[j] = m[j], m[i]
	}
	same("Reverse", l, m)
	v := l.Visitor()
	for i := range m {
		r.Check(v.Next() && v.Get() == m[i], "visitor at index %d", i)
	}
	r.Check(!v.Next(), "the visitor goes on past the end")
}

type world struct {
	r    *fz.R
	l    [2]*stl.IntList
	m    [2][]*node
	val  map[*node]int
	free []*node // detached nodes
	name map[*node]int
}

func (w *world) at(m []*node, n *node) int {
	for i, x := range m {
		if x == n {
			return i
		}
	}
	return -1
}

func (w *world) know(n *node, v int) {
	w.val[n] = v
	w.name[n] = len(w.name) + 1
}

func ins(m []*node, k int, n *node) []*node {
	var out []*node
	out = append(out, m[:k]...)
	out = append(out, n)
	return append(out, m[k:]...)
}
func del(m []*node, k int) []*node {
	var out []*node
	out = append(out, m[:k]...)
	return append(out, m[k+1:]...)
}

func (w *world) check() {
	r := w.r
	for k, l := range w.l {
		m := w.m[k]
		n := len(m)
		r.Check(l.Empty() == (n == 0), "list %d: Empty = %v with %d nodes", k, l.Empty(), n)
		if n == 0 {
			r.Check(l.Front() == nil && l.Back() == nil, "list %d is empty but Front/Back are not nil", k)
		} else {
			r.Check(l.Front() == m[0], "list %d: Front is node %d, want node %d", k, w.name[l.Front()], w.name[m[0]])
			r.Check(l.Back() == m[n-1], "list %d: Back is node %d, want node %d", k, w.name[l.Back()], w.name[m[n-1]])
		}
		for i, x := range m {
			nx, pv := m[(i+1)%n], m[(i+n-1)%n]
			r.Check(x.Next() == nx, "list %d: node %d (index %d) has next %d, want %d", k, w.name[x], i, w.name[x.Next()], w.name[nx])
			r.Check(x.Prev() == pv, "list %d: node %d (index %d) has prev %d, want %d", k, w.name[x], i, w.name[x.Prev()], w.name[pv])
			r.Check(x.Get() == w.val[x], "node %d has value %d, want %d", w.name[x], x.Get(), w.val[x])
		}
		v := l.Visitor()
		for i, x := range m {
			ok := v.Next()
			r.Check(ok && v.Get() == x, "list %d: visitor step %d: ok %v at node %d, want node %d", k, i, ok, w.name[v.Get()], w.name[x])
		}
		r.Check(!v.Next(), "list %d: visitor goes on past the end", k)
		v = l.Visitor()
		for i := n - 1; i >= 0; i-- {
			ok := v.Prev()
			r.Check(ok && v.Get() == m[i], "list %d: visitor backward at %d: ok %v at node %d, want node %d", k, i, ok, w.name[v.Get()], w.name[m[i]])
			if i < n-1 && r.Intn(8) == 0 {
				ok := v.Next()
				r.Check(ok && v.Get() == m[i+1], "list %d: visitor Next after Prev is off", k)
				v.Prev()
			}
		}
		r.Check(!v.Prev(), "list %d: visitor goes on before the front", k)
		v.Reset()
		r.Check(v.Next() == (n > 0), "list %d: visitor after Reset", k)
	}
	for x := range w.val {
		for k, l := range w.l {
			in := w.at(w.m[k], x) >= 0
			r.Check(l.IsValidNode(x) == in, "IsValidNode(node %d) of list %d = %v", w.name[x], k, !in)
			if len(w.m[k]) > 0 {
				y := w.m[k][r.Intn(len(w.m[k]))]
				r.Check(l.Reachable(y, x) == in, "Reachable(node %d, node %d) of list %d = %v", w.name[y], w.name[x], k, !in)
			}
		}
	}
	for _, x := range w.free {
		r.Check(x.Next() == nil && x.Prev() == nil, "removed node %d is still linked", w.name[x])
		r.Check(x.Get() == w.val[x], "removed node %d has value %d, want %d", w.name[x], x.Get(), w.val[x])
	}
	r.Check(!w.l[0].IsValidNode(nil) && !w.l[0].Reachable(nil, nil), "nil is a valid node")
}

func history(r *fz.R) {
	w := &world{r: r, val: map[*node]int{}, name: map[*node]int{nil: 0}}
	w.l[0], w.l[1] = stl.NewIntList(), new(stl.IntList)
	maxn := 2 + r.Intn(7)
	steps := 5 + r.Intn(60)
	val, vmod := 0, []int{1, 3, 1 << 30}[r.Intn(3)]
	for s := 0; s < steps; s++ {
		k := r.Intn(2)
		l, m := w.l[k], w.m[k]
		n := len(m)
		val = (val + 1) % vmod
		var pick, pick2 *node
		pi, pj := -1, -1
		if n > 0 {
			pi, pj = r.Intn(n), r.Intn(n)
			if r.Intn(3) == 0 {
				pi = []int{0, n - 1}[r.Intn(2)]
			}
			if r.Intn(3) == 0 {
				pj = []int{0, n - 1}[r.Intn(2)]
			}
			pick, pick2 = m[pi], m[pj]
		}
		takeFree := func() *node {
			if len(w.free) == 0 {
				x := new(node)
				x.Set(val)
				w.know(x, val)
				w.free = append(w.free, x)
			}
			return w.free[r.Intn(len(w.free))]
		}
		unfree := func(x *node) {
			if i := w.at(w.free, x); i >= 0 {
				w.free = del(w.free, i)
			}
		}
		id := w.name[pick]
		op := r.Intn(26)
		if n >= maxn && op < 10 {
			op = 10 + r.Intn(16)
		}
		switch op {
		case 0:
			r.Log("l%d.PushFront(%d)", k, val)
			x := l.PushFront(val)
			w.know(x, val)
			w.m[k] = ins(m, 0, x)
		case 1:
			r.Log("l%d.PushBack(%d)", k, val)
			x := l.PushBack(val)
			w.know(x, val)
			w.m[k] = ins(m, n, x)
		case 2:
			x := takeFree()
			r.Log("l%d.InsertFront(node %d)", k, w.name[x])
			r.Check(l.InsertFront(x) == x, "InsertFront returned another node")
			unfree(x)
			w.m[k] = ins(m, 0, x)
		case 3:
			x := takeFree()
			r.Log("l%d.InsertBack(node %d)", k, w.name[x])
			r.Check(l.InsertBack(x) == x, "InsertBack returned another node")
			unfree(x)
			w.m[k] = ins(m, n, x)
		case 4, 5:
			if pick == nil {
				r.Check(l.PushBefore(val, nil) == nil && l.PushAfter(val, nil) == nil, "pushing beside nil returned a node")
				break
			}
			var x *node
			if op == 4 {
				r.Log("l%d.PushBefore(%d, node %d)", k, val, id)
				x = l.PushBefore(val, pick)
				w.m[k] = ins(m, pi, x)
			} else {
				r.Log("l%d.PushAfter(%d, node %d)", k, val, id)
				x = l.PushAfter(val, pick)
				w.m[k] = ins(m, pi+1, x)
			}
			w.know(x, val)
		case 6, 7:
			if pick == nil {
				break
			}
			x := takeFree()
			if op == 6 {
				r.Log("l%d.InsertBefore(node %d, node %d)", k, w.name[x], id)
				r.Check(l.InsertBefore(x, pick) == x, "InsertBefore returned another node")
				w.m[k] = ins(m, pi, x)
			} else {
				r.Log("l%d.InsertAfter(node %d, node %d)", k, w.name[x], id)
				r.Check(l.InsertAfter(x, pick) == x, "InsertAfter returned another node")
				w.m[k] = ins(m, pi+1, x)
			}
			unfree(x)
		case 8, 9:
			o := w.m[1-k]
			if op == 8 {
				r.Log("l%d.InsertFrontList(l%d)", k, 1-k)
				r.Check(l.InsertFrontList(w.l[1-k]) == (len(o) > 0), "InsertFrontList reported %v for %d nodes", len(o) == 0, len(o))
				w.m[k] = append(append([]*node(nil), o...), m...)
			} else {
				r.Log("l%d.InsertBackList(l%d)", k, 1-k)
				r.Check(l.InsertBackList(w.l[1-k]) == (len(o) > 0), "InsertBackList reported %v for %d nodes", len(o) == 0, len(o))
				w.m[k] = append(append([]*node(nil), m...), o...)
			}
			w.m[1-k] = nil
		case 10, 11:
			var v int
			var ok bool
			if op == 10 {
				r.Log("l%d.PopFront()", k)
				v, ok = l.PopFront()
				pi = 0
			} else {
				r.Log("l%d.PopBack()", k)
				v, ok = l.PopBack()
				pi = n - 1
			}
			if n == 0 {
				r.Check(!ok && v == 0, "pop of an empty list = %d,%v", v, ok)
			} else {
				r.Check(ok && v == w.val[m[pi]], "pop = %d,%v want %d", v, ok, w.val[m[pi]])
				w.free = append(w.free, m[pi])
				w.m[k] = del(m, pi)
			}
		case 12, 13, 14:
			var x *node
			switch op {
			case 12:
				r.Log("l%d.RemoveFront()", k)
				x = l.RemoveFront()
				pi = 0
			case 13:
				r.Log("l%d.RemoveBack()", k)
				x = l.RemoveBack()
				pi = n - 1
			case 14:
				r.Log("l%d.Remove(node %d)", k, id)
				x = l.Remove(pick)
			}
			if n == 0 {
				r.Check(x == nil, "removing from an empty list returned a node")
			} else {
				r.Check(x == m[pi], "removed node %d, want node %d", w.name[x], w.name[m[pi]])
				w.free = append(w.free, m[pi])
				w.m[k] = del(m, pi)
			}
		case 15:
			if len(w.free) > 0 {
				x := w.free[r.Intn(len(w.free))]
				r.Log("l%d.Remove(detached node %d)", k, w.name[x])
				r.Check(l.Remove(x) == nil, "removing a detached node returned a node")
			}
		case 16, 17:
			if pick == nil {
				r.Check(l.MoveFront(nil) == nil && l.MoveBack(nil) == nil, "moving nil returned a node")
				break
			}
			if op == 16 {
				r.Log("l%d.MoveFront(node %d)", k, id)
				x := l.MoveFront(pick)
				r.Check(x == nil || x == pick, "MoveFront returned another node")
				w.m[k] = ins(del(m, pi), 0, pick)
			} else {
				r.Log("l%d.MoveBack(node %d)", k, id)
				x := l.MoveBack(pick)
				r.Check(x == nil || x == pick, "MoveBack returned another node")
				w.m[k] = ins(del(m, pi), n-1, pick)
			}
		case 18, 19, 20, 21:
			if pick == nil {
				break
			}
			var x *node
			q := del(m, pi)
			if op < 20 {
				r.Log("l%d.MoveBefore(node %d, node %d)", k, id, w.name[pick2])
				x = l.MoveBefore(pick, pick2)
				if pi != pj {
					w.m[k] = ins(q, w.at(q, pick2), pick)
				}
			} else {
				r.Log("l%d.MoveAfter(node %d, node %d)", k, id, w.name[pick2])
				x = l.MoveAfter(pick, pick2)
				if pi != pj {
					w.m[k] = ins(q, w.at(q, pick2)+1, pick)
				}
			}
			r.Check(x == nil || x == pick, "move returned another node")
		case 22:
			r.Log("l%d.RotateForward()", k)
			l.RotateForward()
			if n > 0 {
				w.m[k] = ins(m[1:], n-1, m[0])
			}
		case 23:
			r.Log("l%d.RotateBackward()", k)
			l.RotateBackward()
			if n > 0 {
				w.m[k] = ins(m[:n-1], 0, m[n-1])
			}
		case 24:
			r.Log("l%d.Reverse()", k)
			l.Reverse()
			var q []*node
			for i := n - 1; i >= 0; i-- {
				q = append(q, m[i])
			}
			w.m[k] = q
		case 25:
			if r.Intn(4) > 0 {
				if pick != nil {
					r.Log("node %d.Set(%d)", id, val)
					r.Check(pick.Set(val) == w.val[pick], "Set returned another value")
					w.val[pick] = val
				}
				break
			}
			r.Log("l%d.Clear()", k)
			l.Clear()
			for _, x := range m {
				delete(w.val, x)
			}
			w.m[k] = nil
		}
		w.check()
	}
}
