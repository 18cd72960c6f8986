package main

import (
	"falsify/fz"

	"github.com/vipally/gx/stl"
)

// the reference tree
type node struct {
	val  int
	kids []*node
	real *stl.IntTreeNode
}

func (n *node) walk(f func(*node)) {
	f(n)
	for _, k := range n.kids {
		k.walk(f)
	}
}

func main() {
	fz.Main("C13", func(r *fz.R) {
		for r.Cases < 300 || r.More() {
			r.Case(func() { one(r) })
		}
	})
}

func one(r *fz.R) {
	var root *node
	size := 1 + r.Intn(12)
	if r.Intn(6) == 0 {
		size = 1 + r.Intn(120)
		if r.Intn(12) == 0 {
			size = r.Big(1000)
		}
	}
	// The root is a child of a scratch node: its value is then ours to choose.
	top := new(stl.IntTreeNode)
	root = &node{val: r.Intn(9)}
	root.real = top.AddChild(root.val, -1)
	r.Log("root := new(stl.IntTreeNode).AddChild(%d, -1)", root.val)
	all := []*node{root}
	shape := r.Intn(4)
	pick := func() int {
		switch shape {
		case 0:
			return len(all) - 1 // a chain
		case 1:
			return 0 // a broom
		case 2:
			return r.Intn((len(all)+2)/3) + (len(all)-1)/2*(len(all)%2) // skewed
		}
		return r.Intn(len(all))
	}
	for len(all) < size {
		pi := pick() % len(all)
		p := all[pi]
		idx := r.Intn(len(p.kids)+4) - 2
		c := &node{val: r.Intn(9)}
		if r.Intn(3) == 0 {
			r.Log("n%d := a fresh node with value %d; n%d.AddChildNode(n%d, %d)", len(all), c.val, pi, len(all), idx)
			c.real = new(stl.IntTreeNode).AddChild(c.val, 0)
			got := p.real.AddChildNode(c.real, idx)
			r.Check(got == c.real, "AddChildNode returned another node than the one added")
		} else {
			r.Log("n%d := n%d.AddChild(%d, %d)", len(all), pi, c.val, idx)
			c.real = p.real.AddChild(c.val, idx)
			r.Check(c.real != nil, "AddChild returned nil")
		}
		at := idx
		if at < 0 || at >= len(p.kids) {
			at = len(p.kids)
		}
		p.kids = append(p.kids, nil)
		copy(p.kids[at+1:], p.kids[at:])
		p.kids[at] = c
		all = append(all, c)
		kids(r, p)
		r.Check(c.real.NumChildren() == 0, "a new child already has %d children", c.real.NumChildren())
	}
	check(r, root)
	for k := r.Intn(4); k > 0; k-- {
		// removals, also of whole subtrees
		var cur []*node
		root.walk(func(n *node) { cur = append(cur, n) })
		p := cur[r.Intn(len(cur))]
		idx := r.Intn(len(p.kids)+4) - 2
		c, ok := p.real.RemoveChild(idx)
		r.Log("RemoveChild(%d) of a node with %d children = %v, %v", idx, len(p.kids), c != nil, ok)
		in := idx >= 0 && idx < len(p.kids)
		r.Check(ok == in, "RemoveChild(%d) with %d children reported %v", idx, len(p.kids), ok)
		if in {
			r.Check(c == p.kids[idx].real, "RemoveChild(%d) returned another child", idx)
			p.kids = append(p.kids[:idx:idx], p.kids[idx+1:]...)
		} else {
			r.Check(c == nil, "RemoveChild(%d) out of range returned a node", idx)
		}
		kids(r, p)
		check(r, root)
	}
}

func kids(r *fz.R, p *node) {
	r.Check(p.real.NumChildren() == len(p.kids), "NumChildren is %d, want %d", p.real.NumChildren(), len(p.kids))
	cs := p.real.Children()
	r.Check(len(cs) == len(p.kids), "Children has %d, want %d", len(cs), len(p.kids))
	for i, k := range p.kids {
		r.Check(cs[i] == k.real, "Children()[%d] is another node", i)
	}
	for i := -2; i < len(p.kids)+2; i++ {
		c, ok := p.real.GetChild(i)
		if i >= 0 && i < len(p.kids) {
			r.Check(ok && c == p.kids[i].real, "GetChild(%d) is not the child added there (ok=%v)", i, ok)
		} else {
			r.Check(!ok && c == nil, "GetChild(%d) with %d children reported a child", i, len(p.kids))
		}
	}
}

func check(r *fz.R, root *node) {
	var want []int
	root.walk(func(n *node) { want = append(want, n.val) })
	got := root.real.All()
	r.Check(same(got, want), "All() = %v, want %v", got, want)
	n := len(want)

	// forward to the end
	v := root.real.Visitor()
	r.Check(v.Get() == 0, "Get before the first step = %d", v.Get())
	for i := 0; i < n; i++ {
		ok := v.Next()
		r.Check(ok && v.Get() == want[i], "fresh visitor: step %d of Next gave %v, value %d, want true, %d (pre-order %v)", i+1, ok, v.Get(), want[i], want)
	}
	for k := 0; k < 3; k++ {
		r.Check(!v.Next(), "Next after the last of %d nodes reported another node (pre-order %v)", n, want)
	}
	r.Check(!v.Prev(), "Prev after the end reported a node")
	// backward to the beginning
	v = root.real.Visitor()
	for i := n - 1; i >= 0; i-- {
		ok := v.Prev()
		r.Check(ok && v.Get() == want[i], "fresh visitor: step %d of Prev gave %v, value %d, want true, %d (pre-order %v)", n-i, ok, v.Get(), want[i], want)
	}
	for k := 0; k < 3; k++ {
		r.Check(!v.Prev(), "Prev before the first node reported another node (pre-order %v)", want)
	}
	r.Check(!v.Next(), "Next after leaving the tree backwards reported a node")
	// back and forth
	v = root.real.Visitor()
	pos := -1
	steps := r.Intn(4 * n)
	var log []byte
	for k := 0; k < steps; k++ {
		fwd := r.Intn(5) > 1
		if k > steps/2 {
			fwd = r.Intn(5) > 2
		}
		var ok bool
		if pos == -1 {
			if fwd {
				ok, pos = v.Next(), 0
			} else {
				ok, pos = v.Prev(), n-1
			}
		} else if fwd {
			ok = v.Next()
			pos++
		} else {
			ok = v.Prev()
			pos--
		}
		if fwd {
			log = append(log, 'N')
		} else {
			log = append(log, 'P')
		}
		if pos < 0 || pos >= n {
			r.Check(!ok, "after steps %s the visitor should have left the tree (pre-order %v)", log, want)
			return
		}
		r.Check(ok && v.Get() == want[pos], "after steps %s the visitor is at %v, value %d, want value %d (pre-order %v)", log, ok, v.Get(), want[pos], want)
	}
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
