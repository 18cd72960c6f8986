package main

import (
	"sort"

	"falsify/fz"

	"github.com/vipally/gx/stl"
)

func val(n *stl.IntTreeNode) int { return n.All()[0] }

func main() {
	fz.Main("C12", func(r *fz.R) {
		for r.Cases < 400 || r.More() {
			r.Case(func() { one(r) })
		}
	})
}

func num(r *fz.R) int {
	switch r.Intn(3) {
	case 0:
		return r.Intn(7) - 3
	case 1:
		return int(r.U64())
	}
	return r.Intn(200) - 100
}

func node(v int) *stl.IntTreeNode { return new(stl.IntTreeNode).AddChild(v, 0) }

func one(r *fz.R) {
	// comparators
	a, b := num(r), num(r)
	if r.Intn(4) == 0 {
		b = a
	}
	na, nb := node(a), node(b)
	if r.Intn(9) == 0 {
		b, nb = a, na
	}
	if r.Intn(3) == 0 { // nodes with children compare by their own value
		na.AddChild(num(r), 0)
		nb.AddChild(num(r), 0)
	}
	m := byte(r.Intn(4))
	if r.Intn(6) == 0 {
		m = byte(r.Intn(256))
	}
	r.Log("comparator %d on %d, %d", m, a, b)
	want := m == 0 && a < b || m == 1 && b < a
	r.Check(stl.CmpInt(m).F(a, b) == want, "CmpInt(%d).F(%d,%d) = %v", m, a, b, !want)
	r.Check(stl.CmpIntTreeNode(m).F(na, nb) == want, "CmpIntTreeNode(%d).F(%d,%d) = %v", m, a, b, !want)
	r.Check(na.Less(nb) == (a < b), "Less(%d,%d) = %v", a, b, na.Less(nb))
	r.Check(stl.CmpInt(m).Lesser() == 0 && stl.CmpInt(m).Greater() == 1 && stl.CmpIntTreeNode(m).Lesser() == 0 && stl.CmpIntTreeNode(m).Greater() == 1, "Lesser/Greater of %d", m)
	big := r.Intn(2) == 0
	wb := byte(0)
	if big {
		wb = 1
	}
	r.Check(byte(stl.CmpInt(m).CreateByBool(big)) == wb, "CmpInt CreateByBool(%v)", big)
	r.Check(byte(stl.CmpIntTreeNode(m).CreateByBool(big)) == wb, "CmpIntTreeNode CreateByBool(%v)", big)
	ns := map[byte]string{0: "Lesser", 1: "Greater"}[m]
	if ns == "" {
		ns = "error cmp value"
	}
	r.Check(stl.CmpInt(m).String() == ns && stl.CmpIntTreeNode(m).String() == ns, "String of %d = %q, %q", m, stl.CmpInt(m).String(), stl.CmpIntTreeNode(m).String())
	names := []string{"", "Lesser", "Greater", "lesser", "greater", "Lesse", "Lesser ", "Great", "<", ">", "less", "LESSER", "GREATER", "\x00", "error cmp value", "0", "1", "Lesserx"}
	nm := names[r.Intn(len(names))]
	if r.Intn(2) == 0 {
		nm = r.Like("Lesser", "Greater")
	} else if r.Intn(10) == 0 {
		k := make([]byte, r.Intn(9))
		r.Read(k)
		nm = string(k)
	}
	r.Log("name %q", nm)
	known := nm == "" || nm == "Lesser" || nm == "Greater"
	wn := byte(0)
	if nm == "Greater" {
		wn = 1
	}
	for i, f := range []func() byte{
		func() byte { return byte(stl.CreateCmpInt(nm)) },
		func() byte { return byte(stl.CreateCmpIntTreeNode(nm)) },
		func() byte { return byte(stl.CmpInt(m).CreateByName(nm)) },
		func() byte { return byte(stl.CmpIntTreeNode(m).CreateByName(nm)) },
	} {
		var g byte
		p := fz.Panics(func() { g = f() })
		r.Check(p == !known, "creator %d on name %q: panics=%v", i, nm, p)
		r.Check(p || g == wn, "creator %d on name %q gives %d", i, nm, g)
	}
	// slices
	n := r.Intn(12)
	if r.Intn(5) == 0 {
		n = r.Intn(120)
		if r.Intn(10) == 0 {
			n = r.Big(3000)
		}
	}
	s, t := stl.NewIntSortSlice(0), stl.NewIntTreeNodeSortSlice(0)
	var vs []int
	for i := 0; i < n; i++ {
		v := num(r)
		if r.Intn(3) == 0 && i > 0 {
			v = vs[r.Intn(i)]
		}
		vs = append(vs, v)
		s.Push(v)
		t.Push(node(v))
	}
	r.Log("values %v", vs)
	if n > 0 {
		for k := 0; k < 4; k++ {
			i, j := r.Intn(n), r.Intn(n)
			w := vs[i] < vs[j]
			r.Check(s.Less(i, j) == w, "Less(%d,%d) = %v", i, j, !w)
			r.Check(t.Less(i, j) == w, "node Less(%d,%d) = %v", i, j, !w)
			s.Swap(i, j)
			t.Swap(i, j)
			vs[i], vs[j] = vs[j], vs[i]
			r.Log("Swap(%d,%d)", i, j)
			for q := range vs {
				r.Check(s.MustGet(q) == vs[q] && val(t.MustGet(q)) == vs[q], "slot %d after Swap(%d,%d): %d, %d want %d", q, i, j, s.MustGet(q), val(t.MustGet(q)), vs[q])
			}
		}
	}
	nodes := map[*stl.IntTreeNode]int{}
	for _, x := range t.Buffer() {
		nodes[x]++
	}
	s.Sort()
	t.Sort()
	r.Log("Sort")
	sort.Ints(vs)
	r.Check(s.Len() == n && t.Len() == n, "sorted length %d, %d want %d", s.Len(), t.Len(), n)
	for q := range vs {
		r.Check(s.MustGet(q) == vs[q], "sorted[%d] = %d, want %d", q, s.MustGet(q), vs[q])
		x := t.MustGet(q)
		r.Check(val(x) == vs[q], "sorted nodes[%d] = %d, want %d", q, val(x), vs[q])
		nodes[x]--
		r.Check(nodes[x] == 0, "sorting duplicated a node")
	}
	// the children of a node
	root := node(0)
	kids := map[*stl.IntTreeNode]int{}
	for i := range vs {
		kids[root.AddChild(vs[(i*7+3)%n], r.Intn(i+1))]++
	}
	root.SortChildren()
	r.Log("children in any order, SortChildren")
	r.Check(root.NumChildren() == n, "%d children after SortChildren, want %d", root.NumChildren(), n)
	last := 0
	for i, x := range root.Children() {
		kids[x]--
		r.Check(kids[x] == 0, "SortChildren lost or duplicated a child at %d", i)
		r.Check(i == 0 || last <= val(x), "children %d and %d after SortChildren: %d, %d", i-1, i, last, val(x))
		last = val(x)
	}
}
