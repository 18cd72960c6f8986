// C13: trees. The tree under consideration has the nodes tOrd[0..tN) in pre-order; a node's subtree
// is the sz nodes from pre on.
package "stl"

ghost var tRoot *IntTreeNode
ghost var tN int
ghost var tOrd [int]*IntTreeNode
ghost field IntTreeNode.pre int
ghost field IntTreeNode.sz int

// its children, as the shape has them
ghost field IntTreeNode.nk int
ghost field IntTreeNode.ch [int]*IntTreeNode

def inT(x) := x != nil && 0 <= x.pre && x.pre < tN && tOrd[x.pre] == x
def wfTOrd() := forall i int {tOrd[i]} :: 0 <= i && i < tN ==> tOrd[i] != nil && allocated(tOrd[i]) && tOrd[i].pre == i
// a node comes first in its subtree, its children's subtrees follow one after the other
def wfTNode(x) := x.sz >= 1 && x.nk >= 0 && x.nk < x.sz && x.pre + x.sz <= tN && (x.nk == 0 ==> x.sz == 1) && (x.nk > 0 ==> x.ch[0].pre == x.pre + 1 && x.ch[x.nk - 1].pre + x.ch[x.nk - 1].sz == x.pre + x.sz)
def wfTKids(x) := forall k int {x.ch[k]} :: 0 <= k && k < x.nk ==> inT(x.ch[k]) && 1 <= x.ch[k].sz && x.ch[k].sz < x.sz && x.ch[k].pre > x.pre && x.ch[k].pre + x.ch[k].sz <= x.pre + x.sz
def wfTNext(x) := forall j int, k int {x.ch[j], x.ch[k]} :: 0 <= j && k == j + 1 && k < x.nk ==> x.ch[k].pre == x.ch[j].pre + x.ch[j].sz
def shape() := tN >= 1 && tN <= maxheap() && inT(tRoot) && tRoot.pre == 0 && tRoot.sz == tN && wfTOrd() && (forall x *IntTreeNode {x.nk} :: inT(x) ==> wfTNode(x) && wfTKids(x) && wfTNext(x))
// the children slices hold that shape
def linkT() := forall x *IntTreeNode {len(x.children.d)} :: inT(x) ==> len(x.children.d) == x.nk && (ref(x.children.d) == 0 || allocated(ref(x.children.d))) && (forall k int {x.children.d[k]} :: 0 <= k && k < x.nk ==> x.children.d[k] == x.ch[k])
def wfT() := shape() && linkT()

// the visitor's stack, as plain sequences; they lead from the root to x
ghost field IntTreeNodeVisitor.vp [int]*IntTreeNode
ghost field IntTreeNodeVisitor.vi [int]int
def linkV(v) := v != nil && len(v.parents) == len(v.brotherIdxes) && (forall k int {v.parents[k]} :: 0 <= k && k < len(v.parents) ==> v.parents[k] == v.vp[k]) && (forall k int {v.brotherIdxes[k]} :: 0 <= k && k < len(v.brotherIdxes) ==> v.brotherIdxes[k] == v.vi[k])
def pathTo(v, x) := (len(v.parents) == 0 ==> x == tRoot) && (len(v.parents) > 0 ==> v.vp[len(v.parents) - 1].ch[v.vi[len(v.parents) - 1]] == x)
def topKid(v) := v.vp[len(v.parents) - 1].ch[v.vi[len(v.parents) - 1]]
def stk1(v) := forall k int {v.vp[k]} :: 0 <= k && k < len(v.parents) ==> inT(v.vp[k]) && v.vp[k].pre >= k && 0 <= v.vi[k] && v.vi[k] < v.vp[k].nk
def stk4(v) := forall j int, k int {v.vp[j], v.vp[k]} :: 0 <= j && k == j + 1 && k < len(v.parents) ==> v.vp[k] == v.vp[j].ch[v.vi[j]]
def wfStack(v) := linkV(v) && (len(v.parents) > 0 ==> v.vp[0] == tRoot) && stk1(v) && stk4(v)
def ownStack(v) := v != nil && ref(v.parents) != 0 && (forall x *IntTreeNode {len(x.children.d)} :: inT(x) ==> ref(x.children.d) != ref(v.parents))
def same1(a, b) := ref(a) == ref(b) && a.off == b.off && cap(a) == cap(b)
def sameBufs(v) := (same1(v.parents, old(v.parents)) || fresh(v.parents)) && (same1(v.brotherIdxes, old(v.brotherIdxes)) || fresh(v.brotherIdxes))
def atNode(v) := v.node != nil && inT(v.node) && wfStack(v) && pathTo(v, v.node)
def isFresh(v) := v.node == nil && linkV(v) && len(v.parents) == 1 && v.vp[0] == tRoot && v.vi[0] == -1
def isDone(v) := v.node == nil && linkV(v) && len(v.parents) == 0
def wfV(v) := wfT() && ownStack(v) && (atNode(v) || isFresh(v) || isDone(v))

func (this *IntTreeNodeVisitor) push(n, bIdx) {
  prop C13
  requires linkV(this) && len(this.parents) <= maxss()
  modifies this.parents, this.brotherIdxes, this.vp, this.vi, this.parents[0:cap(this.parents)], this.brotherIdxes[0:cap(this.brotherIdxes)]
  exitghost this.vp := this.vp[len(this.parents) - 1 := n]
  exitghost this.vi := this.vi[len(this.brotherIdxes) - 1 := bIdx]
  ensures [stack] linkV(this) && len(this.parents) == old(len(this.parents)) + 1 && this.vp == old(this.vp)[old(len(this.parents)) := n] && this.vi == old(this.vi)[old(len(this.parents)) := bIdx]
  ensures [buffers] sameBufs(this) && ref(this.parents) != 0
}
func (this *IntTreeNodeVisitor) pop() (n, bIdx) {
  prop C13
  requires linkV(this)
  modifies this.parents, this.brotherIdxes
  ensures [empty] old(len(this.parents)) == 0 ==> n == nil && bIdx == 0 && len(this.parents) == 0
  ensures [top] old(len(this.parents)) > 0 ==> len(this.parents) == old(len(this.parents)) - 1 && n == this.vp[len(this.parents)] && bIdx == this.vi[len(this.parents)]
  ensures [buffers] linkV(this) && same1(this.parents, old(this.parents)) && same1(this.brotherIdxes, old(this.brotherIdxes))
}
func (this *IntTreeNodeVisitor) tail() (n, bIdx) {
  prop C13
  requires linkV(this)
  modifies nothing
  ensures [empty] len(this.parents) == 0 ==> n == nil && bIdx == 0
  ensures [top] len(this.parents) > 0 ==> n == this.vp[len(this.parents) - 1] && bIdx == this.vi[len(this.parents) - 1]
}
func (this *IntTreeNodeVisitor) update_tail(bIdx) (ok) {
  prop C13
  requires linkV(this)
  modifies this.vi, this.brotherIdxes[0:len(this.brotherIdxes)]
  exitghost if len(this.parents) > 0 then this.vi := this.vi[len(this.parents) - 1 := bIdx]
  ensures [result] ok <==> len(this.parents) > 0
  ensures [empty] len(this.parents) == 0 ==> this.vi == old(this.vi)
  ensures [top] len(this.parents) > 0 ==> this.vi == old(this.vi)[len(this.parents) - 1 := bIdx]
  ensures [link] linkV(this)
}
func (this *IntTreeNode) Visitor() (v) {
  prop C13
  requires wfT() && this == tRoot
  modifies nothing
  ensures [fresh] fresh(v) && isFresh(v) && wfV(v)
}
func (this *IntTreeNodeVisitor) top_right(n) (p) {
  prop C13
  requires wfT() && ownStack(this) && (n != nil ==> inT(n) && wfStack(this) && pathTo(this, n))
  modifies this.parents, this.brotherIdxes, this.vp, this.vi, this.parents[0:cap(this.parents)], this.brotherIdxes[0:cap(this.brotherIdxes)]
  ensures [nil] n == nil ==> p == nil
  ensures [last] n != nil ==> inT(p) && p.pre == n.pre + n.sz - 1 && wfStack(this) && pathTo(this, p)
  ensures [own] ownStack(this) && wfT()
  ensures [buffers] sameBufs(this)
  loop 1 {
    invariant [buffers] sameBufs(this)
    invariant inT(n) && l == n.nk && wfT() && ownStack(this) && wfStack(this) && pathTo(this, n) && n.pre + n.sz == old(n.pre + n.sz)
    decreases n.sz
  }
}
func (this *IntTreeNodeVisitor) Next() (ok) {
  prop C13
  requires wfV(this)
  modifies this.node, this.parents, this.brotherIdxes, this.vp, this.vi, this.parents[0:cap(this.parents)], this.brotherIdxes[0:cap(this.brotherIdxes)]
  ensures [wf] wfV(this)
  ensures [first] old(isFresh(this)) ==> ok && this.node == tRoot && this.node.pre == 0
  ensures [next] old(this.node) != nil ==> (ok <==> old(this.node.pre) + 1 < tN) && (ok ==> this.node == tOrd[old(this.node.pre) + 1])
  ensures [end] !ok ==> isDone(this)
  ensures [after_end] old(isDone(this)) ==> !ok
  loop 1 {
    invariant [buffers] sameBufs(this)
    invariant wfT() && ownStack(this)
    invariant this.node != nil ==> atNode(this) && this.node.pre == ite(old(this.node) == nil, 0, old(this.node.pre) + 1)
    invariant this.node == nil && old(isFresh(this)) ==> isFresh(this)
    invariant old(isDone(this)) ==> isDone(this)
    invariant this.node == nil && old(this.node) != nil ==> wfStack(this) && (len(this.parents) == 0 ==> old(this.node.pre) + 1 == tN) && (len(this.parents) > 0 ==> topKid(this).pre + topKid(this).sz == old(this.node.pre) + 1)
    decreases ite(this.node == nil, 1 + len(this.parents), 0)
  }
}
func (this *IntTreeNodeVisitor) Prev() (ok) {
  prop C13
  requires wfV(this)
  modifies this.node, this.parents, this.brotherIdxes, this.vp, this.vi, this.parents[0:cap(this.parents)], this.brotherIdxes[0:cap(this.brotherIdxes)]
  ensures [wf] wfV(this)
  ensures [last] old(isFresh(this)) ==> ok && this.node == tOrd[tN - 1]
  ensures [prev] old(this.node) != nil ==> (ok <==> old(this.node.pre) > 0) && (ok ==> this.node == tOrd[old(this.node.pre) - 1])
  ensures [end] !ok ==> isDone(this)
  ensures [after_end] old(isDone(this)) ==> !ok
}
func (this *IntTreeNodeVisitor) Get() (r) {
  prop C13
  requires this != nil
  modifies nothing
  ensures [value] r == ite(this.node == nil, 0, this.node.val)
}
func (this *IntTreeNode) All() (list) {
  prop C13
  requires wfT() && inT(this)
  modifies nothing
  decreases this.sz
  ensures [fresh] fresh(list)
  ensures [size] len(list) == this.sz
  ensures [preorder] forall k int {list[k]} :: 0 <= k && k < len(list) ==> list[k] == tOrd[this.pre + k].val
  loop 1 {
    invariant [fresh] fresh(list)
    invariant wfT() && 0 <= (rangeindex + 1) && (rangeindex + 1) <= this.nk
    invariant [size] len(list) == ite((rangeindex + 1) == this.nk, this.sz, this.ch[(rangeindex + 1)].pre - this.pre)
    invariant [preorder] forall k int {list[k]} :: 0 <= k && k < len(list) ==> list[k] == tOrd[this.pre + k].val
    decreases this.nk - (rangeindex + 1)
  }
}

// children: the operations act on the indexed child and keep the others in order
def kids(x) := x.children.d
def insertedKid(x, v, idx) := len(kids(x)) == old(len(kids(x))) + 1 && (0 <= idx && idx < old(len(kids(x))) ==> kids(x)[idx] == v && (forall i int :: 0 <= i && i < idx ==> kids(x)[i] == old(kids(x)[i])) && (forall i int :: idx <= i && i < old(len(kids(x))) ==> kids(x)[i + 1] == old(kids(x)[i]))) && (!(0 <= idx && idx < old(len(kids(x)))) ==> kids(x)[len(kids(x)) - 1] == v && (forall i int :: 0 <= i && i < old(len(kids(x))) ==> kids(x)[i] == old(kids(x)[i])))
func (this *IntTreeNode) AddChild(v, idx) (child) {
  prop C13
  requires this != nil && len(this.children.d) <= maxss()
  modifies this.children.d, this.children.d[0:cap(this.children.d)]
  ensures [new] fresh(child) && child.val == v && len(child.children.d) == 0
  ensures [inserted] insertedKid(this, child, idx)
}
func (this *IntTreeNode) AddChildNode(node, idx) (child) {
  prop C13
  requires this != nil && len(this.children.d) <= maxss()
  modifies this.children.d, this.children.d[0:cap(this.children.d)]
  ensures [same] child == node
  ensures [inserted] insertedKid(this, node, idx)
}
func (this *IntTreeNode) NumChildren() (n) {
  prop C13
  requires this != nil
  modifies nothing
  ensures [count] n == len(this.children.d)
}
func (this *IntTreeNode) Children() (r) {
  prop C13
  requires this != nil
  modifies nothing
  ensures [same] r == this.children.d
}
func (this *IntTreeNode) GetChild(idx) (child, ok) {
  prop C13
  requires this != nil
  modifies nothing
  ensures [ok] ok <==> 0 <= idx < len(this.children.d)
  ensures [value] child == ite(ok, this.children.d[idx], nil)
}
func (this *IntTreeNode) RemoveChild(idx) (child, ok) {
  prop C13
  requires this != nil
  modifies this.children.d, this.children.d[0:len(this.children.d)]
  ensures [ok] ok <==> 0 <= idx < old(len(this.children.d))
  ensures [value] child == ite(ok, old(this.children.d[idx]), nil)
  ensures [len] len(this.children.d) == ite(ok, old(len(this.children.d)) - 1, old(len(this.children.d)))
  ensures [before] ok ==> (forall i int :: 0 <= i < idx ==> this.children.d[i] == old(this.children.d[i]))
  ensures [after] ok ==> (forall i int :: idx <= i < len(this.children.d) ==> this.children.d[i] == old(this.children.d[i + 1]))
  ensures [unchanged] !ok ==> (forall i int :: 0 <= i < len(this.children.d) ==> this.children.d[i] == old(this.children.d[i]))
}
func (this *IntTreeNode) SortChildren() {
  prop C12
  requires this != nil && (forall k int :: 0 <= k < len(this.children.d) ==> this.children.d[k] != nil)
  modifies this.children.d[*]
  ensures [ascending] forall a int, b int :: 0 <= a < b < len(this.children.d) ==> this.children.d[a].val <= this.children.d[b].val
  ensures [permutation] forall v int :: cnt(elems(this.children.d), this.children.d.off, this.children.d.off + len(this.children.d), v) == old(cnt(elems(this.children.d), this.children.d.off, this.children.d.off + len(this.children.d), v))
}
