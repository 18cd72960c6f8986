// C09: singly linked lists. A list's nodes are at[0..n); a node knows its position.
// The list's embedded head node is a dummy in front of the first node.
package "stl"

ghost field IntSList.n int
ghost field IntSList.at [int]*IntSListNode
ghost field IntSListNode.pos int
ghost field IntSListNodeVisitor.l *IntSList
ghost var tl *IntSList

def inS(l, x) := x > 0 && 0 <= x.pos && x.pos < l.n && l.at[x.pos] == x
def isHd(l, x) := x == l.head
def sp(l, x) := ite(isHd(l, x), -1, x.pos)
def wfSAt(l) := forall i int {l.at[i]} :: 0 <= i && i < l.n ==> l.at[i] != nil && allocated(l.at[i]) && l.at[i].pos == i
def wfSNext(l) := forall x *IntSListNode {x.next} :: inS(l, x) ==> x.next == ite(x.pos == l.n - 1, nil, l.at[x.pos + 1])
def wfS(l) := l != nil && l.n >= 0 && l.head.next == ite(l.n == 0, nil, l.at[0]) && wfSAt(l) && wfSNext(l)
def sameSLinks(x) := x.next == old(x.next) && x.pos == old(x.pos)

func (this *IntSListNode) Get() (r) {
  prop C09, C10
  requires this != nil
  modifies nothing
  ensures [value] r == this.val
}
func (this *IntSListNode) Set(v) (o) {
  prop C09
  requires this != nil
  modifies this.val
  ensures [value] this.val == v && o == old(this.val)
}
func (this *IntSListNode) Next() (r) {
  prop C09
  modifies nothing
  ensures [link] r == ite(this == nil, nil, this.next)
}
// tl: a list the node is in
func (this *IntSListNode) Tail() (r, size) {
  prop C09
  requires wfS(tl) && tl.n <= maxheap() && (this == nil || inS(tl, this))
  modifies nothing
  ensures [nil] this == nil ==> r == nil && size == 0
  ensures [last] this != nil ==> r == tl.at[tl.n - 1] && size == tl.n - this.pos
  loop 1 {
    invariant inS(tl, r) && size == r.pos - this.pos + 1 && r.pos >= this.pos
    decreases tl.n - r.pos
  }
}
def wfSVisitor(v) := v != nil && wfS(v.l) && v.head == ite(v.l.n == 0, nil, v.l.at[0]) && (v.node == nil || inS(v.l, v.node))
func (this *IntSListNodeVisitor) Next() (ok) {
  prop C09
  requires wfSVisitor(this)
  modifies this.node
  ensures [first] old(this.node) == nil ==> (ok <==> this.l.n > 0) && this.node == ite(ok, this.l.at[0], nil)
  ensures [next] old(this.node) != nil ==> (ok <==> old(this.node).pos != this.l.n - 1) && this.node == ite(ok, this.l.at[old(this.node).pos + 1], nil)
  ensures [wf] wfSVisitor(this)
}
func (this *IntSListNodeVisitor) Get() (r) {
  prop C09
  requires this != nil
  modifies nothing
  ensures [node] r == this.node
}
func (this *IntSList) Visitor() (r) {
  prop C09
  requires wfS(this)
  modifies nothing
  exitghost r.l := this
  ensures [fresh] fresh(r) && wfSVisitor(r) && r.l == this && r.node == nil
}
func NewIntSList() (r) {
  prop C09
  modifies nothing
  ensures [empty] fresh(r) && r.n == 0 && wfS(r)
}
func (this *IntSList) Empty() (r) {
  prop C09, C10
  requires this != nil
  modifies nothing
  ensures [empty] r <==> this.head.next == nil
}
func (this *IntSList) Len() (n) {
  prop C09
  requires wfS(this) && this.n <= maxheap()
  modifies nothing
  ensures [length] n == this.n
  loop 1 {
    modifies v.node
    invariant wfSVisitor(v) && v.l == this && 0 <= n && n <= this.n && v.node == ite(n == 0, nil, this.at[n - 1])
    decreases this.n - n
  }
  loop 1 alt {
    invariant 0 <= n && n <= this.n && p == ite(n == this.n, nil, this.at[n])
    decreases this.n - n
  }
}
func (this *IntSList) Front() (r) {
  prop C09, C10
  requires this != nil
  modifies nothing
  ensures [front] r == this.head.next
}
func (this *IntSList) Clear() {
  prop C09, C10
  requires this != nil
  modifies this.head.next, this.n
  exitghost this.n := 0
  ensures [empty] this.head.next == nil && this.n == 0
}
func (this *IntSList) InsertAfter(node, mark) (n) {
  prop C09, C10
  requires wfS(this) && (node != nil && mark != nil && node != mark ==> allocated(node) && !inS(this, node) && (inS(this, mark) || isHd(this, mark)))
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos)
  exitghost if n != nil then this.at := mapof i int :: ite(i <= sp(this, mark), this.at[i], ite(i == sp(this, mark) + 1, node, this.at[i - 1]))
  exitghost if n != nil then all(IntSListNode, pos) := mapof x *IntSListNode :: ite(x == node, old(sp(this, mark)) + 1, ite(old(inS(this, x)) && x.pos > old(sp(this, mark)), x.pos + 1, x.pos))
  exitghost if n != nil then this.n := this.n + 1
  ensures [wf] wfS(this)
  ensures [returns] n == ite(node != nil && mark != nil && node != mark, node, nil)
  ensures [nothing] n == nil ==> this.n == old(this.n) && this.at == old(this.at)
  ensures [positions] n != nil ==> n.pos == old(sp(this, mark)) + 1 && (forall x *IntSListNode {x.pos} :: old(inS(this, x)) ==> x.pos == ite(old(x.pos) <= old(sp(this, mark)), old(x.pos), old(x.pos) + 1))
  ensures [sequence] n != nil ==> this.n == old(this.n) + 1 && this.at[old(sp(this, mark)) + 1] == node && (forall i int {this.at[i]} :: 0 <= i && i < this.n && i != old(sp(this, mark)) + 1 ==> this.at[i] == old(this.at[ite(i <= sp(this, mark), i, i - 1)]))
  ensures [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !isHd(this, x) && (x != node) ==> sameSLinks(x)
}
func (this *IntSList) PushAfter(v, mark) (n) {
  prop C09
  requires wfS(this) && (mark != nil ==> inS(this, mark))
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos)
  ensures [wf] wfS(this)
  ensures [nothing] mark == nil ==> n == nil && this.n == old(this.n) && this.at == old(this.at)
  ensures [node] mark != nil ==> fresh(n) && n.val == v
  ensures [sequence] mark != nil ==> this.n == old(this.n) + 1 && this.at[old(mark.pos) + 1] == n && (forall i int {this.at[i]} :: 0 <= i && i < this.n && i != old(mark.pos) + 1 ==> this.at[i] == old(this.at[ite(i <= mark.pos, i, i - 1)]))
  ensures [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !isHd(this, x) && (x <= 0 || old(allocated(x))) ==> sameSLinks(x)
}
func (this *IntSList) PushFront(v) (n) {
  prop C09
  requires wfS(this)
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos)
  exitghost all(IntSListNode, pos) := mapof x *IntSListNode :: ite(x == n, 0, ite(old(inS(this, x)), x.pos + 1, x.pos))
  exitghost this.at := mapof i int :: ite(i == 0, n, this.at[i - 1])
  exitghost this.n := this.n + 1
  flag inlineall
  ensures [wf] wfS(this)
  ensures [node] fresh(n) && n.val == v
  ensures [sequence] this.n == old(this.n) + 1 && this.at[0] == n && (forall i int {this.at[i]} :: 1 <= i && i < this.n ==> this.at[i] == old(this.at[i - 1]))
  ensures [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !isHd(this, x) && (x <= 0 || old(allocated(x))) ==> sameSLinks(x)
}
func (this *IntSList) InsertFront(node) (n) {
  prop C09, C10
  requires wfS(this) && (node != nil ==> allocated(node) && !inS(this, node))
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos)
  ensures [wf] wfS(this)
  ensures [returns] n == node
  ensures [nothing] node == nil ==> this.n == old(this.n) && this.at == old(this.at)
  ensures [positions] node != nil ==> (forall x *IntSListNode {x.pos} :: old(inS(this, x)) ==> x.pos == old(x.pos) + 1)
  ensures [sequence] node != nil ==> this.n == old(this.n) + 1 && this.at[0] == node && (forall i int {this.at[i]} :: 1 <= i && i < this.n ==> this.at[i] == old(this.at[i - 1]))
  ensures [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !isHd(this, x) && (x != node) ==> sameSLinks(x)
}
func (this *IntSList) Remove(node) (r) {
  prop C09, C10
  requires wfS(this)
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos)
  exitghost if r != nil then this.at := mapof i int :: ite(i < node.pos, this.at[i], this.at[i + 1])
  exitghost if r != nil then all(IntSListNode, pos) := mapof x *IntSListNode :: ite(x == node, -1, ite(old(inS(this, x)) && x.pos > old(node.pos), x.pos - 1, x.pos))
  exitghost if r != nil then this.n := this.n - 1
  ensures [wf] wfS(this)
  ensures [returns] r == ite(old(inS(this, node)), node, nil)
  ensures [nothing] r == nil ==> this.n == old(this.n) && this.at == old(this.at)
  ensures [detached] r != nil ==> r.next == nil && !inS(this, r)
  ensures [positions] r != nil ==> (forall x *IntSListNode {x.pos} :: old(inS(this, x)) && x != r ==> x.pos == ite(old(x.pos) < old(node.pos), old(x.pos), old(x.pos) - 1))
  ensures [sequence] r != nil ==> this.n == old(this.n) - 1 && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at[ite(i < node.pos, i, i + 1)]))
  ensures [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !isHd(this, x) && (true) ==> sameSLinks(x)
  loop 1 {
    invariant r == nil && node != nil && (inS(this, b) || isHd(this, b))
    invariant [seen] forall i int {this.at[i]} :: 0 <= i && i <= sp(this, b) ==> this.at[i] != node
    decreases this.n - sp(this, b)
  }
}
func (this *IntSList) RemoveFront() (n) {
  prop C09, C10
  requires wfS(this)
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos)
  ensures [wf] wfS(this)
  ensures [returns] n == ite(old(this.n) == 0, nil, old(this.at[0]))
  ensures [nothing] n == nil ==> this.n == 0
  ensures [detached] n != nil ==> n.next == nil && !inS(this, n)
  ensures [positions] n != nil ==> (forall x *IntSListNode {x.pos} :: old(inS(this, x)) && x != n ==> x.pos == old(x.pos) - 1)
  ensures [sequence] n != nil ==> this.n == old(this.n) - 1 && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at[i + 1]))
  ensures [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !isHd(this, x) && (true) ==> sameSLinks(x)
}
func (this *IntSList) PopFront() (v, ok) {
  prop C09
  requires wfS(this)
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos)
  ensures [wf] wfS(this)
  ensures [ok] ok <==> old(this.n) > 0
  ensures [value] v == ite(ok, old(this.at[0].val), 0)
  ensures [sequence] this.n == ite(ok, old(this.n) - 1, 0) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at[i + 1]))
  ensures [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !isHd(this, x) && (true) ==> sameSLinks(x)
}
func (this *IntSList) MoveFront(node) (r) {
  prop C09
  requires wfS(this)
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos)
  exitghost if r != nil then this.at := mapof i int :: old(this.at)[moved(i, old(node.pos), 0)]
  exitghost if r != nil then all(IntSListNode, pos) := mapof x *IntSListNode :: ite(x == node, 0, ite(old(inS(this, x)) && x.pos < old(node.pos), x.pos + 1, x.pos))
  ensures [wf] wfS(this)
  ensures [returns] r == ite(old(inS(this, node)), node, nil)
  ensures [nothing] r == nil ==> this.n == old(this.n) && this.at == old(this.at)
  ensures [sequence] r != nil ==> this.n == old(this.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at)[moved(i, old(node.pos), 0)])
  ensures [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !isHd(this, x) && (true) ==> sameSLinks(x)
  loop 1 {
    invariant r == nil && node != nil && (b != nil ==> inS(this, b) || isHd(this, b))
    invariant [seen] forall i int {this.at[i]} :: 0 <= i && i <= ite(b == nil, this.n - 1, sp(this, b)) ==> this.at[i] != node
    decreases ite(b == nil, 0, this.n - sp(this, b))
  }
}
func (this *IntSList) MoveAfter(node, mark) (r) {
  prop C09
  requires wfS(this) && (mark != nil ==> inS(this, mark))
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos)
  exitghost if r != nil then this.at := mapof i int :: old(this.at)[moved(i, old(node.pos), old(ite(node.pos < mark.pos, mark.pos, mark.pos + 1)))]
  exitghost if r != nil then all(IntSListNode, pos) := mapof x *IntSListNode :: ite(x == node, old(ite(node.pos < mark.pos, mark.pos, mark.pos + 1)), ite(old(inS(this, x)), ite(x.pos > old(node.pos), x.pos - 1, x.pos) + ite(ite(x.pos > old(node.pos), x.pos - 1, x.pos) >= old(ite(node.pos < mark.pos, mark.pos, mark.pos + 1)), 1, 0), x.pos))
  ensures [wf] wfS(this)
  ensures [returns] r != nil ==> r == node
  ensures [nothing] node == nil || mark == nil || node == mark || !old(inS(this, node)) ==> r == nil && this.n == old(this.n) && this.at == old(this.at)
  ensures [sequence] node != nil && mark != nil && node != mark && old(inS(this, node)) ==> this.n == old(this.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at)[moved(i, old(node.pos), old(ite(node.pos < mark.pos, mark.pos, mark.pos + 1)))])
  ensures [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !isHd(this, x) && (true) ==> sameSLinks(x)
  loop 1 {
    invariant r == nil && node != nil && mark != nil && node != mark && (b != nil ==> inS(this, b) || isHd(this, b))
    invariant [seen] forall i int {this.at[i]} :: 0 <= i && i <= ite(b == nil, this.n - 1, sp(this, b)) ==> this.at[i] != node
    decreases ite(b == nil, 0, this.n - sp(this, b))
  }
}
def disjointS(a, b) := forall x *IntSListNode {x.pos} :: !(inS(a, x) && inS(b, x))
func (this *IntSList) PushFrontList(other) {
  prop C09
  requires wfS(this) && wfS(other) && this != other && disjointS(this, other) && other.n <= maxheap()
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos), other.n, tl
  entryghost tl := other
  exitghost this.at := mapof i int :: ite(i < old(other.n), old(other.at)[i], old(this.at)[i - old(other.n)])
  exitghost all(IntSListNode, pos) := mapof x *IntSListNode :: ite(old(inS(this, x)), x.pos + old(other.n), x.pos)
  exitghost this.n := old(this.n) + old(other.n)
  exitghost other.n := 0
  ensures [wf] wfS(this) && wfS(other)
  ensures [other_emptied] other.n == 0
  ensures [sequence] this.n == old(this.n) + old(other.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == ite(i < old(other.n), old(other.at)[i], old(this.at)[i - old(other.n)]))
  ensures [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !old(inS(other, x)) && !isHd(this, x) && !isHd(other, x) ==> sameSLinks(x)
}
func (this *IntSList) Reachable(node, dest) (ok) {
  prop C09
  requires wfS(this) && (node == nil || inS(this, node) || node.next == nil)
  modifies nothing
  ensures [exact] ok <==> node != nil && (node == dest || (inS(this, node) && inS(this, dest) && dest.pos >= node.pos))
  loop 1 {
    invariant !ok && node != nil && dest != nil && node != dest
    invariant p != nil ==> inS(this, p) && inS(this, node) && p.pos > node.pos
    invariant [seen] inS(this, node) ==> (forall i int {this.at[i]} :: node.pos <= i && i < ite(p == nil, this.n, p.pos) ==> this.at[i] != dest)
    decreases ite(p == nil, 0, this.n - p.pos)
  }
}
func (this *IntSList) IsValidNode(node) (ok) {
  prop C09
  requires wfS(this)
  modifies nothing
  ensures [exact] ok <==> inS(this, node)
}
func (this *IntSList) Reverse() {
  prop C09
  requires wfS(this)
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos)
  ensures [wf] wfS(this)
  ensures [sequence] this.n == old(this.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at[this.n - 1 - i]))
  ensures [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !isHd(this, x) && (true) ==> sameSLinks(x)
  loop 1 {
    modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos)
    invariant wfS(this) && this.n <= old(this.n) && p == ite(this.n == old(this.n), nil, old(this.at)[this.n])
    invariant [done] forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at)[this.n - 1 - i]
    invariant [left] forall x *IntSListNode {x.next} {x.pos} :: old(inS(this, x)) && old(x.pos) >= this.n ==> sameSLinks(x) && !inS(this, x)
    invariant [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !isHd(this, x) && (true) ==> sameSLinks(x)
    decreases old(this.n) - this.n
  }
  loop 1 alt { // linking by hand in front of the nodes done so far
    ghost all(IntSListNode, pos) := mapof x *IntSListNode :: ite(x == atstart(p), 0, ite(inS(this, x), x.pos + 1, x.pos))
    ghost this.at := mapof i int :: ite(i == 0, atstart(p), this.at[i - 1])
    ghost this.n := this.n + 1
    invariant wfS(this) && this.n <= old(this.n) && p == ite(this.n == old(this.n), nil, old(this.at)[this.n])
    invariant [done] forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at)[this.n - 1 - i]
    invariant [left] forall x *IntSListNode {x.next} {x.pos} :: old(inS(this, x)) && old(x.pos) >= this.n ==> sameSLinks(x) && !inS(this, x)
    invariant [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !isHd(this, x) && (true) ==> sameSLinks(x)
    decreases old(this.n) - this.n
  }
  loop 1 alt { // turning the links around, the head linked afterwards
    locals prev "*@.IntSListNode"
    ghost if p == nil then all(IntSListNode, pos) := mapof x *IntSListNode :: ite(inS(this, x), this.n - 1 - x.pos, x.pos)
    ghost if p == nil then this.at := mapof i int :: this.at[this.n - 1 - i]
    invariant this.n == old(this.n) && wfSAt(this)
    invariant [before] p != nil ==> inS(this, p) && this.at == old(this.at) && (forall x *IntSListNode {x.pos} :: x.pos == old(x.pos))
    invariant [prev] p != nil ==> prev == ite(p.pos == 0, nil, this.at[p.pos - 1])
    invariant [turned] p != nil ==> (forall x *IntSListNode {x.next} :: old(inS(this, x)) && old(x.pos) < p.pos ==> x.next == ite(old(x.pos) == 0, nil, this.at[x.pos - 1]))
    invariant [left] p != nil ==> (forall x *IntSListNode {x.next} :: old(inS(this, x)) && old(x.pos) >= p.pos ==> x.next == old(x.next))
    invariant [after] p == nil ==> prev == ite(this.n == 0, nil, this.at[0]) && wfSNext(this) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at)[this.n - 1 - i])
    invariant [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !isHd(this, x) ==> sameSLinks(x)
    decreases ite(p == nil, 0, this.n - p.pos)
  }
}

// chains: step(nxt, h, k) is the k-th node from h along the next links nxt
fun step([int]int, int, int) int
axiom step_zero(nxt [int]int, h int) {
  flag explicit
  ensures step(nxt, h, 0) == h
  reason "definition of the k-th node of a chain"
}
axiom step_next(nxt [int]int, h int, k int) {
  flag explicit
  requires k >= 0
  ensures step(nxt, h, k + 1) == nxt[step(nxt, h, k)]
  reason "definition of the k-th node of a chain"
}
// a chain that returns to the node mu after lam steps is periodic from there
lemma step_period(nxt [int]int, h int, mu int, lam int, k int) {
  flag explicit
  requires 0 <= mu && mu <= k && lam >= 1
  requires step(nxt, h, mu + lam) == step(nxt, h, mu)
  apply step_next(nxt, h, k - 1)
  apply step_next(nxt, h, k - 1 + lam)
  induct k
  ih (nxt, h, mu, lam, k - 1)
  ensures step(nxt, h, k + lam) == step(nxt, h, k)
}
lemma step_periods(nxt [int]int, h int, mu int, lam int, k int, q int) {
  flag explicit
  requires 0 <= mu && mu <= k && lam >= 1 && q >= 0
  requires step(nxt, h, mu + lam) == step(nxt, h, mu)
  apply step_period(nxt, h, mu, lam, k + (q - 1) * lam)
  induct q
  ih (nxt, h, mu, lam, k, q - 1)
  ensures step(nxt, h, k + q * lam) == step(nxt, h, k)
}
lemma step_same(nxt [int]int, h int, a int, b int, k int) {
  flag explicit
  requires 0 <= a && 0 <= b && k >= 0
  requires step(nxt, h, a) == step(nxt, h, b)
  apply step_next(nxt, h, a + k - 1)
  apply step_next(nxt, h, b + k - 1)
  induct k
  ih (nxt, h, a, b, k - 1)
  ensures step(nxt, h, a + k) == step(nxt, h, b + k)
}
// the shape of the chain from a node: it ends after cLen nodes (cLam == 0), or it returns to its
// cMu-th node after cLam steps; cS is a multiple of the period past the start of the loop
ghost var cLen int
ghost var cLam int
ghost var cMu int
ghost var cQ int
ghost var cS int
ghost var turns int
def nxt() := fieldmap(IntSListNode, next)
def chainEnds(h) := cLam == 0 && cLen >= 0 && step(nxt(), h, cLen) == nil && (forall k int {step(nxt(), h, k)} :: 0 <= k && k < cLen ==> step(nxt(), h, k) != nil)
def chainLoops(h) := cLam >= 1 && cMu >= 0 && cQ >= 1 && cS == cQ * cLam && cS >= cMu && cS >= 1 && step(nxt(), h, cMu + cLam) == step(nxt(), h, cMu) && (forall k int {step(nxt(), h, k)} :: 0 <= k ==> step(nxt(), h, k) != nil)
func (this *IntSList) HasCycle(head) (ok) {
  prop C09
  requires chainEnds(head) || chainLoops(head)
  modifies turns
  entryghost turns := 0
  entryapply step_zero(nxt(), head)
  entryapply step_periods(nxt(), head, cMu, cLam, cS, cQ)
  exitapply step_next(nxt(), head, turns)
  exitapply step_next(nxt(), head, 2 * turns)
  exitapply step_next(nxt(), head, 2 * turns + 1)
  exitapply step_same(nxt(), head, turns + 1, 2 * turns + 2, cLen - 2 * turns - 2)
  ensures [exact] ok <==> cLam >= 1
  loop 1 {
    modifies turns
    ghost turns := turns + 1
    apply step_next(nxt(), head, turns - 1)
    apply step_next(nxt(), head, 2 * turns - 2)
    apply step_next(nxt(), head, 2 * turns - 1)
    invariant !ok && 0 <= turns && slow == step(nxt(), head, turns) && fast == step(nxt(), head, 2 * turns)
    invariant cLam == 0 ==> 2 * turns <= cLen
    invariant cLam >= 1 ==> turns < cS
    decreases ite(cLam == 0, cLen - turns, cS - turns)
  }
}
