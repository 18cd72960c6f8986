// C07: doubly linked lists. A list's nodes are at[0..n); a node knows its position.
package "stl"

ghost field IntList.n int
ghost field IntList.at [int]*IntListNode
ghost field IntListNode.pos int
ghost field IntListNodeVisitor.l *IntList

def inList(l, x) := x != nil && 0 <= x.pos && x.pos < l.n && l.at[x.pos] == x
def nx(l, i) := ite(i == l.n - 1, 0, i + 1)
def pv(l, i) := ite(i == 0, l.n - 1, i - 1)
// the head pointer and both link directions of every node agree with the sequence
def wfAt(l) := forall i int {l.at[i]} :: 0 <= i && i < l.n ==> l.at[i] != nil && allocated(l.at[i]) && l.at[i].pos == i
def wfNext(l) := forall x *IntListNode {x.next} :: inList(l, x) ==> x.next == l.at[nx(l, x.pos)]
def wfPrev(l) := forall x *IntListNode {x.prev} :: inList(l, x) ==> x.prev == l.at[pv(l, x.pos)]
def wf(l) := l != nil && l.n >= 0 && (l.n == 0 <==> l.head == nil) && (l.n > 0 ==> l.head == l.at[0]) && wfAt(l) && wfNext(l) && wfPrev(l)
def sameLinks(x) := x.next == old(x.next) && x.prev == old(x.prev) && x.pos == old(x.pos)
def linked(x) := x != nil && x.next != nil && x.prev != nil


func (this *IntListNode) Get() (r) {
  prop C07, C08
  requires this != nil
  modifies nothing
  ensures [value] r == this.val
}
func (this *IntListNode) Set(v) (o) {
  prop C07
  requires this != nil
  modifies this.val
  ensures [value] this.val == v && o == old(this.val)
}
func (this *IntListNode) Next() (r) {
  prop C07
  modifies nothing
  ensures [link] r == ite(this == nil, nil, this.next)
}
func (this *IntListNode) Prev() (r) {
  prop C07
  modifies nothing
  ensures [link] r == ite(this == nil, nil, this.prev)
}
def wfVisitor(v) := v != nil && wf(v.l) && v.head == v.l.head && (v.node == nil || inList(v.l, v.node))
func (this *IntListNodeVisitor) Reset() {
  prop C07
  requires this != nil
  modifies this.node
  ensures [fresh] this.node == nil
}
func (this *IntListNodeVisitor) Next() (ok) {
  prop C07
  requires wfVisitor(this)
  modifies this.node
  ensures [first] old(this.node) == nil ==> (ok <==> this.l.n > 0) && this.node == ite(ok, this.l.at[0], nil)
  ensures [next] old(this.node) != nil ==> (ok <==> old(this.node).pos != this.l.n - 1) && this.node == this.l.at[nx(this.l, old(this.node).pos)]
  ensures [wf] wfVisitor(this)
}
func (this *IntListNodeVisitor) Prev() (ok) {
  prop C07
  requires wfVisitor(this)
  modifies this.node
  ensures [last] old(this.node) == nil ==> (ok <==> this.l.n > 0) && this.node == ite(ok, this.l.at[this.l.n - 1], nil)
  ensures [prev] old(this.node) != nil ==> (ok <==> old(this.node).pos != 0) && this.node == this.l.at[pv(this.l, old(this.node).pos)]
  ensures [wf] wfVisitor(this)
}
func (this *IntListNodeVisitor) Get() (r) {
  prop C07
  requires this != nil
  modifies nothing
  ensures [node] r == this.node
}
func (this *IntList) Visitor() (r) {
  prop C07
  requires wf(this)
  modifies nothing
  exitghost r.l := this
  ensures [fresh] fresh(r) && wfVisitor(r) && r.l == this && r.node == nil
}
func NewIntList() (r) {
  prop C07
  modifies nothing
  ensures [empty] fresh(r) && r.n == 0 && wf(r)
}
func (this *IntList) Front() (r) {
  prop C07, C08
  requires this != nil
  modifies nothing
  ensures [head] r == this.head
}
func (this *IntList) Back() (r) {
  prop C07, C08
  requires this != nil
  modifies nothing
  ensures [head] r == ite(this.head == nil, nil, this.head.prev)
}
func (this *IntList) Empty() (r) {
  prop C07, C08
  requires this != nil
  modifies nothing
  ensures [empty] r <==> this.head == nil
}
func (this *IntList) Clear() {
  prop C07, C08
  requires this != nil
  modifies this.head, this.n
  exitghost this.n := 0
  ensures [empty] this.head == nil && this.n == 0
}
func (this *IntList) RotateForward() {
  prop C07, C08
  requires wf(this)
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  exitghost all(IntListNode, pos) := mapof x *IntListNode :: ite(inList(this, x), pv(this, x.pos), x.pos)
  exitghost this.at := mapof i int :: this.at[nx(this, i)]
  ensures [wf] wf(this)
  ensures [sequence] this.n == old(this.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at[nx(this, i)]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)
}
func (this *IntList) RotateBackward() {
  prop C07, C08
  requires wf(this)
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  exitghost all(IntListNode, pos) := mapof x *IntListNode :: ite(inList(this, x), nx(this, x.pos), x.pos)
  exitghost this.at := mapof i int :: this.at[pv(this, i)]
  ensures [wf] wf(this)
  ensures [sequence] this.n == old(this.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at[pv(this, i)]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)
}

func (this *IntList) InsertBack(node) (n) {
  prop C07, C08
  requires wf(this) && (node != nil ==> allocated(node) && !inList(this, node))
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  exitghost if node != nil then node.pos := this.n
  exitghost if node != nil then this.at := this.at[this.n := node]
  exitghost if node != nil then this.n := this.n + 1
  ensures [returns] n == node
  ensures [wf] wf(this)
  ensures [nothing] node == nil ==> this.n == old(this.n) && this.at == old(this.at)
  ensures [sequence] node != nil ==> this.n == old(this.n) + 1 && this.at[old(this.n)] == node && (forall i int {this.at[i]} :: 0 <= i && i < old(this.n) ==> this.at[i] == old(this.at[i]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) && x != node ==> sameLinks(x)
}
func (this *IntList) InsertFront(node) (n) {
  prop C07, C08
  requires wf(this) && (node != nil ==> allocated(node) && !inList(this, node))
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  ensures [returns] n == node
  ensures [wf] wf(this)
  ensures [nothing] node == nil ==> this.n == old(this.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at[i]))
  ensures [sequence] node != nil ==> this.n == old(this.n) + 1 && this.at[0] == node && (forall i int {this.at[i]} :: 1 <= i && i < this.n ==> this.at[i] == old(this.at[i - 1]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) && x != node ==> sameLinks(x)
}
func (this *IntList) PushBack(v) (n) {
  prop C07
  requires wf(this)
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  ensures [node] fresh(n) && n.val == v
  ensures [wf] wf(this)
  ensures [sequence] this.n == old(this.n) + 1 && this.at[old(this.n)] == n && (forall i int {this.at[i]} :: 0 <= i && i < old(this.n) ==> this.at[i] == old(this.at[i]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) && old(allocated(x)) ==> sameLinks(x)
}
func (this *IntList) PushFront(v) (n) {
  prop C07
  requires wf(this)
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  ensures [node] fresh(n) && n.val == v
  ensures [wf] wf(this)
  ensures [sequence] this.n == old(this.n) + 1 && this.at[0] == n && (forall i int {this.at[i]} :: 1 <= i && i < this.n ==> this.at[i] == old(this.at[i - 1]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) && old(allocated(x)) ==> sameLinks(x)
}

func (this *IntList) InsertBefore(node, mark) (n) {
  prop C07, C08
  flag inlineall
  requires wf(this) && (node != nil && mark != nil && node != mark ==> allocated(node) && !inList(this, node) && inList(this, mark))
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  exitghost if node != nil && mark != nil && node != mark then this.at := mapof i int :: ite(i < mark.pos, this.at[i], ite(i == mark.pos, node, this.at[i - 1]))
  exitghost if node != nil && mark != nil && node != mark then all(IntListNode, pos) := mapof x *IntListNode :: ite(x == node, old(mark.pos), ite(old(inList(this, x)) && x.pos >= old(mark.pos), x.pos + 1, x.pos))
  exitghost if node != nil && mark != nil && node != mark then this.n := this.n + 1
  ensures [returns] n == node
  ensures [wf] wf(this)
  ensures [nothing] node == nil || mark == nil || node == mark ==> this.n == old(this.n) && this.at == old(this.at)
  ensures [positions] node != nil && mark != nil && node != mark ==> node.pos == old(mark.pos) && (forall x *IntListNode {x.pos} :: old(inList(this, x)) ==> x.pos == ite(old(x.pos) < old(mark.pos), old(x.pos), old(x.pos) + 1))
  ensures [sequence] node != nil && mark != nil && node != mark ==> this.n == old(this.n) + 1 && this.at[old(mark.pos)] == node && (forall i int {this.at[i]} :: 0 <= i && i < this.n && i != old(mark.pos) ==> this.at[i] == old(this.at[ite(i < mark.pos, i, i - 1)]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) && x != node ==> sameLinks(x)
}
func (this *IntList) InsertAfter(node, mark) (n) {
  prop C07
  flag inlineall
  requires wf(this) && (node != nil && mark != nil && node != mark ==> allocated(node) && !inList(this, node) && inList(this, mark))
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  exitghost if node != nil && mark != nil && node != mark then this.at := mapof i int :: ite(i <= mark.pos, this.at[i], ite(i == mark.pos + 1, node, this.at[i - 1]))
  exitghost if node != nil && mark != nil && node != mark then all(IntListNode, pos) := mapof x *IntListNode :: ite(x == node, old(mark.pos) + 1, ite(old(inList(this, x)) && x.pos > old(mark.pos), x.pos + 1, x.pos))
  exitghost if node != nil && mark != nil && node != mark then this.n := this.n + 1
  ensures [returns] n == node
  ensures [wf] wf(this)
  ensures [nothing] node == nil || mark == nil || node == mark ==> this.n == old(this.n) && this.at == old(this.at)
  ensures [sequence] node != nil && mark != nil && node != mark ==> this.n == old(this.n) + 1 && this.at[old(mark.pos) + 1] == node && (forall i int {this.at[i]} :: 0 <= i && i < this.n && i != old(mark.pos) + 1 ==> this.at[i] == old(this.at[ite(i <= mark.pos, i, i - 1)]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) && x != node ==> sameLinks(x)
}
func (this *IntList) PushBefore(v, mark) (n) {
  prop C07
  requires wf(this) && (mark != nil ==> inList(this, mark))
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  ensures [wf] wf(this)
  ensures [nothing] mark == nil ==> n == nil && this.n == old(this.n) && this.at == old(this.at)
  ensures [node] mark != nil ==> fresh(n) && n.val == v
  ensures [sequence] mark != nil ==> this.n == old(this.n) + 1 && this.at[old(mark.pos)] == n && (forall i int {this.at[i]} :: 0 <= i && i < this.n && i != old(mark.pos) ==> this.at[i] == old(this.at[ite(i < mark.pos, i, i - 1)]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) && old(allocated(x)) ==> sameLinks(x)
}
func (this *IntList) PushAfter(v, mark) (n) {
  prop C07
  requires wf(this) && (mark != nil ==> inList(this, mark))
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  ensures [wf] wf(this)
  ensures [nothing] mark == nil ==> n == nil && this.n == old(this.n) && this.at == old(this.at)
  ensures [node] mark != nil ==> fresh(n) && n.val == v
  ensures [sequence] mark != nil ==> this.n == old(this.n) + 1 && this.at[old(mark.pos) + 1] == n && (forall i int {this.at[i]} :: 0 <= i && i < this.n && i != old(mark.pos) + 1 ==> this.at[i] == old(this.at[ite(i <= mark.pos, i, i - 1)]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) && old(allocated(x)) ==> sameLinks(x)
}

func (this *IntList) Remove(node) (n) {
  prop C07, C08
  requires wf(this) && (linked(node) ==> inList(this, node))
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  exitghost if old(linked(node)) then this.at := mapof i int :: ite(i < node.pos, this.at[i], this.at[i + 1])
  exitghost if old(linked(node)) then all(IntListNode, pos) := mapof x *IntListNode :: ite(x == node, -1, ite(old(inList(this, x)) && x.pos > old(node.pos), x.pos - 1, x.pos))
  exitghost if old(linked(node)) then this.n := this.n - 1
  ensures [wf] wf(this)
  ensures [returns] n == ite(old(linked(node)), node, nil)
  ensures [nothing] n == nil ==> this.n == old(this.n) && this.at == old(this.at)
  ensures [detached] n != nil ==> n.next == nil && n.prev == nil && !inList(this, n)
  ensures [positions] n != nil ==> (forall x *IntListNode {x.pos} :: old(inList(this, x)) && x != n ==> x.pos == ite(old(x.pos) < old(node.pos), old(x.pos), old(x.pos) - 1))
  ensures [sequence] n != nil ==> this.n == old(this.n) - 1 && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at[ite(i < node.pos, i, i + 1)]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)
}
func (this *IntList) RemoveFront() (n) {
  prop C07, C08
  requires wf(this)
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  ensures [wf] wf(this)
  ensures [returns] n == ite(old(this.n) == 0, nil, old(this.at[0]))
  ensures [nothing] n == nil ==> this.n == 0
  ensures [detached] n != nil ==> n.next == nil && n.prev == nil && !inList(this, n)
  ensures [positions] n != nil ==> (forall x *IntListNode {x.pos} :: old(inList(this, x)) && x != n ==> x.pos == old(x.pos) - 1)
  ensures [sequence] n != nil ==> this.n == old(this.n) - 1 && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at[i + 1]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)
}
func (this *IntList) RemoveBack() (n) {
  prop C07
  requires wf(this)
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  ensures [wf] wf(this)
  ensures [returns] n == ite(old(this.n) == 0, nil, old(this.at[this.n - 1]))
  ensures [nothing] n == nil ==> this.n == 0
  ensures [detached] n != nil ==> n.next == nil && n.prev == nil && !inList(this, n)
  ensures [sequence] n != nil ==> this.n == old(this.n) - 1 && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at[i]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)
}
func (this *IntList) PopFront() (v, ok) {
  prop C07
  requires wf(this)
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  ensures [wf] wf(this)
  ensures [ok] ok <==> old(this.n) > 0
  ensures [value] v == ite(ok, old(this.at[0].val), 0)
  ensures [sequence] this.n == ite(ok, old(this.n) - 1, 0) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at[i + 1]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)
}
func (this *IntList) PopBack() (v, ok) {
  prop C07
  requires wf(this)
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  ensures [wf] wf(this)
  ensures [ok] ok <==> old(this.n) > 0
  ensures [value] v == ite(ok, old(this.at[this.n - 1].val), 0)
  ensures [sequence] this.n == ite(ok, old(this.n) - 1, 0) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at[i]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)
}

// what moving the element at a to the place k of the shortened sequence does to index i
def moved(i, a, k) := ite(i == k, a, ite(i < k, ite(i < a, i, i + 1), ite(i - 1 < a, i - 1, i)))
func (this *IntList) MoveBack(node) (r) {
  prop C07
  flag inlineall
  requires wf(this) && (linked(node) ==> inList(this, node))
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  exitghost if r != nil then this.at := mapof i int :: old(this.at)[moved(i, old(node.pos), this.n - 1)]
  exitghost if r != nil then all(IntListNode, pos) := mapof x *IntListNode :: ite(x == node, this.n - 1, ite(old(inList(this, x)) && x.pos > old(node.pos), x.pos - 1, x.pos))
  ensures [wf] wf(this)
  ensures [returns] r == ite(old(linked(node)) && this.n > 1, node, nil)
  ensures [nothing] r == nil ==> this.n == old(this.n) && this.at == old(this.at)
  ensures [sequence] r != nil ==> this.n == old(this.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at)[moved(i, old(node.pos), this.n - 1)])
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)
}
func (this *IntList) MoveFront(node) (r) {
  prop C07
  requires wf(this) && (linked(node) ==> inList(this, node))
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  ensures [wf] wf(this)
  ensures [returns] r == ite(old(linked(node)) && this.n > 1, node, nil)
  ensures [nothing] r == nil ==> this.n == old(this.n) && this.at == old(this.at)
  ensures [sequence] r != nil ==> this.n == old(this.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at)[moved(i, old(node.pos), 0)])
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)
}
func (this *IntList) MoveBefore(node, mark) (r) {
  prop C07
  requires wf(this) && (node != nil && mark != nil && node != mark ==> inList(this, node) && inList(this, mark))
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  ensures [wf] wf(this)
  ensures [returns] r != nil ==> r == node
  ensures [nothing] node == nil || mark == nil || node == mark ==> r == nil && this.n == old(this.n) && this.at == old(this.at)
  ensures [sequence] node != nil && mark != nil && node != mark ==> this.n == old(this.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at)[moved(i, old(node.pos), old(ite(node.pos < mark.pos, mark.pos - 1, mark.pos)))])
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)
}
func (this *IntList) MoveAfter(node, mark) (r) {
  prop C07
  requires wf(this) && (node != nil && mark != nil && node != mark ==> inList(this, node) && inList(this, mark))
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  flag inlineall
  exitghost if r != nil then this.at := mapof i int :: old(this.at)[moved(i, old(node.pos), old(ite(node.pos < mark.pos, mark.pos, mark.pos + 1)))]
  exitghost if r != nil then all(IntListNode, pos) := mapof x *IntListNode :: ite(x == node, old(ite(node.pos < mark.pos, mark.pos, mark.pos + 1)), ite(old(inList(this, x)), ite(x.pos > old(node.pos), x.pos - 1, x.pos) + ite(ite(x.pos > old(node.pos), x.pos - 1, x.pos) >= old(ite(node.pos < mark.pos, mark.pos, mark.pos + 1)), 1, 0), x.pos))
  ensures [wf] wf(this)
  ensures [returns] r != nil ==> r == node
  ensures [nothing] node == nil || mark == nil || node == mark ==> r == nil && this.n == old(this.n) && this.at == old(this.at)
  ensures [sequence] node != nil && mark != nil && node != mark ==> this.n == old(this.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at)[moved(i, old(node.pos), old(ite(node.pos < mark.pos, mark.pos, mark.pos + 1)))])
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)
}

def disjoint(a, b) := forall x *IntListNode {x.pos} :: !(inList(a, x) && inList(b, x))
func (this *IntList) InsertBackList(other) (ok) {
  prop C07, C08
  requires wf(this) && wf(other) && this != other && disjoint(this, other)
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos), other.head, other.n
  exitghost this.at := mapof i int :: ite(i < old(this.n), old(this.at)[i], old(other.at)[i - old(this.n)])
  exitghost all(IntListNode, pos) := mapof x *IntListNode :: ite(old(inList(other, x)), x.pos + old(this.n), x.pos)
  exitghost this.n := old(this.n) + old(other.n)
  exitghost other.n := 0
  ensures [wf] wf(this) && wf(other)
  ensures [ok] ok <==> old(other.n) > 0
  ensures [other_emptied] other.n == 0
  ensures [positions] forall x *IntListNode {x.pos} :: (old(inList(this, x)) ==> x.pos == old(x.pos)) && (old(inList(other, x)) ==> x.pos == old(x.pos) + old(this.n))
  ensures [sequence] this.n == old(this.n) + old(other.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == ite(i < old(this.n), old(this.at)[i], old(other.at)[i - old(this.n)]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) && !old(inList(other, x)) ==> sameLinks(x)
}
func (this *IntList) InsertFrontList(other) (ok) {
  prop C07
  requires wf(this) && wf(other) && this != other && disjoint(this, other)
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos), other.head, other.n
  exitghost this.at := mapof i int :: ite(i < old(other.n), old(other.at)[i], old(this.at)[i - old(other.n)])
  exitghost all(IntListNode, pos) := mapof x *IntListNode :: ite(old(inList(other, x)), old(x.pos), ite(old(inList(this, x)), old(x.pos) + old(other.n), x.pos))
  ensures [wf] wf(this) && wf(other)
  ensures [ok] ok <==> old(other.n) > 0
  ensures [other_emptied] other.n == 0
  ensures [sequence] this.n == old(this.n) + old(other.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == ite(i < old(other.n), old(other.at)[i], old(this.at)[i - old(other.n)]))
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) && !old(inList(other, x)) ==> sameLinks(x)
}
def visited(i, a, p) := ite(a < p, a <= i && i < p, i >= a || i < p)
func (this *IntList) Reachable(node, dest) (ok) {
  prop C07
  requires wf(this) && (node == nil || inList(this, node) || node.next == nil)
  modifies nothing
  ensures [exact] ok <==> node != nil && (node == dest || (inList(this, node) && inList(this, dest)))
  loop 1 {
    invariant !ok && node != nil && dest != nil && node != dest && (p != nil ==> inList(this, p) && inList(this, node) && node.next != nil)
    invariant p == nil ==> node.next == nil
    invariant [seen] p != nil ==> (forall i int {this.at[i]} :: 0 <= i && i < this.n && visited(i, node.pos, p.pos) ==> this.at[i] != dest)
    decreases ite(p == nil, 0, ite(node.pos < p.pos, this.n - p.pos + node.pos, node.pos - p.pos))
  }
}
func (this *IntList) IsValidNode(node) (ok) {
  prop C07
  requires wf(this)
  modifies nothing
  ensures [exact] ok <==> inList(this, node)
}
func (this *IntList) Reverse() {
  prop C07
  requires wf(this)
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos)
  ensures [wf] wf(this)
  ensures [sequence] this.n == old(this.n) && (forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at[this.n - 1 - i]))
  loop 1 {
    modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos), r.head, r.n, r.at
    invariant wf(this) && wf(r) && disjoint(this, r) && this.n + r.n == old(this.n)
    invariant [done] forall i int {r.at[i]} :: 0 <= i && i < r.n ==> r.at[i] == old(this.at)[r.n - 1 - i]
    invariant [left] forall i int {this.at[i]} :: 0 <= i && i < this.n ==> this.at[i] == old(this.at)[r.n + i]
    invariant [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)
    decreases this.n
  }
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)
}
