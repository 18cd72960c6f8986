// C04, C05, C06: binary heaps in slices.
package "stl"

// le: c does not beat p (p may stand above c). cmp 0 (Lesser) is a max-top heap, cmp 1 a min-top heap.
def le(cmp, c, p) := ite(cmp == 0, c <= p, ite(cmp == 1, p <= c, true))
def okcmp(h) := h != nil && (h.cmp == 0 || h.cmp == 1)
def maxheap() := 1099511627776
fun up(int) int
axiom up_def(i int) {
  requires i >= 1
  ensures 2 * up(i) + 1 <= i && i <= 2 * up(i) + 2
  trigger {up(i)}
  reason "definition of the parent index"
}
// the heap order holds below every parent index >= k
def heapFrom(b, n, k, cmp) := forall i int {up(i)} :: 1 <= i && i < n && up(i) >= k ==> le(cmp, b[i], b[up(i)])
def isHeap(b, n, cmp) := forall i int {up(i)} :: 1 <= i && i < n ==> le(cmp, b[i], b[up(i)])
// an arbitrary value: what is proved of its number of occurrences holds of every value's
ghost var qx int
def occ(b) := cnt(elems(b), b.off, b.off + len(b), qx)

lemma cnt_same(a [int]int, b [int]int, lo int, hi int, v int) {
  requires 0 <= lo
  requires forall i int :: lo <= i && i < hi ==> a[i] == b[i]
  apply cnt_step(a, lo, hi, v)
  apply cnt_step(b, lo, hi, v)
  apply cnt_empty(a, lo, hi, v)
  apply cnt_empty(b, lo, hi, v)
  induct hi
  ih (a, b, lo, hi - 1, v)
  ensures cnt(a, lo, hi, v) == cnt(b, lo, hi, v)
}
lemma cnt_update(a [int]int, lo int, hi int, v int, i int, x int) {
  requires 0 <= lo && lo <= i && i < hi
  apply cnt_step(a, lo, hi, v)
  apply cnt_step(a[i := x], lo, hi, v)
  induct hi
  ih (a, lo, hi - 1, v, i, x)
  apply cnt_same(a[i := x], a, lo, i, v)
  ensures cnt(a[i := x], lo, hi, v) == cnt(a, lo, hi, v) - ite(a[i] == v, 1, 0) + ite(x == v, 1, 0)
  trigger {cnt(a[i := x], lo, hi, v)}
}
// two stretches that read the same hold a value equally often
lemma cnt_shift(a [int]int, lo int, hi int, b [int]int, lo2 int, hi2 int, v int) {
  flag explicit
  requires 0 <= lo && 0 <= lo2 && hi2 - lo2 == hi - lo
  requires forall i int {a[i]} :: lo <= i && i < hi ==> a[i] == b[i - lo + lo2]
  apply cnt_step(a, lo, hi, v)
  apply cnt_step(b, lo2, hi2, v)
  apply cnt_empty(a, lo, hi, v)
  apply cnt_empty(b, lo2, hi2, v)
  induct hi
  ih (a, lo, hi - 1, b, lo2, hi2 - 1, v)
  ensures cnt(a, lo, hi, v) == cnt(b, lo2, hi2, v)
  trigger {cnt(a, lo, hi, v), cnt(b, lo2, hi2, v)}
}
// if one stretch of an array keeps its count and the rest its values, the whole keeps its count
lemma cnt_split(a [int]int, b [int]int, lo int, mid int, hi int, v int) {
  flag explicit
  requires 0 <= lo && lo <= mid && mid <= hi
  requires cnt(a, lo, mid, v) == cnt(b, lo, mid, v)
  requires forall i int {a[i]} :: mid <= i && i < hi ==> a[i] == b[i]
  apply cnt_step(a, lo, hi, v)
  apply cnt_step(b, lo, hi, v)
  induct hi
  ih (a, b, lo, mid, hi - 1, v)
  ensures cnt(a, lo, hi, v) == cnt(b, lo, hi, v)
  trigger {cnt(a, lo, mid, v), cnt(b, lo, mid, v), cnt(b, lo, hi, v)}
}
// the root of a heap stands above every element
lemma heap_roots(a [int]int, off int, n int, cmp int, m int) {
  requires m <= n && (cmp == 0 || cmp == 1)
  requires forall j int {up(j)} :: 1 <= j && j < n ==> le(cmp, a[off + j], a[off + up(j)])
  induct m
  ih (a, off, n, cmp, m - 1)
  apply up_def(m - 1)
  ensures forall i int {a[off + i]} :: 0 <= i && i < m ==> le(cmp, a[off + i], a[off])
}

// history of a limited heap since it was last initialised or popped: how often the
// arbitrary value qx was held at that time or pushed since, and how often it was dropped or evicted
ghost field IntHeap.seen int
ghost field IntHeap.drop int
def full(h) := h.limitN > 0 && len(h.b) >= h.limitN
def keepsBest(h) := h.drop >= 0 && h.seen == occ(h.b) + h.drop && (h.drop > 0 ==> full(h) && (forall i int {h.b[i]} :: 0 <= i && i < len(h.b) ==> le(h.cmp, h.b[i], qx)))

func (this *IntHeap) parent(idx) (r) {
  prop C04, C05, C06
  uses up_def
  requires 0 <= idx
  modifies nothing
  entryapply up_def(idx)
  ensures [parent] idx >= 1 ==> r == up(idx)
}
func (this *IntHeap) lchild(idx) (r) {
  prop C04, C05, C06
  uses up_def
  requires 0 <= idx && idx <= maxheap()
  modifies nothing
  ensures [child] r == 2 * idx + 1 && up(r) == idx && up(r + 1) == idx
}
func (this *IntHeap) cmpV(c, p) (ok) {
  prop C04, C05, C06
  requires this != nil
  modifies nothing
  ensures [order] ok <==> le(this.cmp, c, p)
}
func NewIntHeap(capacity, limitN, maxTop) (r) {
  prop C04, C06
  requires capacity <= maxheap()
  modifies nothing
  ensures [empty] r != nil && fresh(r) && okcmp(r) && len(r.b) == 0
  ensures [orientation] r.cmp == ite(maxTop, 0, 1) && r.limitN == limitN
  ensures [history] keepsBest(r) && r.seen == 0
}
func (this *IntHeap) Init(capacity, limitN, maxTop) {
  prop C04, C06
  requires this != nil && capacity <= maxheap()
  modifies this.b, this.limitN, this.cmp, this.seen, this.drop
  exitghost this.seen := 0
  exitghost this.drop := 0
  exitapply cnt_empty(elems(this.b), this.b.off, this.b.off + len(this.b), qx)
  ensures [history] keepsBest(this) && this.seen == 0
  ensures [empty] len(this.b) == 0 && okcmp(this)
  ensures [orientation] this.cmp == ite(maxTop, 0, 1) && this.limitN == limitN
  ensures [own_buffer] ref(this.b) == old(ref(this.b)) || fresh(this.b)
}
func (this *IntHeap) adjustUp(b, hole, v) {
  prop C04, C05, C06
  uses up_def, cnt_update
  requires okcmp(this) && 0 <= hole && hole == len(b) - 1 && len(b) <= maxheap() && isHeap(b, hole, this.cmp)
  modifies b[0:len(b)]
  ensures [heap] isHeap(b, len(b), this.cmp)
  entryapply cnt_step(elems(b)[b.off + hole := v], b.off, b.off + len(b), qx)
  entryapply cnt_same(elems(b)[b.off + hole := v], elems(b), b.off, b.off + hole, qx)
  ensures [values] occ(b) == old(cnt(elems(b), b.off, b.off + hole, qx)) + ite(v == qx, 1, 0)
  ensures [root] b[0] == v || (hole > 0 && b[0] == old(b[0]))
  loop 1 {
    modifies b[0:len(b)]
    invariant 0 <= hole && hole < len(b) && hole <= old(hole)
    invariant [root] hole > 0 ==> b[0] == old(b[0])
    invariant [order] forall i int {up(i)} :: 1 <= i && i < len(b) && i != hole && up(i) != hole ==> le(this.cmp, b[i], b[up(i)])
    invariant [below] forall i int {up(i)} :: 1 <= i && i < len(b) && up(i) == hole ==> le(this.cmp, b[i], v)
    invariant [skip] forall i int {up(i)} :: 1 <= i && i < len(b) && up(i) == hole && hole >= 1 ==> le(this.cmp, b[i], b[up(hole)])
    invariant [values] cnt(elems(b)[b.off + hole := v], b.off, b.off + len(b), qx) == old(cnt(elems(b)[b.off + hole := v], b.off, b.off + len(b), qx))
    apply up_def(hole)
    decreases hole
  }
  loop 1 alt { // swapping
    modifies b[0:len(b)]
    invariant 0 <= hole && hole < len(b) && hole <= old(hole)
    invariant b[hole] == v
    invariant [root] hole > 0 ==> b[0] == old(b[0])
    invariant [order] forall i int {up(i)} :: 1 <= i && i < len(b) && i != hole && up(i) != hole ==> le(this.cmp, b[i], b[up(i)])
    invariant [below] forall i int {up(i)} :: 1 <= i && i < len(b) && up(i) == hole ==> le(this.cmp, b[i], v)
    invariant [skip] forall i int {up(i)} :: 1 <= i && i < len(b) && up(i) == hole && hole >= 1 ==> le(this.cmp, b[i], b[up(hole)])
    invariant [values] cnt(elems(b)[b.off + hole := v], b.off, b.off + len(b), qx) == old(cnt(elems(b)[b.off + hole := v], b.off, b.off + len(b), qx))
    apply up_def(hole)
    decreases hole
  }
}
func (this *IntHeap) adjustDown(b, hole, v) {
  prop C04, C05, C06
  uses up_def, cnt_update
  requires okcmp(this) && 0 <= hole && hole < len(b) && len(b) <= maxheap() && heapFrom(b, len(b), hole + 1, this.cmp)
  modifies b[0:len(b)]
  ensures [heap] heapFrom(b, len(b), hole, this.cmp)
  ensures [values] occ(b) == old(cnt(elems(b)[b.off + hole := v], b.off, b.off + len(b), qx))
  ensures [top] b[hole] == v || (2 * hole + 1 < len(b) && b[hole] == old(b[2 * hole + 1])) || (2 * hole + 2 < len(b) && b[hole] == old(b[2 * hole + 2]))
  loop 1 {
    modifies b[0:len(b)]
    invariant old(hole) <= hole && hole < len(b) && size == len(b) && l == 2 * hole + 1 && up(l) == hole && up(l + 1) == hole
    invariant [order] forall i int {up(i)} :: 1 <= i && i < len(b) && up(i) >= old(hole) && up(i) != hole ==> le(this.cmp, b[i], b[up(i)])
    invariant [below] forall i int {up(i)} :: 1 <= i && i < len(b) && up(i) == hole && hole > old(hole) ==> le(this.cmp, b[i], b[up(hole)])
    invariant [above] hole > old(hole) ==> le(this.cmp, v, b[up(hole)])
    invariant [path] hole > old(hole) ==> up(hole) >= old(hole)
    invariant [first] hole > old(hole) ==> (b[old(hole)] == old(b[2 * hole + 1]) && 2 * old(hole) + 1 < len(b)) || (b[old(hole)] == old(b[2 * hole + 2]) && 2 * old(hole) + 2 < len(b))
    invariant [start1] hole == old(hole) && l < len(b) ==> b[l] == old(b[2 * hole + 1])
    invariant [start2] hole == old(hole) && l + 1 < len(b) ==> b[l + 1] == old(b[2 * hole + 2])
    invariant [values] cnt(elems(b)[b.off + hole := v], b.off, b.off + len(b), qx) == old(cnt(elems(b)[b.off + hole := v], b.off, b.off + len(b), qx))
    decreases len(b) - hole
  }
  loop 1 alt { // the child found inside the loop
    modifies b[0:len(b)]
    invariant old(hole) <= hole && hole < len(b) && size == len(b) && up(2 * hole + 1) == hole && up(2 * hole + 2) == hole
    invariant [order] forall i int {up(i)} :: 1 <= i && i < len(b) && up(i) >= old(hole) && up(i) != hole ==> le(this.cmp, b[i], b[up(i)])
    invariant [below] forall i int {up(i)} :: 1 <= i && i < len(b) && up(i) == hole && hole > old(hole) ==> le(this.cmp, b[i], b[up(hole)])
    invariant [above] hole > old(hole) ==> le(this.cmp, v, b[up(hole)])
    invariant [path] hole > old(hole) ==> up(hole) >= old(hole)
    invariant [first] hole > old(hole) ==> (b[old(hole)] == old(b[2 * hole + 1]) && 2 * old(hole) + 1 < len(b)) || (b[old(hole)] == old(b[2 * hole + 2]) && 2 * old(hole) + 2 < len(b))
    invariant [start1] hole == old(hole) && 2 * hole + 1 < len(b) ==> b[2 * hole + 1] == old(b[2 * hole + 1])
    invariant [start2] hole == old(hole) && 2 * hole + 2 < len(b) ==> b[2 * hole + 2] == old(b[2 * hole + 2])
    invariant [values] cnt(elems(b)[b.off + hole := v], b.off, b.off + len(b), qx) == old(cnt(elems(b)[b.off + hole := v], b.off, b.off + len(b), qx))
    decreases len(b) - hole
  }
}
func (this *IntHeap) PushHeap(b, v) (r) {
  prop C04, C06
  uses up_def, cnt_update, cnt_shift
  requires okcmp(this) && len(b) < maxheap() && isHeap(b, len(b), this.cmp)
  modifies b[0:cap(b)]
  exitapply heap_roots(elems(r), r.off, len(r), this.cmp, len(r))
  ensures [size] len(r) == len(b) + 1
  ensures [heap] isHeap(r, len(r), this.cmp)
  ensures [top_is_best] forall i int {r[i]} :: 0 <= i && i < len(r) ==> le(this.cmp, r[i], r[0])
  ensures [root] r[0] == v || (len(b) > 0 && r[0] == old(b[0]))
  ensures [adds_v] occ(r) == old(occ(b)) + ite(v == qx, 1, 0)
}
func (this *IntHeap) PopHeap(b) (h, top, ok) {
  prop C04, C05, C06
  uses up_def, cnt_update
  requires okcmp(this) && len(b) <= maxheap() && isHeap(b, len(b), this.cmp)
  modifies b[0:len(b)]
  entryapply heap_roots(elems(b), b.off, len(b), this.cmp, len(b))
  exitapply heap_roots(elems(h), h.off, len(h), this.cmp, len(h))
  exitapply cnt_update(old(elems(b)), b.off, b.off + len(b), qx, b.off, old(b[len(b) - 1]))
  exitapply cnt_update(old(elems(b))[b.off := old(b[len(b) - 1])], b.off, b.off + len(b), qx, b.off + len(b) - 1, old(b[0]))
  exitapply cnt_step(old(elems(b))[b.off := old(b[len(b) - 1])][b.off + len(b) - 1 := old(b[0])], b.off, b.off + len(b), qx)
  exitapply cnt_step(elems(b), b.off, b.off + len(b), qx)
  ensures [ok] ok <==> len(b) > 0
  ensures [empty] !ok ==> top == 0 && len(h) == 0
  ensures [top_is_best] ok ==> top == old(b[0]) && (forall i int {old(b[i])} :: 0 <= i && i < len(b) ==> le(this.cmp, old(b[i]), top))
  ensures [size] ok ==> len(h) == len(b) - 1 && ref(h) == ref(b) && h.off == b.off && cap(h) == cap(b)
  ensures [nil] !ok ==> cap(h) == 0
  ensures [heap] isHeap(h, len(h), this.cmp)
  ensures [rest_below_top] ok ==> (forall i int {h[i]} :: 0 <= i && i < len(h) ==> le(this.cmp, h[i], top))
  ensures [moved_behind] ok ==> b[len(b) - 1] == top
  ensures [removes_top] ok ==> occ(h) == old(occ(b)) - ite(top == qx, 1, 0)
  ensures [permutes] occ(b) == old(occ(b))
}
func (this *IntHeap) CheckHeap(b) (ok) {
  prop C04
  uses up_def
  requires okcmp(this) && len(b) <= maxheap()
  modifies nothing
  ensures [exact] ok <==> isHeap(b, len(b), this.cmp)
  loop 1 {
    invariant i < len(b)
    invariant forall j int {up(j)} :: i < j && 1 <= j && j < len(b) ==> le(this.cmp, b[j], b[up(j)])
    decreases i
  }
  loop 1 alt {
    invariant 1 <= i
    invariant forall j int {up(j)} :: 1 <= j && j < i && j < len(b) ==> le(this.cmp, b[j], b[up(j)])
  }
  loop 1 alt { // ranging
    invariant forall j int {up(j)} :: 1 <= j && j <= rangeindex ==> le(this.cmp, b[j], b[up(j)])
  }
}
func (this *IntHeap) MakeHeap(b) {
  prop C04, C05
  uses up_def
  requires okcmp(this) && len(b) <= maxheap()
  modifies b[0:len(b)]
  exitapply heap_roots(elems(b), b.off, len(b), this.cmp, len(b))
  ensures [heap] isHeap(b, len(b), this.cmp)
  ensures [permutes] occ(b) == old(occ(b))
  ensures [top_is_best] forall i int {b[i]} :: 0 <= i && i < len(b) ==> le(this.cmp, b[i], b[0])
  loop 1 {
    modifies b[0:len(b)]
    invariant -1 <= i && i <= len(b) / 2
    invariant heapFrom(b, len(b), i + 1, this.cmp)
    invariant occ(b) == old(occ(b))
    decreases i
  }
}
func (this *IntHeap) Reverse(b) {
  prop C05
  requires len(b) <= maxheap()
  modifies b[0:len(b)]
  ensures [reversed] forall i int {b[i]} :: 0 <= i && i < len(b) ==> b[i] == old(b[len(b) - 1 - i])
  loop 1 {
    modifies b[0:len(b)]
    invariant l == len(b) - 1 && 2 * i <= l && i >= -1
    invariant forall j int {b[j]} :: (i < j && j < l - i) ==> b[j] == old(b[len(b) - 1 - j])
    invariant forall j int {b[j]} :: (0 <= j && j <= i) || (l - i <= j && j <= l) ==> b[j] == old(b[j])
    decreases i
  }
  loop 1 alt {
    modifies b[0:len(b)]
    invariant 0 <= i && 2 * i <= len(b) + 1 && j == len(b) - 1 - i && l == len(b) - 1
    invariant forall k int {b[k]} :: (0 <= k && k < i) || (len(b) - i <= k && k < len(b)) ==> b[k] == old(b[len(b) - 1 - k])
    invariant forall k int {b[k]} :: i <= k && k < len(b) - i ==> b[k] == old(b[k])
  }
}
func (this *IntHeap) SortHeap(b) (r) {
  prop C05
  uses cnt_split
  requires okcmp(this) && len(b) <= maxheap()
  modifies b[0:len(b)]
  ensures [same_slice] ref(r) == ref(b) && r.off == b.off && len(r) == len(b)
  ensures [ascending] this.cmp == 0 ==> (forall i int, j int {b[i], b[j]} :: 0 <= i && i <= j && j < len(b) ==> b[i] <= b[j])
  ensures [descending] this.cmp == 1 ==> (forall i int, j int {b[i], b[j]} :: 0 <= i && i <= j && j < len(b) ==> b[i] >= b[j])
  ensures [permutes] occ(b) == old(occ(b))
  loop 1 {
    modifies b[0:len(b)]
    invariant ref(t) == ref(b) && t.off == b.off && 0 <= len(t) && len(t) <= len(b)
    invariant isHeap(t, len(t), this.cmp)
    invariant [tail] forall i int, j int {b[i], b[j]} :: len(t) <= i && i <= j && j < len(b) ==> le(this.cmp, b[i], b[j])
    invariant [split] forall i int, j int {b[i], b[j]} :: 0 <= i && i < len(t) && len(t) <= j && j < len(b) ==> le(this.cmp, b[i], b[j])
    invariant occ(b) == old(occ(b))
    decreases len(t)
  }
}
func (this *IntHeap) Buffer() (r) {
  prop C04
  requires this != nil
  modifies nothing
  ensures [same] r == this.b
}
func (this *IntHeap) Size() (n) {
  prop C04, C06
  requires this != nil
  modifies nothing
  ensures [size] n == len(this.b)
}
func (this *IntHeap) Empty() (r) {
  prop C04, C06
  requires this != nil
  modifies nothing
  ensures [empty] r <==> len(this.b) == 0
}
func (this *IntHeap) Top() (top, ok) {
  prop C04, C06
  requires okcmp(this) && isHeap(this.b, len(this.b), this.cmp)
  modifies nothing
  exitapply heap_roots(elems(this.b), this.b.off, len(this.b), this.cmp, len(this.b))
  ensures [ok] ok <==> len(this.b) > 0
  ensures [value] ok ==> top == this.b[0]
  ensures [zero] !ok ==> top == 0
  ensures [best] ok ==> (forall i int {this.b[i]} :: 0 <= i && i < len(this.b) ==> le(this.cmp, this.b[i], top))
}
func (this *IntHeap) Pop() (top, ok) {
  prop C04, C06
  requires okcmp(this) && len(this.b) <= maxheap() && isHeap(this.b, len(this.b), this.cmp)
  modifies this.b, this.b[0:len(this.b)], this.seen, this.drop
  exitghost this.seen := occ(this.b)
  exitghost this.drop := 0
  ensures [ok] ok <==> old(len(this.b)) > 0
  ensures [zero] !ok ==> top == 0 && len(this.b) == 0
  ensures [best] ok ==> top == old(this.b[0]) && (forall i int {old(this.b[i])} :: 0 <= i && i < old(len(this.b)) ==> le(this.cmp, old(this.b[i]), top))
  ensures [size] ok ==> len(this.b) == old(len(this.b)) - 1 && ref(this.b) == old(ref(this.b)) && this.b.off == old(this.b.off) && cap(this.b) == old(cap(this.b))
  ensures [removes_top] ok ==> occ(this.b) == old(occ(this.b)) - ite(top == qx, 1, 0)
  ensures [heap] isHeap(this.b, len(this.b), this.cmp)
  ensures [history] keepsBest(this) && this.seen == occ(this.b)
  ensures [rest_below_top] ok ==> (forall i int {this.b[i]} :: 0 <= i && i < len(this.b) ==> le(this.cmp, this.b[i], top))
}
// a full limited heap admits v only if v does not lose to the top
func (this *IntHeap) Push(v) {
  prop C04, C06
  requires okcmp(this) && len(this.b) < maxheap() && isHeap(this.b, len(this.b), this.cmp) && (this.limitN > 0 ==> len(this.b) <= this.limitN) && keepsBest(this)
  modifies this.b, this.b[0:cap(this.b)], this.seen, this.drop
  exitghost this.seen := old(this.seen) + ite(v == qx, 1, 0)
  exitghost this.drop := old(this.drop) + ite(old(full(this)) && le(this.cmp, v, old(this.b[0])) && old(this.b[0]) == qx, 1, 0) + ite(old(full(this)) && !le(this.cmp, v, old(this.b[0])) && v == qx, 1, 0)
  ensures [keeps_the_best] keepsBest(this)
  ensures [heap] isHeap(this.b, len(this.b), this.cmp)
  ensures [adds_when_room] old(!full(this)) ==> len(this.b) == old(len(this.b)) + 1 && occ(this.b) == old(occ(this.b)) + ite(v == qx, 1, 0)
  ensures [replaces_top] old(full(this)) && le(this.cmp, v, old(this.b[0])) ==> len(this.b) == old(len(this.b)) && occ(this.b) == old(occ(this.b)) - ite(old(this.b[0]) == qx, 1, 0) + ite(v == qx, 1, 0)
  ensures [evicted_is_worst] old(full(this)) && le(this.cmp, v, old(this.b[0])) ==> (forall i int {this.b[i]} :: 0 <= i && i < len(this.b) ==> le(this.cmp, this.b[i], old(this.b[0])))
  ensures [drops_worse] old(full(this)) && !le(this.cmp, v, old(this.b[0])) ==> len(this.b) == old(len(this.b)) && (forall i int {this.b[i]} :: 0 <= i && i < len(this.b) ==> this.b[i] == old(this.b[i]) && le(this.cmp, this.b[i], v))
  ensures [limit] this.limitN > 0 ==> len(this.b) <= this.limitN
}
