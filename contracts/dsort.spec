// C08: list sort. A node's rank is its position when Sort was called; equal values are ordered by rank.
package "stl"

ghost field IntListNode.rank int
globalinv [C08] gIntListGbl.cmp == 0

def dlt(x, y) := x.val < y.val || (x.val == y.val && x.rank < y.rank)
def sortedD(l) := forall i int, j int {l.at[i], l.at[j]} :: 0 <= i && i < j && j < l.n ==> dlt(l.at[i], l.at[j])
// l holds exactly the nodes of the ranks lo..hi-1
def ranksD(l, lo, hi) := l.n == hi - lo && (forall x *IntListNode {x.pos} :: inList(l, x) <==> lo <= x.rank && x.rank < hi)
def run(l, lo, hi) := wf(l) && sortedD(l) && ranksD(l, lo, hi)

// the ranks of the two merged lists: this holds mLo..mMid-1, other holds mMid..mHi-1
ghost var mLo int
ghost var mMid int
ghost var mHi int
func (this *IntList) merge(other) {
  prop C08
  requires this != other && run(this, mLo, mMid) && run(other, mMid, mHi)
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos), other.head, other.n, other.at
  ensures [merged] run(this, mLo, mHi)
  ensures [other_emptied] wf(other) && other.n == 0
  ensures [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) && !old(inList(other, x)) ==> sameLinks(x)
  loop 1 {
    modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos), other.head, other.n, other.at
    invariant wf(this) && wf(other) && sortedD(this) && sortedD(other) && disjoint(this, other)
    invariant po == other.head && this.n > 0
    invariant (p != nil ==> inList(this, p)) && this.n + other.n == mHi - mLo
    invariant [set] forall x *IntListNode {x.pos} :: inList(this, x) || inList(other, x) <==> mLo <= x.rank && x.rank < mHi
    invariant [later] forall x *IntListNode {x.pos} :: inList(other, x) ==> mMid <= x.rank
    invariant [earlier] forall i int {this.at[i]} :: ite(p == nil, this.n, p.pos) <= i && i < this.n ==> this.at[i].rank < mMid
    invariant [before] other.n > 0 && (p == nil || p.pos > 0) ==> dlt(this.at[ite(p == nil, this.n, p.pos) - 1], other.at[0])
    invariant [others] forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) && !old(inList(other, x)) ==> sameLinks(x)
    decreases other.n + ite(p == nil, 0, this.n - p.pos)
  }
}

// powers of two
fun p2(int) int
axiom p2_zero() {
  flag explicit
  ensures p2(0) == 1
  reason "definition of the powers of two"
}
axiom p2_next(k int) {
  flag explicit
  requires k >= 0
  ensures p2(k + 1) == 2 * p2(k)
  reason "definition of the powers of two"
}
lemma p2_eight(k int) {
  flag explicit
  requires k >= 0
  apply p2_next(k)
  apply p2_next(k + 1)
  apply p2_next(k + 2)
  apply p2_next(k + 3)
  apply p2_next(k + 4)
  apply p2_next(k + 5)
  apply p2_next(k + 6)
  apply p2_next(k + 7)
  ensures p2(k + 8) == 256 * p2(k)
}
lemma p2_large(k int) {
  flag explicit
  requires k >= 48
  apply p2_zero()
  apply p2_eight(0)
  apply p2_eight(8)
  apply p2_eight(16)
  apply p2_eight(24)
  apply p2_eight(32)
  apply p2_eight(40)
  apply p2_next(k - 1)
  induct k
  ih (k - 1)
  ensures p2(k) >= 281474976710656
}

// bin j of the merge sort holds the ranks bB[j+1]..bB[j]-1
ghost var bB [int]int
def mono(n) := (forall j int, k int {bB[j], bB[k]} :: 0 <= j && j <= k && k <= 64 ==> bB[k] <= bB[j]) && (forall j int {bB[j]} :: 0 <= j && j <= 64 ==> bB[j] >= 0 && (n <= j ==> bB[j] == 0))
def binsFrom(b, k) := forall j int {b[j]} {bB[j]} :: k <= j && j < 64 ==> run(b[j], bB[j + 1], bB[j])
def binsBelow(b, k) := forall j int {b[j]} {bB[j]} :: 0 <= j && j < k ==> wf(b[j]) && b[j].n == 0
def sizes(b, k, n) := forall j int {b[j]} {bB[j]} :: k <= j && j < n ==> b[j].n == 0 || b[j].n == p2(j)
def restD(l, c, n) := wf(l) && l.n == n - c && (forall x *IntListNode {x.pos} :: inList(l, x) <==> c <= x.rank && x.rank < n) && (forall i int {l.at[i]} :: 0 <= i && i < l.n ==> l.at[i].rank == c + i)
def elsewhere() := forall x *IntListNode {x.next} {x.prev} {x.pos} :: !old(inList(this, x)) ==> sameLinks(x)

func (this *IntList) mergeSort() {
  prop C08
  requires wf(this) && this.n <= maxheap()
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos), all(IntListNode, rank), mLo, mMid, mHi, bB
  entryghost all(IntListNode, rank) := mapof x *IntListNode :: ite(inList(this, x), x.pos, -1)
  entryghost bB := mapof j int :: 0
  entryapply p2_zero()
  ensures [wf] wf(this)
  ensures [same_nodes] this.n == old(this.n) && (forall x *IntListNode {x.pos} :: inList(this, x) <==> old(inList(this, x)))
  ensures [ordered] forall i int, j int {this.at[i], this.at[j]} :: 0 <= i && i < j && j < this.n ==> this.at[i].val <= this.at[j].val
  ensures [stable] forall x *IntListNode, y *IntListNode {x.pos, y.pos} :: inList(this, x) && inList(this, y) && x.pos < y.pos && x.val == y.val ==> old(x.pos) < old(y.pos)
  ensures [others] elsewhere()
  loop 1 {
    hint [low] binsBelow(binList, i)
    hint [placed] run(binList[i], bB[i + 1], bB[i])
    hint [high] binsFrom(binList, i + 1)
    invariant 0 <= nFilledBin && nFilledBin <= 48 && (nFilledBin == 0 ==> this.n == old(this.n))
    invariant [rest] restD(this, bB[0], old(this.n)) && 0 <= bB[0] && bB[0] <= old(this.n)
    invariant [hand] wf(hand) && hand.n == 0
    invariant [mono] mono(nFilledBin)
    invariant [bins] binsFrom(binList, 0) && sizes(binList, 0, nFilledBin)
    invariant [others] elsewhere()
    decreases this.n
  }
  loop 2 {
    initghost mMid := bB[0]
    initghost mHi := bB[0] + 1
    initghost bB := bB[0 := bB[0] + 1]
    initghost mLo := bB[1]
    ghost mMid := bB[i]
    ghost bB := bB[i := mHi]
    ghost mLo := bB[i + 1]
    apply p2_next(i - 1)
    apply p2_large(i)
    invariant 0 <= i && i < 48 && i <= nFilledBin && nFilledBin <= 48 && mLo == bB[i + 1] && mLo <= mMid && mMid < mHi
    invariant [rest] restD(this, mHi, old(this.n)) && mHi <= old(this.n)
    invariant [hand] run(hand, mMid, mHi) && hand.n == p2(i)
    invariant [carry] (forall j int {bB[j]} :: 0 <= j && j <= i ==> bB[j] == mHi) && (i == nFilledBin ==> mMid == 0)
    invariant [mono] mono(max(nFilledBin, i + 1))
    invariant [below] binsBelow(binList, i)
    invariant [bin] run(binList[i], mLo, mMid)
    invariant [above] binsFrom(binList, i + 1) && sizes(binList, i, nFilledBin)
    invariant [others] elsewhere()
    decreases nFilledBin - i
  }
  loop 3 {
    initghost mHi := bB[0]
    initghost mMid := bB[1]
    initghost mLo := bB[2]
    ghost mMid := bB[i]
    ghost mLo := bB[i + 1]
    invariant 1 <= i && i <= nFilledBin && nFilledBin <= 48 && mHi == old(this.n) && mMid == bB[i] && mLo == bB[i + 1]
    invariant [mono] mono(nFilledBin)
    invariant [done] run(binList[i - 1], bB[i], mHi)
    invariant [below] binsBelow(binList, i - 1)
    invariant [above] binsFrom(binList, i)
    invariant [others] elsewhere()
    decreases nFilledBin - i
  }
}
func (this *IntList) Sort() {
  prop C08
  requires wf(this) && this.n <= maxheap()
  modifies this.head, this.n, this.at, all(IntListNode, next), all(IntListNode, prev), all(IntListNode, pos), all(IntListNode, rank), mLo, mMid, mHi, bB
  ensures [wf] wf(this)
  ensures [same_nodes] this.n == old(this.n) && (forall x *IntListNode {x.pos} :: inList(this, x) <==> old(inList(this, x)))
  ensures [ordered] forall i int, j int {this.at[i], this.at[j]} :: 0 <= i && i < j && j < this.n ==> this.at[i].val <= this.at[j].val
  ensures [stable] forall x *IntListNode, y *IntListNode {x.pos, y.pos} :: inList(this, x) && inList(this, y) && x.pos < y.pos && x.val == y.val ==> old(x.pos) < old(y.pos)
  ensures [others] elsewhere()
}
