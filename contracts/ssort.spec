// C10: sorting singly linked lists; the argument of dsort.spec.
package "stl"

ghost field IntSListNode.rank int
globalinv [C10] gIntSListGbl.cmp == 0

def sortedS(l) := forall i int, j int {l.at[i], l.at[j]} :: 0 <= i && i < j && j < l.n ==> dlt(l.at[i], l.at[j])
def ranksS(l, lo, hi) := l.n == hi - lo && (forall x *IntSListNode {x.pos} :: x > 0 ==> (inS(l, x) <==> lo <= x.rank && x.rank < hi))
def runS(l, lo, hi) := wfS(l) && sortedS(l) && ranksS(l, lo, hi)

func (this *IntSList) merge(other) {
  prop C10
  requires this != other && runS(this, mLo, mMid) && runS(other, mMid, mHi)
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos), other.n, other.at
  exitghost if this.n < mHi - mLo then all(IntSListNode, pos) := mapof x *IntSListNode :: ite(x != nil && 0 <= x.pos && x.pos < mHi - mLo - this.n && other.at[x.pos] == x, x.pos + this.n, x.pos)
  exitghost this.at := mapof i int :: ite(i < this.n, this.at[i], other.at[i - this.n])
  exitghost this.n := mHi - mLo
  ensures [merged] runS(this, mLo, mHi)
  ensures [other_emptied] wfS(other) && other.n == 0
  ensures [others] forall x *IntSListNode {x.next} {x.pos} :: x > 0 && !(mLo <= x.rank && x.rank < mHi) ==> sameSLinks(x)
  ensures [heads] forall x *IntSListNode {x.next} {x.pos} :: x <= 0 && !isHd(this, x) && !isHd(other, x) ==> sameSLinks(x)
  loop 1 {
    invariant wfS(this) && wfS(other) && sortedS(this) && sortedS(other) && disjointS(this, other)
    invariant po == other.head.next && (inS(this, p) || isHd(this, p)) && this.n + other.n == mHi - mLo
    invariant [set] forall x *IntSListNode {x.pos} :: x > 0 ==> (inS(this, x) || inS(other, x) <==> mLo <= x.rank && x.rank < mHi)
    invariant [later] forall x *IntSListNode {x.pos} :: inS(other, x) ==> mMid <= x.rank
    invariant [earlier] forall i int {this.at[i]} :: sp(this, p) < i && i < this.n ==> this.at[i].rank < mMid
    invariant [before] other.n > 0 && inS(this, p) ==> dlt(p, other.at[0])
    invariant [others] forall x *IntSListNode {x.next} {x.pos} :: !old(inS(this, x)) && !old(inS(other, x)) && !isHd(this, x) && !isHd(other, x) ==> sameSLinks(x)
    decreases other.n + this.n - sp(this, p)
  }
}

def binsFromS(b, k) := forall j int {b[j]} {bB[j]} :: k <= j && j < 64 ==> runS(b[j], bB[j + 1], bB[j])
def binsBelowS(b, k) := forall j int {b[j]} {bB[j]} :: 0 <= j && j < k ==> wfS(b[j]) && b[j].n == 0
def restS(l, c, n) := wfS(l) && l.n == n - c && (forall x *IntSListNode {x.pos} :: x > 0 ==> (inS(l, x) <==> c <= x.rank && x.rank < n)) && (forall i int {l.at[i]} :: 0 <= i && i < l.n ==> l.at[i].rank == c + i)
def elsewhereS() := forall x *IntSListNode {x.next} {x.pos} :: x > 0 && old(allocated(x)) && !old(inS(this, x)) ==> sameSLinks(x)
def firstRank() := forall x *IntSListNode {x.rank} {x.pos} :: x > 0 ==> x.rank == old(ite(inS(this, x), x.pos, -1))
def headsS() := forall l *IntSList {l.head} :: l != this && old(allocated(l)) ==> l.head.next == old(l.head.next)

func (this *IntSList) mergeSort() {
  prop C10
  requires wfS(this) && 1 <= this.n && this.n <= maxheap()
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos), all(IntSListNode, rank), this.head.val, mLo, mMid, mHi, bB
  entryghost all(IntSListNode, rank) := mapof x *IntSListNode :: ite(inS(this, x), x.pos, -1)
  entryghost bB := mapof j int :: 0
  entryapply p2_zero()
  ensures [wf] wfS(this)
  ensures [same_nodes] this.n == old(this.n) && (forall x *IntSListNode {x.pos} :: x > 0 ==> (inS(this, x) <==> old(inS(this, x))))
  ensures [ordered] forall i int, j int {this.at[i], this.at[j]} :: 0 <= i && i < j && j < this.n ==> this.at[i].val <= this.at[j].val
  ensures [stable] forall x *IntSListNode, y *IntSListNode {x.pos, y.pos} :: inS(this, x) && inS(this, y) && x.pos < y.pos && x.val == y.val ==> old(x.pos) < old(y.pos)
  ensures [others] elsewhereS() && headsS()
  loop 1 {
    hint [low] binsBelowS(binList, i)
    hint [placed] runS(binList[i], bB[i + 1], bB[i])
    hint [high] binsFromS(binList, i + 1)
    invariant 0 <= nFilledBin && nFilledBin <= 48 && (nFilledBin == 0 ==> unsorted.n == old(this.n))
    invariant [rest] restS(unsorted, bB[0], old(this.n)) && 0 <= bB[0] && bB[0] <= old(this.n)
    invariant [hand] wfS(hand) && hand.n == 0
    invariant [mono] mono(nFilledBin)
    invariant [bins] binsFromS(binList, 0) && sizes(binList, 0, nFilledBin)
    invariant [rank] firstRank()
    invariant [others] elsewhereS()
    invariant [heads] headsS()
    decreases unsorted.n
  }
  loop 2 {
    initghost mMid := bB[0]
    initghost mHi := bB[0] + 1
    initghost bB := bB[0 := bB[0] + 1]
    initghost mLo := bB[1]
    ghost mMid := bB[i]
    ghost bB := bB[i := mHi]
    ghost mLo := bB[i + 1]
    apply p2_next(i - 1)
    apply p2_large(i)
    hint [untouched] forall x *IntSListNode {x.next} {x.pos} :: x > 0 && !(atstart(mLo) <= x.rank && x.rank < mHi) ==> x.next == atstart(x.next) && x.pos == atstart(x.pos)
    invariant 0 <= i && i < 48 && i <= nFilledBin && nFilledBin <= 48 && mLo == bB[i + 1] && mLo <= mMid && mMid < mHi
    invariant [rest] restS(unsorted, mHi, old(this.n)) && mHi <= old(this.n)
    invariant [hand] runS(hand, mMid, mHi) && hand.n == p2(i)
    invariant [carry] (forall j int {bB[j]} :: 0 <= j && j <= i ==> bB[j] == mHi) && (i == nFilledBin ==> mMid == 0)
    invariant [mono] mono(max(nFilledBin, i + 1))
    invariant [below] binsBelowS(binList, i)
    invariant [bin] runS(binList[i], mLo, mMid)
    invariant [above] binsFromS(binList, i + 1) && sizes(binList, i, nFilledBin)
    invariant [rank] firstRank()
    invariant [others] elsewhereS()
    invariant [heads] headsS()
    decreases nFilledBin - i
  }
  loop 3 {
    initghost mHi := bB[0]
    initghost mMid := bB[1]
    initghost mLo := bB[2]
    ghost mMid := bB[i]
    ghost mLo := bB[i + 1]
    invariant 1 <= i && i <= nFilledBin && nFilledBin <= 48 && mHi == old(this.n) && mMid == bB[i] && mLo == bB[i + 1]
    invariant [mono] mono(nFilledBin)
    invariant [done] runS(binList[i - 1], bB[i], mHi)
    invariant [below] binsBelowS(binList, i - 1)
    invariant [above] binsFromS(binList, i)
    invariant [rank] firstRank()
    invariant [others] elsewhereS()
    invariant [heads] headsS()
    decreases nFilledBin - i
  }
}
func (this *IntSList) Sort() {
  prop C10
  requires wfS(this) && this.n <= maxheap()
  modifies this.n, this.at, all(IntSListNode, next), all(IntSListNode, pos), all(IntSListNode, rank), this.head.val, mLo, mMid, mHi, bB
  ensures [wf] wfS(this)
  ensures [same_nodes] this.n == old(this.n) && (forall x *IntSListNode {x.pos} :: x > 0 ==> (inS(this, x) <==> old(inS(this, x))))
  ensures [ordered] forall i int, j int {this.at[i], this.at[j]} :: 0 <= i && i < j && j < this.n ==> this.at[i].val <= this.at[j].val
  ensures [stable] forall x *IntSListNode, y *IntSListNode {x.pos, y.pos} :: inS(this, x) && inS(this, y) && x.pos < y.pos && x.val == y.val ==> old(x.pos) < old(y.pos)
  ensures [others] elsewhereS() && headsS()
}
