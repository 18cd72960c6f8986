// C02: int queue on a ring buffer. Abstract value: qat(q,0..qsz(q)).
package "stl"

def rsize(h, t, n) := ite(t >= h, t - h, n - h + t)
def ridx(h, n, k) := ite(h + k < n, h + k, h + k - n)
// representation invariant of the ring buffers: either no buffer, or head and tail inside it;
// head == tail means empty, so the buffer is never completely full
def rwf(q) := q.head >= 0 && q.tail >= 0 && (len(q.d) == 0 ==> q.d == nil && q.head == 0 && q.tail == 0) && (len(q.d) > 0 ==> q.head < len(q.d) && q.tail < len(q.d))
def qsz(q) := rsize(q.head, q.tail, len(q.d))
def qat(q, k) := q.d[ridx(q.head, len(q.d), k)]
def maxbuf() := 1099511627776

func NewGOGPQueueNamePrefixQueue(bufSize) (r) {
  prop C02
  requires bufSize <= maxbuf()
  modifies nothing
  ensures [wf] r != nil && fresh(r) && rwf(r)
  ensures [empty] qsz(r) == 0
}
func (this *IntQueue) Init(bufSize) {
  prop C02
  requires this != nil && bufSize <= maxbuf() && rwf(this)
  modifies this.head, this.tail, this.d
  ensures [wf] rwf(this) && this.d != nil
  ensures [empty] qsz(this) == 0
  ensures [own_buffer] ref(this.d) == old(ref(this.d)) || fresh(this.d)
}
func (this *IntQueue) Clear() {
  prop C02
  requires this != nil && rwf(this)
  modifies this.head, this.tail
  ensures [wf] rwf(this)
  ensures [empty] qsz(this) == 0
}
func (this *IntQueue) Cap() (n) {
  prop C02
  requires this != nil
  modifies nothing
  ensures n == len(this.d)
}
func (this *IntQueue) Size() (size) {
  prop C02
  requires this != nil && rwf(this)
  modifies nothing
  ensures [size] size == qsz(this)
}
func (this *IntQueue) Empty() (b) {
  prop C02
  requires this != nil && rwf(this)
  modifies nothing
  ensures [empty] b <==> qsz(this) == 0
}
func (this *IntQueue) Front() (front, ok) {
  prop C02
  requires this != nil && rwf(this)
  modifies nothing
  ensures [ok] ok <==> qsz(this) > 0
  ensures [front] ok ==> front == qat(this, 0)
  ensures [zero] !ok ==> front == 0
}
func (this *IntQueue) Back() (back, ok) {
  prop C02
  requires this != nil && rwf(this)
  modifies nothing
  ensures [ok] ok <==> qsz(this) > 0
  ensures [back] ok ==> back == qat(this, qsz(this) - 1)
  ensures [zero] !ok ==> back == 0
}
func (this *IntQueue) Shrink() (ok) {
  prop C02
  requires this != nil && rwf(this) && len(this.d) <= maxbuf()
  modifies this.head, this.tail, this.d
  ensures [wf] rwf(this)
  ensures [size] qsz(this) == old(qsz(this))
  ensures [kept] forall k int :: 0 <= k < qsz(this) ==> qat(this, k) == old(qat(this, k))
  ensures [shrunk] ok ==> len(this.d) < old(len(this.d)) && fresh(this.d)
  ensures [else_same] !ok ==> ref(this.d) == old(ref(this.d)) && len(this.d) == old(len(this.d))
}
func (this *IntQueue) Push(v) (ok) {
  prop C02
  requires this != nil && rwf(this) && len(this.d) <= maxbuf()
  modifies this.head, this.tail, this.d, this.d[*]
  ensures [wf] rwf(this)
  ensures [ok] ok
  ensures [size] qsz(this) == old(qsz(this)) + 1
  ensures [last] qat(this, qsz(this) - 1) == v
  ensures [rest] forall k int :: 0 <= k < old(qsz(this)) ==> qat(this, k) == old(qat(this, k))
  ensures [own_buffer] ref(this.d) == old(ref(this.d)) || fresh(this.d)
  loop 1 alt { // copying one by one
    locals d "[]int", n "int", i "int"
    invariant 0 <= i && i <= n && n == len(d) && len(this.d) == 2 * n && fresh(this.d) && ref(d) != ref(this.d) && 0 <= this.head < n && this.tail == this.head && this.d.off == 0
    invariant forall j int {elems(this.d)[j]} :: 0 <= j < i ==> elems(this.d)[j] == d[ridx(this.head, n, j)]
    invariant d[ite(this.head == 0, n - 1, this.head - 1)] == v
    invariant old(len(this.d)) > 0 ==> (forall j int {d[j]} :: 0 <= j < n ==> d[j] == ite(j == old(this.tail), v, old(this.d[j])))
  }
}
func (this *IntQueue) Pop() (front, ok) {
  prop C02
  requires this != nil && rwf(this)
  modifies this.head
  ensures [wf] rwf(this)
  ensures [ok] ok <==> old(qsz(this)) > 0
  ensures [value] ok ==> front == old(qat(this, 0))
  ensures [zero] !ok ==> front == 0
  ensures [size] qsz(this) == ite(ok, old(qsz(this)) - 1, 0)
  ensures [rest] forall k int :: 0 <= k < qsz(this) ==> qat(this, k) == old(qat(this, k + 1))
}
