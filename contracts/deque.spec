// C03: int deque on a ring buffer (definitions in queue.spec).
package "stl"

func NewGOGPDequeNamePrefixDeque(bufSize) (r) {
  prop C03
  requires bufSize <= maxbuf()
  modifies nothing
  ensures [wf] r != nil && fresh(r) && rwf(r)
  ensures [empty] qsz(r) == 0
}
func (this *IntDeque) Init(bufSize) {
  prop C03
  requires this != nil && bufSize <= maxbuf() && rwf(this)
  modifies this.head, this.tail, this.d
  ensures [wf] rwf(this) && this.d != nil
  ensures [empty] qsz(this) == 0
  ensures [own_buffer] ref(this.d) == old(ref(this.d)) || fresh(this.d)
}
func (this *IntDeque) Clear() {
  prop C03
  requires this != nil && rwf(this)
  modifies this.head, this.tail
  ensures [wf] rwf(this)
  ensures [empty] qsz(this) == 0
}
func (this *IntDeque) Cap() (n) {
  prop C03
  requires this != nil
  modifies nothing
  ensures n == len(this.d)
}
func (this *IntDeque) Size() (size) {
  prop C03
  requires this != nil && rwf(this)
  modifies nothing
  ensures [size] size == qsz(this)
}
func (this *IntDeque) Empty() (b) {
  prop C03
  requires this != nil && rwf(this)
  modifies nothing
  ensures [empty] b <==> qsz(this) == 0
}
func (this *IntDeque) Front() (front, ok) {
  prop C03
  requires this != nil && rwf(this)
  modifies nothing
  ensures [ok] ok <==> qsz(this) > 0
  ensures [front] ok ==> front == qat(this, 0)
  ensures [zero] !ok ==> front == 0
}
func (this *IntDeque) Back() (back, ok) {
  prop C03
  requires this != nil && rwf(this)
  modifies nothing
  ensures [ok] ok <==> qsz(this) > 0
  ensures [back] ok ==> back == qat(this, qsz(this) - 1)
  ensures [zero] !ok ==> back == 0
}
func (this *IntDeque) Shrink() (ok) {
  prop C03
  requires this != nil && rwf(this) && len(this.d) <= maxbuf()
  modifies this.head, this.tail, this.d
  ensures [wf] rwf(this)
  ensures [size] qsz(this) == old(qsz(this))
  ensures [kept] forall k int :: 0 <= k < qsz(this) ==> qat(this, k) == old(qat(this, k))
  ensures [shrunk] ok ==> len(this.d) < old(len(this.d)) && fresh(this.d)
  ensures [else_same] !ok ==> ref(this.d) == old(ref(this.d)) && len(this.d) == old(len(this.d))
}
func (this *IntDeque) PushBack(v) (ok) {
  prop C03
  requires this != nil && rwf(this) && len(this.d) <= maxbuf()
  modifies this.head, this.tail, this.d, this.d[*]
  ensures [wf] rwf(this)
  ensures [ok] ok
  ensures [size] qsz(this) == old(qsz(this)) + 1
  ensures [last] qat(this, qsz(this) - 1) == v
  ensures [rest] forall k int :: 0 <= k < old(qsz(this)) ==> qat(this, k) == old(qat(this, k))
  ensures [own_buffer] ref(this.d) == old(ref(this.d)) || fresh(this.d)
}
func (this *IntDeque) PushFront(v) (ok) {
  prop C03
  requires this != nil && rwf(this) && len(this.d) <= maxbuf()
  modifies this.head, this.tail, this.d, this.d[*]
  ensures [wf] rwf(this)
  ensures [ok] ok
  ensures [size] qsz(this) == old(qsz(this)) + 1
  ensures [first] qat(this, 0) == v
  ensures [rest] forall k int :: 0 <= k < old(qsz(this)) ==> qat(this, k + 1) == old(qat(this, k))
  ensures [own_buffer] ref(this.d) == old(ref(this.d)) || fresh(this.d)
}
func (this *IntDeque) PopFront() (front, ok) {
  prop C03
  requires this != nil && rwf(this)
  modifies this.head
  ensures [wf] rwf(this)
  ensures [ok] ok <==> old(qsz(this)) > 0
  ensures [value] ok ==> front == old(qat(this, 0))
  ensures [zero] !ok ==> front == 0
  ensures [size] qsz(this) == ite(ok, old(qsz(this)) - 1, 0)
  ensures [rest] forall k int :: 0 <= k < qsz(this) ==> qat(this, k) == old(qat(this, k + 1))
}
func (this *IntDeque) PopBack() (back, ok) {
  prop C03
  requires this != nil && rwf(this)
  modifies this.tail
  ensures [wf] rwf(this)
  ensures [ok] ok <==> old(qsz(this)) > 0
  ensures [value] ok ==> back == old(qat(this, qsz(this) - 1))
  ensures [zero] !ok ==> back == 0
  ensures [size] qsz(this) == ite(ok, old(qsz(this)) - 1, 0)
  ensures [rest] forall k int :: 0 <= k < qsz(this) ==> qat(this, k) == old(qat(this, k))
}
