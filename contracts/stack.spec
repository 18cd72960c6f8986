// C01: int stack. The abstract value of a stack is the sequence d[0..len(d)).
package "stl"

func (this *IntStack) Init(bufSize) {
  prop C01
  requires this != nil && bufSize <= 1099511627776
  modifies this.d
  ensures [empty] len(this.d) == 0
  ensures [keeps_buffer] old(this.d) != nil ==> ref(this.d) == old(ref(this.d))
  ensures [own_buffer] old(this.d) == nil ==> this.d == nil || fresh(this.d)
}
func NewGOGPStackNamePrefixStack(bufSize) (r) {
  prop C01
  requires bufSize <= 1099511627776
  modifies nothing
  ensures r != nil && fresh(r) && len(r.d) == 0
}
func (this *IntStack) Clear() {
  prop C01
  requires this != nil
  modifies this.d
  ensures [empty] len(this.d) == 0
}
func (this *IntStack) Push(v) (ok) {
  prop C01
  requires this != nil && len(this.d) < 1099511627776
  modifies this.d, this.d[len(this.d):cap(this.d)]
  ensures [ok] ok
  ensures [grown] len(this.d) == old(len(this.d)) + 1
  ensures [top] this.d[len(this.d)-1] == v
  ensures [rest] forall i int :: 0 <= i < old(len(this.d)) ==> this.d[i] == old(this.d[i])
}
func (this *IntStack) Pop() (top, ok) {
  prop C01
  requires this != nil
  modifies this.d
  ensures [ok] ok <==> old(len(this.d)) > 0
  ensures [top] ok ==> top == old(this.d[len(this.d)-1])
  ensures [zero] !ok ==> top == 0
  ensures [size] len(this.d) == ite(ok, old(len(this.d)) - 1, 0)
  ensures [rest] forall i int :: 0 <= i < len(this.d) ==> this.d[i] == old(this.d[i])
}
func (this *IntStack) Top() (top, ok) {
  prop C01
  requires this != nil
  modifies nothing
  ensures [ok] ok <==> len(this.d) > 0
  ensures [top] ok ==> top == this.d[len(this.d)-1]
  ensures [zero] !ok ==> top == 0
}
func (this *IntStack) Size() (n) {
  prop C01
  requires this != nil
  modifies nothing
  ensures n == len(this.d)
}
func (this *IntStack) Empty() (b) {
  prop C01
  requires this != nil
  modifies nothing
  ensures b <==> len(this.d) == 0
}
