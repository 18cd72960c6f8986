// C28: zero-copy conversions. sdata(s) is the address of the bytes of a string, ptrof(b) of a byte slice.
package "unsafe"

func StringBytes(s) (r) {
  prop C28
  modifies nothing
  ensures [length] len(r) == len(s)
  ensures [capacity] cap(r) == len(s)
  ensures [shares_storage] ptrof(r) == sdata(s)
  ensures [bytes] forall i int {r[i]} :: 0 <= i && i < len(s) ==> r[i] == s[i]
}
func BytesString(b) (r) {
  prop C28
  modifies nothing
  ensures [length] len(r) == len(b)
  ensures [shares_storage] sdata(r) == ptrof(b)
  ensures [bytes] forall i int {r[i]} :: 0 <= i && i < len(b) ==> r[i] == b[i]
}
func StringPointer(s) (p) {
  prop C28
  modifies nothing
  ensures [address] p == sdata(s)
}
func BytesPointer(b) (p) {
  prop C28
  modifies nothing
  ensures [address] p == ptrof(b)
}
func (me Bytes) Pointer() (p) {
  prop C28
  modifies nothing
  ensures [address] p == ptrof(me)
}
func (me String) Pointer() (p) {
  prop C28
  modifies nothing
  ensures [address] p == sdata(me)
}
