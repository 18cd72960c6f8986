// C15: bit, byte and word extraction, in bit-vector arithmetic.
package "math"

func GetBit(_val, _idx) (r, err) {
  prop C15
  flag bv
  modifies nothing
  ensures [error_iff_out_of_range] err == nil <==> _idx < 32
  ensures [field] err == nil ==> r == (_val >> _idx) & 1
  ensures [zero_on_error] err != nil ==> r == 0
}
func GetByte(_val, _idx) (r, err) {
  prop C15
  flag bv
  modifies nothing
  ensures [error_iff_out_of_range] err == nil <==> _idx < 4
  ensures [field] err == nil ==> r == (_val >> (_idx * 8)) & 255
  ensures [zero_on_error] err != nil ==> r == 0
}
func GetWord(_val, _idx) (r, err) {
  prop C15
  flag bv
  modifies nothing
  ensures [error_iff_out_of_range] err == nil <==> _idx < 2
  ensures [field] err == nil ==> r == (_val >> (_idx * 16)) & 65535
  ensures [zero_on_error] err != nil ==> r == 0
}
