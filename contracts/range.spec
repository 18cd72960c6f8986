// Generated by tools/mkrange.py. C14: ranged integers.
package "math"

def inr(r, v) := r.min <= v && v <= r.max

func NewRangeUint32(_val, _min, _max) (r, err) {
  prop C14
  modifies nothing
  ensures [error_iff_outside] err == nil <==> _min <= _val && _val <= _max
  ensures [in_range] err == nil ==> r != nil && fresh(r) && r.val == _val && r.min == _min && r.max == _max
  ensures [nothing_on_error] err != nil ==> r == nil
}
func verifyRangeUint32(_val, _min, _max) (err) {
  prop C14
  modifies nothing
  ensures [error_iff_outside] err == nil <==> _min <= _val && _val <= _max
}
func (me *RangeUint32) Init(_val, _min, _max) (err) {
  prop C14
  requires me != nil
  modifies me.val, me.min, me.max
  ensures [error_iff_outside] err == nil <==> _min <= _val && _val <= _max
  ensures [set] err == nil ==> me.val == _val && me.min == _min && me.max == _max
  ensures [unchanged_on_error] err != nil ==> unchanged(me.val, me.min, me.max)
}
func (me *RangeUint32) Reset() (ok) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [min] ok && me.val == me.min && inr(me, me.val)
}
func (me *RangeUint32) ResetR() (ok) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [max] ok && me.val == me.max && inr(me, me.val)
}
func (me *RangeUint32) verify(_val) (err) {
  prop C14
  requires me != nil
  modifies nothing
  ensures [error_iff_outside] err == nil <==> inr(me, _val)
}
func (me *RangeUint32) InRange(other) (r) {
  prop C14
  requires me != nil
  modifies nothing
  ensures [in_range] r <==> inr(me, other)
}
func (me *RangeUint32) InCurrentRange(other) (r) {
  prop C14
  requires me != nil
  modifies nothing
  ensures [in_current] r <==> me.min <= other && other <= me.val
}
func (me *RangeUint32) Get() (r_val, r_min, r_max) {
  prop C14
  requires me != nil
  modifies nothing
  ensures r_val == me.val && r_min == me.min && r_max == me.max
}
func (me *RangeUint32) Val() (r) {
  prop C14
  requires me != nil
  modifies nothing
  ensures r == me.val
}
func (me *RangeUint32) Min() (r) {
  prop C14
  requires me != nil
  modifies nothing
  ensures r == me.min
}
func (me *RangeUint32) Max() (r) {
  prop C14
  requires me != nil
  modifies nothing
  ensures r == me.max
}
func (me *RangeUint32) Set(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [previous] r == old(me.val)
  ensures [error_iff_outside] err == nil <==> inr(me, other)
  ensures [value] me.val == ite(err == nil, other, old(me.val))
  ensures [in_range] inr(me, me.val)
}
func (me *RangeUint32) Inc() (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [error_iff_at_limit] err == nil <==> old(me.val) < me.max
  ensures [value] me.val == ite(err == nil, old(me.val) + 1, old(me.val))
  ensures [in_range] inr(me, me.val)
}
func (me *RangeUint32) Dec(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [error_iff_at_limit] err == nil <==> old(me.val) > me.min
  ensures [value] me.val == ite(err == nil, old(me.val) - 1, old(me.val))
  ensures [in_range] inr(me, me.val)
}
func (me *RangeUint32) Info() (s) {
  prop C14
  requires me != nil
  modifies nothing
}
func (me *RangeUint32) Add(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies nothing
  ensures [error_iff_outside] err == nil <==> true && inr(me, me.val + other)
  ensures [exact] err == nil ==> r == me.val + other
}
func (me *RangeUint32) Sub(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies nothing
  ensures [error_iff_outside] err == nil <==> true && inr(me, me.val - other)
  ensures [exact] err == nil ==> r == me.val - other
}
func (me *RangeUint32) Mul(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies nothing
  ensures [error_iff_outside] err == nil <==> true && inr(me, me.val * other)
  ensures [exact] err == nil ==> r == me.val * other
}
func (me *RangeUint32) Div(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies nothing
  ensures [error_iff_outside] err == nil <==> other != 0 && inr(me, me.val / other)
  ensures [exact] err == nil ==> r == me.val / other
}
func (me *RangeUint32) Mod(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies nothing
  ensures [error_iff_outside] err == nil <==> other != 0 && inr(me, me.val % other)
  ensures [exact] err == nil ==> r == me.val % other
}

func NewRangeUInt64(_val, _min, _max) (r, err) {
  prop C14
  modifies nothing
  ensures [error_iff_outside] err == nil <==> _min <= _val && _val <= _max
  ensures [in_range] err == nil ==> r != nil && fresh(r) && r.val == _val && r.min == _min && r.max == _max
  ensures [nothing_on_error] err != nil ==> r == nil
}
func verifyRangeUInt64(_val, _min, _max) (err) {
  prop C14
  modifies nothing
  ensures [error_iff_outside] err == nil <==> _min <= _val && _val <= _max
}
func (me *RangeUInt64) Init(_val, _min, _max) (err) {
  prop C14
  requires me != nil
  modifies me.val, me.min, me.max
  ensures [error_iff_outside] err == nil <==> _min <= _val && _val <= _max
  ensures [set] err == nil ==> me.val == _val && me.min == _min && me.max == _max
  ensures [unchanged_on_error] err != nil ==> unchanged(me.val, me.min, me.max)
}
func (me *RangeUInt64) Reset() (ok) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [min] ok && me.val == me.min && inr(me, me.val)
}
func (me *RangeUInt64) ResetR() (ok) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [max] ok && me.val == me.max && inr(me, me.val)
}
func (me *RangeUInt64) verify(_val) (err) {
  prop C14
  requires me != nil
  modifies nothing
  ensures [error_iff_outside] err == nil <==> inr(me, _val)
}
func (me *RangeUInt64) InRange(other) (r) {
  prop C14
  requires me != nil
  modifies nothing
  ensures [in_range] r <==> inr(me, other)
}
func (me *RangeUInt64) InCurrentRange(other) (r) {
  prop C14
  requires me != nil
  modifies nothing
  ensures [in_current] r <==> me.min <= other && other <= me.val
}
func (me *RangeUInt64) Get() (r_val, r_min, r_max) {
  prop C14
  requires me != nil
  modifies nothing
  ensures r_val == me.val && r_min == me.min && r_max == me.max
}
func (me *RangeUInt64) Val() (r) {
  prop C14
  requires me != nil
  modifies nothing
  ensures r == me.val
}
func (me *RangeUInt64) Min() (r) {
  prop C14
  requires me != nil
  modifies nothing
  ensures r == me.min
}
func (me *RangeUInt64) Max() (r) {
  prop C14
  requires me != nil
  modifies nothing
  ensures r == me.max
}
func (me *RangeUInt64) Set(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [previous] r == old(me.val)
  ensures [error_iff_outside] err == nil <==> inr(me, other)
  ensures [value] me.val == ite(err == nil, other, old(me.val))
  ensures [in_range] inr(me, me.val)
}
func (me *RangeUInt64) Inc() (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [error_iff_at_limit] err == nil <==> old(me.val) < me.max
  ensures [value] me.val == ite(err == nil, old(me.val) + 1, old(me.val))
  ensures [in_range] inr(me, me.val)
}
func (me *RangeUInt64) Dec(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [error_iff_at_limit] err == nil <==> old(me.val) > me.min
  ensures [value] me.val == ite(err == nil, old(me.val) - 1, old(me.val))
  ensures [in_range] inr(me, me.val)
}
func (me *RangeUInt64) Info() (s) {
  prop C14
  requires me != nil
  modifies nothing
}
func (me *RangeUInt64) Add(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies nothing
  ensures [error_iff_outside] err == nil <==> true && inr(me, me.val + other)
  ensures [exact] err == nil ==> r == me.val + other
}
func (me *RangeUInt64) Sub(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies nothing
  ensures [error_iff_outside] err == nil <==> true && inr(me, me.val - other)
  ensures [exact] err == nil ==> r == me.val - other
}
func (me *RangeUInt64) Mul(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies nothing
  ensures [error_iff_outside] err == nil <==> true && inr(me, me.val * other)
  ensures [exact] err == nil ==> r == me.val * other
}
func (me *RangeUInt64) Div(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies nothing
  ensures [error_iff_outside] err == nil <==> other != 0 && inr(me, me.val / other)
  ensures [exact] err == nil ==> r == me.val / other
}
func (me *RangeUInt64) Mod(other) (r, err) {
  prop C14
  requires me != nil && inr(me, me.val)
  modifies nothing
  ensures [error_iff_outside] err == nil <==> other != 0 && inr(me, me.val % other)
  ensures [exact] err == nil ==> r == me.val % other
}
