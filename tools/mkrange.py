#!/usr/bin/env python3
"""Writes contracts/range.spec: the same contracts for the two widths of ranged integers (C14)."""
import os
HERE=os.path.dirname(os.path.abspath(__file__))
out=['// Generated by tools/mkrange.py. C14: ranged integers.','package "math"','',
'def inr(r, v) := r.min <= v && v <= r.max']
for T,V,top in (("RangeUint32","RangeUint32","4294967295"),("RangeUInt64","RangeUInt64","18446744073709551615")):
    out.append(f'''
func New{T}(_val, _min, _max) (r, err) {{
  prop C14
  modifies nothing
  ensures [error_iff_outside] err == nil <==> _min <= _val && _val <= _max
  ensures [in_range] err == nil ==> r != nil && fresh(r) && r.val == _val && r.min == _min && r.max == _max
  ensures [nothing_on_error] err != nil ==> r == nil
}}
func verify{V}(_val, _min, _max) (err) {{
  prop C14
  modifies nothing
  ensures [error_iff_outside] err == nil <==> _min <= _val && _val <= _max
}}
func (me *{T}) Init(_val, _min, _max) (err) {{
  prop C14
  requires me != nil
  modifies me.val, me.min, me.max
  ensures [error_iff_outside] err == nil <==> _min <= _val && _val <= _max
  ensures [set] err == nil ==> me.val == _val && me.min == _min && me.max == _max
  ensures [unchanged_on_error] err != nil ==> unchanged(me.val, me.min, me.max)
}}
func (me *{T}) Reset() (ok) {{
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [min] ok && me.val == me.min && inr(me, me.val)
}}
func (me *{T}) ResetR() (ok) {{
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [max] ok && me.val == me.max && inr(me, me.val)
}}
func (me *{T}) verify(_val) (err) {{
  prop C14
  requires me != nil
  modifies nothing
  ensures [error_iff_outside] err == nil <==> inr(me, _val)
}}
func (me *{T}) InRange(other) (r) {{
  prop C14
  requires me != nil
  modifies nothing
  ensures [in_range] r <==> inr(me, other)
}}
func (me *{T}) InCurrentRange(other) (r) {{
  prop C14
  requires me != nil
  modifies nothing
  ensures [in_current] r <==> me.min <= other && other <= me.val
}}
func (me *{T}) Get() (r_val, r_min, r_max) {{
  prop C14
  requires me != nil
  modifies nothing
  ensures r_val == me.val && r_min == me.min && r_max == me.max
}}
func (me *{T}) Val() (r) {{
  prop C14
  requires me != nil
  modifies nothing
  ensures r == me.val
}}
func (me *{T}) Min() (r) {{
  prop C14
  requires me != nil
  modifies nothing
  ensures r == me.min
}}
func (me *{T}) Max() (r) {{
  prop C14
  requires me != nil
  modifies nothing
  ensures r == me.max
}}
func (me *{T}) Set(other) (r, err) {{
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [previous] r == old(me.val)
  ensures [error_iff_outside] err == nil <==> inr(me, other)
  ensures [value] me.val == ite(err == nil, other, old(me.val))
  ensures [in_range] inr(me, me.val)
}}
func (me *{T}) Inc() (r, err) {{
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [error_iff_at_limit] err == nil <==> old(me.val) < me.max
  ensures [value] me.val == ite(err == nil, old(me.val) + 1, old(me.val))
  ensures [in_range] inr(me, me.val)
}}
func (me *{T}) Dec(other) (r, err) {{
  prop C14
  requires me != nil && inr(me, me.val)
  modifies me.val
  ensures [error_iff_at_limit] err == nil <==> old(me.val) > me.min
  ensures [value] me.val == ite(err == nil, old(me.val) - 1, old(me.val))
  ensures [in_range] inr(me, me.val)
}}
func (me *{T}) Info() (s) {{
  prop C14
  requires me != nil
  modifies nothing
}}''')
    for op,res,cond in (("Add","me.val + other","true"),("Sub","me.val - other","true"),("Mul","me.val * other","true"),
                        ("Div","me.val / other","other != 0"),("Mod","me.val % other","other != 0")):
        out.append(f'''func (me *{T}) {op}(other) (r, err) {{
  prop C14
  requires me != nil && inr(me, me.val)
  modifies nothing
  ensures [error_iff_outside] err == nil <==> {cond} && inr(me, {res})
  ensures [exact] err == nil ==> r == {res}
}}''')
open(os.path.join(HERE,'..','contracts','range.spec'),'w').write('\n'.join(out)+'\n')
