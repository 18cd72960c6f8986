#!/usr/bin/env python3
"""Writes contracts/sortslice.spec: the same contracts for the two instances of the sort-slice template."""
import os
HERE=os.path.dirname(os.path.abspath(__file__))
out=['// Generated by tools/mksortslice.py. C11: positional operations; C12: comparators and ordering.',
'package "stl"','',
'def maxss() := 1099511627776','']
for T,zero in (("IntSortSlice","0"),("IntTreeNodeSortSlice","nil")):
    out.append(f'''
func New{T}(capacity) (r) {{
  prop C11
  requires 0 <= capacity <= maxss()
  modifies nothing
  ensures [empty] r != nil && fresh(r) && len(r.d) == 0
}}
func (this *{T}) Init(capacity) {{
  prop C11
  requires this != nil && 0 <= capacity <= maxss()
  modifies this.d
  ensures [empty] len(this.d) == 0
  ensures [own_buffer] fresh(this.d)
}}
func (this *{T}) Buffer() (r) {{
  prop C11
  requires this != nil
  modifies nothing
  ensures [same] r == this.d
}}
func (this *{T}) Len() (n) {{
  prop C11
  requires this != nil
  modifies nothing
  ensures [len] n == len(this.d)
}}
func (this *{T}) Push(v) (n) {{
  prop C11
  requires this != nil && len(this.d) <= maxss()
  modifies this.d, this.d[len(this.d):cap(this.d)]
  ensures [len] n == old(len(this.d)) + 1 && len(this.d) == n
  ensures [last] this.d[n - 1] == v
  ensures [rest] forall i int :: 0 <= i < old(len(this.d)) ==> this.d[i] == old(this.d[i])
  ensures [own_buffer] ref(this.d) == old(ref(this.d)) || fresh(this.d)
}}
func (this *{T}) Insert(v, idx) (n) {{
  prop C11
  requires this != nil && len(this.d) <= maxss()
  modifies this.d, this.d[0:cap(this.d)]
  ensures [len] n == old(len(this.d)) + 1 && len(this.d) == n
  ensures [at] 0 <= idx < old(len(this.d)) ==> this.d[idx] == v
  ensures [before] 0 <= idx < old(len(this.d)) ==> (forall i int :: 0 <= i < idx ==> this.d[i] == old(this.d[i]))
  ensures [after] 0 <= idx < old(len(this.d)) ==> (forall i int :: idx <= i < old(len(this.d)) ==> this.d[i + 1] == old(this.d[i]))
  ensures [append] !(0 <= idx < old(len(this.d))) ==> this.d[n - 1] == v && (forall i int :: 0 <= i < old(len(this.d)) ==> this.d[i] == old(this.d[i]))
  ensures [own_buffer] ref(this.d) == old(ref(this.d)) || fresh(this.d)
  loop 1 alt {{ // shifting one by one
    locals i "int"
    invariant idx <= i && i < len(this.d) && len(this.d) == old(len(this.d)) + 1 && (ref(this.d) == old(ref(this.d)) && this.d.off == old(this.d.off) && cap(this.d) == old(cap(this.d)) || fresh(this.d))
    invariant forall j int {{this.d[j]}} :: 0 <= j <= i && j < old(len(this.d)) ==> this.d[j] == old(this.d[j])
    invariant forall j int {{this.d[j]}} :: i < j < len(this.d) ==> this.d[j] == old(this.d[j - 1])
  }}
}}
func (this *{T}) Remove(idx) (r, ok) {{
  prop C11
  requires this != nil
  modifies this.d, this.d[0:len(this.d)]
  ensures [ok] ok <==> 0 <= idx < old(len(this.d))
  ensures [value] ok ==> r == old(this.d[idx])
  ensures [len] len(this.d) == ite(ok, old(len(this.d)) - 1, old(len(this.d)))
  ensures [before] ok ==> (forall i int :: 0 <= i < idx ==> this.d[i] == old(this.d[i]))
  ensures [after] ok ==> (forall i int :: idx <= i < len(this.d) ==> this.d[i] == old(this.d[i + 1]))
  ensures [unchanged] !ok ==> r == {zero} && (forall i int :: 0 <= i < len(this.d) ==> this.d[i] == old(this.d[i]))
  ensures [own_buffer] ref(this.d) == old(ref(this.d)) || fresh(this.d)
  loop 1 alt {{ // shifting one by one
    locals i "int"
    invariant idx <= i && i < len(this.d) && len(this.d) == old(len(this.d)) && ref(this.d) == old(ref(this.d)) && this.d.off == old(this.d.off)
    invariant forall j int {{this.d[j]}} :: 0 <= j < idx ==> this.d[j] == old(this.d[j])
    invariant forall j int {{this.d[j]}} :: idx <= j < i ==> this.d[j] == old(this.d[j + 1])
    invariant forall j int {{this.d[j]}} :: i <= j < len(this.d) ==> this.d[j] == old(this.d[j])
  }}
}}
func (this *{T}) Pop() (r, ok) {{
  prop C11
  requires this != nil
  modifies this.d
  ensures [ok] ok <==> old(len(this.d)) > 0
  ensures [value] ok ==> r == old(this.d[len(this.d)-1])
  ensures [zero] !ok ==> r == {zero}
  ensures [len] len(this.d) == ite(ok, old(len(this.d)) - 1, 0)
  ensures [rest] forall i int :: 0 <= i < len(this.d) ==> this.d[i] == old(this.d[i])
}}
func (this *{T}) Get(idx) (r, ok) {{
  prop C11
  requires this != nil
  modifies nothing
  ensures [ok] ok <==> 0 <= idx < len(this.d)
  ensures [value] ok ==> r == this.d[idx]
  ensures [zero] !ok ==> r == {zero}
}}
func (this *{T}) MustGet(idx) (r) {{
  prop C11
  requires this != nil
  panics !(0 <= idx < len(this.d))
  modifies nothing
  ensures [value] 0 <= idx < len(this.d) && r == this.d[idx]
}}
''')

out.append('''
// occurrences of v in a[lo..hi)
fun cnt([int]int, int, int, int) int
axiom cnt_empty(a [int]int, lo int, hi int, v int) {
  requires hi <= lo
  ensures cnt(a, lo, hi, v) == 0
  trigger {cnt(a, lo, hi, v)}
  reason "definition of cnt"
  flag explicit
}
axiom cnt_step(a [int]int, lo int, hi int, v int) {
  requires lo < hi
  ensures cnt(a, lo, hi, v) == cnt(a, lo, hi - 1, v) + ite(a[hi - 1] == v, 1, 0)
  trigger {cnt(a, lo, hi, v)}
  reason "definition of cnt"
  flag explicit
}
globalinv [C12] gIntSortSliceGbl.cmp == 0
globalinv [C12] gIntTreeNodeSortSliceGbl.cmp == 0

func (this *IntTreeNode) Less(right) (ok) {
  prop C12
  requires this != nil && right != nil
  modifies nothing
  ensures [by_value] ok <==> this.val < right.val
}
''')
for C,lt,pre,T,elem in (("CmpInt","left < right","true","IntSortSlice",""),("CmpIntTreeNode","left.val < right.val","left != nil && right != nil","IntTreeNodeSortSlice",".val")):
    gt=lt.replace("left","L").replace("right","left").replace("L","right")
    nn=f"&& this.d[i] != nil && this.d[j] != nil" if elem else ""
    out.append(f'''
func Create{C}(cmpName) (r) {{
  prop C12
  panics !(cmpName == "" || cmpName == "Lesser" || cmpName == "Greater")
  modifies nothing
  ensures [named] r == ite(cmpName == "Greater", 1, 0) && (cmpName == "" || cmpName == "Lesser" || cmpName == "Greater")
}}
func (me {C}) CreateByName(cmpName) (r) {{
  prop C12
  panics !(cmpName == "" || cmpName == "Lesser" || cmpName == "Greater")
  modifies nothing
  ensures [named] r == ite(cmpName == "Greater", 1, 0) && (cmpName == "" || cmpName == "Lesser" || cmpName == "Greater")
}}
func (me {C}) CreateByBool(bigFirst) (r) {{
  prop C12
  modifies nothing
  ensures [flag] r == ite(bigFirst, 1, 0)
}}
func (me {C}) Lesser() (r) {{
  prop C12
  modifies nothing
  ensures r == 0
}}
func (me {C}) Greater() (r) {{
  prop C12
  modifies nothing
  ensures r == 1
}}
func (me {C}) String() (s) {{
  prop C12
  modifies nothing
  ensures [name] s == ite(me == 0, "Lesser", ite(me == 1, "Greater", "error cmp value"))
}}
func (me {C}) F(left, right) (ok) {{
  prop C12
  requires {pre}
  modifies nothing
  ensures [lesser] me == 0 ==> (ok <==> {lt})
  ensures [greater] me == 1 ==> (ok <==> {gt})
  ensures [unknown] me != 0 && me != 1 ==> !ok
}}
func (this *{T}) Less(i, j) (ok) {{
  prop C12
  requires this != nil && 0 <= i < len(this.d) && 0 <= j < len(this.d) {nn}
  modifies nothing
  ensures [strict] ok <==> this.d[i]{elem} < this.d[j]{elem}
}}
func (this *{T}) Swap(i, j) {{
  prop C12
  requires this != nil && 0 <= i < len(this.d) && 0 <= j < len(this.d)
  modifies this.d[*]
  ensures [swapped] this.d[i] == old(this.d[j]) && this.d[j] == old(this.d[i])
  ensures [rest] forall k int :: 0 <= k < len(this.d) && k != i && k != j ==> this.d[k] == old(this.d[k])
}}
// assumed: what package sort documents for an Interface whose Less is a strict weak order and whose
// Swap exchanges two slots; that the methods are so is proved by the contracts of Less, Swap and Len
extern sort.Sort${T}(data) {{
  requires data != nil {"&& (forall k int :: 0 <= k < len(data.d) ==> data.d[k] != nil)" if elem else ""}
  modifies data.d[*]
  ensures forall a int, b int :: 0 <= a < b < len(data.d) ==> data.d[a]{elem} <= data.d[b]{elem}
  ensures forall v int :: cnt(elems(data.d), data.d.off, data.d.off + len(data.d), v) == old(cnt(elems(data.d), data.d.off, data.d.off + len(data.d), v))
}}
func (this *{T}) Sort() {{
  prop C12
  requires this != nil {"&& (forall k int :: 0 <= k < len(this.d) ==> this.d[k] != nil)" if elem else ""}
  modifies this.d[*]
  ensures [ascending] forall a int, b int :: 0 <= a < b < len(this.d) ==> this.d[a]{elem} <= this.d[b]{elem}
  ensures [permutation] forall v int :: cnt(elems(this.d), this.d.off, this.d.off + len(this.d), v) == old(cnt(elems(this.d), this.d.off, this.d.off + len(this.d), v))
}}
''')
open(os.path.join(HERE,'..','contracts','sortslice.spec'),'w').write('\n'.join(out))
