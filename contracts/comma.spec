// C16: CommaString. comma(n, s) is the text of n in comma-separated groups of three, followed by s.
package "math"

fun comma(int, str) str
fun nocomma(str) str
axiom comma_one(n int, s str) {
  requires 0 <= n && n < 1000
  ensures comma(n, s) == itoa(n) + s
  trigger {comma(n, s)}
  reason "definition of the grouped text: a number below 1000 is one group"
}
axiom comma_more(n int, s str) {
  requires n >= 1000
  ensures comma(n, s) == comma(n / 1000, "," + zpad(3, n % 1000) + s)
  trigger {comma(n, s)}
  reason "definition of the grouped text: the last three digits form a group after a comma"
}
// what the definition means: without its commas the text is the decimal text of n
axiom itoa_groups(n int, s str) {
  requires n >= 1000
  ensures itoa(n) + s == itoa(n / 1000) + zpad(3, n % 1000) + s
  reason "decimal notation"
}
axiom nocomma_itoa(n int, s str) {
  requires n >= 0
  ensures nocomma(itoa(n) + s) == itoa(n) + nocomma(s)
  reason "definition of removing commas, digits are no commas"
}
axiom nocomma_group(n int, s str) {
  requires 0 <= n && n < 1000
  ensures nocomma("," + zpad(3, n) + s) == zpad(3, n) + nocomma(s)
  reason "definition of removing commas"
}
func (me Uint64) CommaString() (s) {
  prop C16
  uses comma_one, comma_more, comma_denotes
  modifies nothing
  ensures [grouped] s == comma(me, "")
  loop 1 {
    invariant r == 1000 && 0 <= l
    invariant [rest] comma(l, s) == comma(me, "")
    decreases l
  }
  loop 1 alt { // dividing the receiver itself
    invariant 0 <= me
    invariant [rest] comma(me, s) == comma(old(me), "")
    decreases me
  }
}
lemma comma_denotes(n int, s str) {
  requires n >= 0
  uses comma_one, comma_more
  induct n
  ih (n / 1000, "," + zpad(3, n % 1000) + s)
  apply itoa_groups(n, nocomma(s))
  apply nocomma_group(n % 1000, s)
  apply nocomma_itoa(n, s)
  ensures nocomma(comma(n, s)) == itoa(n) + nocomma(s)
}
