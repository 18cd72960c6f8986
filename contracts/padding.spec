// C19: padding. The result is the input followed by n bytes, 1 <= n <= block size.
package "crypto"
import bytes "bytes"

extern bytes.Repeat(b, count) (r) {
  panics count < 0
  panics count > 0 && len(b) > 9223372036854775807 / count
  maypanic if len(b) * count > 1048576
  modifies nothing
  ensures len(r) == len(b) * count && fresh(r) && r.off == 0
  ensures len(b) == 1 ==> (forall i int {r[i]} :: 0 <= i < count ==> r[i] == b[0])
}
extern bytes.TrimRightFunc(s, f) (r) {
  requires [predicate_on_ascii_only] forall c int :: holds(f, c) ==> 0 <= c < 128
  modifies nothing
  ensures ref(r) == ref(s) && r.off == s.off && 0 <= len(r) <= len(s)
  ensures forall i int {s[i]} :: len(r) <= i < len(s) ==> s[i] < 128 && holds(f, s[i])
  ensures len(r) > 0 ==> s[len(r)-1] >= 128 || !holds(f, s[len(r)-1])
}
def padn(n, bs) := bs - n % bs
// the padding count is right, whatever the code looks like
lemma padn_ok(n int, bs int) {
  requires n >= 0 && bs >= 1
  ensures 1 <= padn(n, bs) && padn(n, bs) <= bs && (n + padn(n, bs)) % bs == 0
}
lemma padn_unique(n int, bs int, k int) {
  requires n >= 0 && bs >= 1 && 1 <= k && k <= bs && (n + k) % bs == 0
  ensures k == padn(n, bs)
}

func ZeroPadding(ciphertext, blockSize) (r) {
  prop C19
  uses padn_ok, padn_unique
  requires 1 <= blockSize <= 255 && len(ciphertext) <= 1000000000000
  modifies ciphertext[len(ciphertext):cap(ciphertext)]
  ensures [length] len(ciphertext) < len(r) <= len(ciphertext) + blockSize && len(r) % blockSize == 0
  ensures [input_first] forall i int {r[i]} :: 0 <= i < len(ciphertext) ==> r[i] == old(ciphertext[i])
  ensures [zero_bytes] forall i int {r[i]} :: len(ciphertext) <= i < len(r) ==> r[i] == 0
}
func ZeroUnPadding(origData) (r) {
  prop C19
  uses zero_round_trip
  modifies nothing
  ensures [prefix] len(r) <= len(origData) && (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] == origData[i])
  ensures [only_zeros_cut] forall i int {origData[i]} :: len(r) <= i < len(origData) ==> origData[i] == 0
  ensures [all_zeros_cut] len(r) > 0 ==> origData[len(r)-1] != 0
  loop 1 alt { // counting down
    locals n "int"
    invariant 0 <= n && n <= len(origData) && origData == old(origData)
    invariant forall i int {origData[i]} :: n <= i && i < len(origData) ==> origData[i] == 0
    decreases n
  }
  loop 1 alt { // cutting one by one
    invariant ref(origData) == old(ref(origData)) && origData.off == old(origData.off) && len(origData) <= old(len(origData))
    invariant forall i int {old(origData)[i]} :: len(origData) <= i && i < old(len(origData)) ==> old(origData)[i] == 0
    decreases len(origData)
  }
}
func PKCS5Padding(ciphertext, blockSize) (r) {
  prop C19
  uses padn_ok, padn_unique
  requires 1 <= blockSize <= 255 && len(ciphertext) <= 1000000000000
  modifies ciphertext[len(ciphertext):cap(ciphertext)]
  ensures [length] len(ciphertext) < len(r) <= len(ciphertext) + blockSize && len(r) % blockSize == 0
  ensures [input_first] forall i int {r[i]} :: 0 <= i < len(ciphertext) ==> r[i] == old(ciphertext[i])
  ensures [count_bytes] forall i int {r[i]} :: len(ciphertext) <= i < len(r) ==> r[i] == len(r) - len(ciphertext)
}
func PKCS5UnPadding(origData) (r) {
  prop C19
  uses pkcs_round_trip
  requires len(origData) > 0 && origData[len(origData)-1] <= len(origData)
  modifies nothing
  ensures [prefix] len(r) == len(origData) - origData[len(origData)-1] && (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] == origData[i])
}
// composition of the contracts: p is what padding returns for b (n bytes), r (m bytes) what unpadding returns for p
lemma pkcs_round_trip(b [int]int, n int, p [int]int, l int, bs int, r [int]int, m int) {
  requires n >= 0 && 1 <= bs && bs <= 255 && n < l && l <= n + bs
  requires forall i int {p[i]} :: 0 <= i && i < n ==> p[i] == b[i]
  requires forall i int {p[i]} :: n <= i && i < l ==> p[i] == l - n
  requires m == l - p[l - 1]
  requires forall i int {r[i]} :: 0 <= i && i < m ==> r[i] == p[i]
  ensures [unpadding_applies] l > 0 && p[l - 1] <= l
  ensures [same_length] m == n
  ensures [same_bytes] forall i int {r[i]} :: 0 <= i && i < m ==> r[i] == b[i]
}
lemma zero_round_trip(b [int]int, n int, p [int]int, l int, m int) {
  requires n >= 0 && n < l && 0 <= m && m <= l
  requires forall i int {p[i]} :: 0 <= i && i < n ==> p[i] == b[i]
  requires forall i int {p[i]} :: n <= i && i < l ==> p[i] == 0
  requires forall i int {p[i]} :: m <= i && i < l ==> p[i] == 0
  requires m > 0 ==> p[m - 1] != 0
  hint p[n - 1] == p[n - 1]
  ensures [no_more_than_padding] m <= n
  ensures [message_kept] n > 0 && b[n - 1] != 0 ==> m == n
}
