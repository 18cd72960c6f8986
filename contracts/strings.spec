// C33: random text. The generator's state is whatever other goroutines make of it; nst counts this goroutine's
// steps of it during one call and is cleared between calls.
package "strings"
import xrand "github.com/vipally/gx/math/rand"

globalinv [C33] rnd != nil

func Rand(rule, length) (s) {
  prop C33
  flag noterm
  requires 0 <= length && length < 281474976710656
  modifies rnd.seed, nst, lb, la, lv
  entryghost nst := 0
  ensures [length] slen(s) == length
  ensures [letters] forall i int {s[i]} :: 0 <= i && i < length ==> 65 <= s[i] && s[i] <= 90
  loop 1 {
    ghost nst := 0
    initghost nst := 0
    invariant [filled] 0 <= i && i <= length && len(b) == length && fresh(b) && nst == 0
    invariant [so_far] forall j int {b[j]} :: 0 <= j && j < i ==> 65 <= b[j] && b[j] <= 90
  }
  loop 1 alt { // appending
    ghost nst := 0
    initghost nst := 0
    invariant [filled] len(b) <= length && (fresh(b) || cap(b) == 0) && nst == 0
    invariant [so_far] forall j int {b[j]} :: 0 <= j && j < len(b) ==> 65 <= b[j] && b[j] <= 90
  }
  loop 1 alt { // over the slice
    ghost nst := 0
    initghost nst := 0
    invariant [filled] len(b) == length && fresh(b) && nst == 0
    invariant [so_far] forall j int {b[j]} :: 0 <= j && j < rangeindex ==> 65 <= b[j] && b[j] <= 90
  }
}
