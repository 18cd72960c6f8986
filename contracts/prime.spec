// C18: primality of 32-bit numbers.
package "math/prime"

fun isprime(int) bool
axiom isprime_def(n int) {
  ensures isprime(n) <==> n >= 2 && (forall d int {n % d} :: 2 <= d < n ==> n % d != 0)
  trigger {isprime(n)}
  reason "definition of a prime: at least 2 with no divisor between 2 and n-1"
}
// ld(n): the least divisor of n that is at least 2
fun ld(int) int
axiom ld_def(n int) {
  requires n >= 2
  ensures 2 <= ld(n) <= n && n % ld(n) == 0
  trigger {ld(n)}
  reason "definition of the least divisor >= 2 (n divides itself, so it exists)"
}
axiom ld_least(n int, d int) {
  requires n >= 2 && 2 <= d < ld(n)
  ensures n % d != 0
  trigger {ld(n), n % d}
  reason "definition of the least divisor >= 2"
}
lemma isprime_ld(n int) {
  requires n >= 2
  uses isprime_def, ld_def, ld_least
  ensures isprime(n) <==> ld(n) == n
  trigger {ld(n)}
  trigger {isprime(n)}
}
lemma mul_mod(a int, k int) {
  requires a > 0
  ensures (a * k) % a == 0
}
lemma sq_near(a int, n int, m int) {
  requires a >= 0 && m >= 0 && a * a <= n && 4 * n < (2 * m + 1) * (2 * m + 1)
  hint a > m ==> a >= m + 1 && a * a >= (m + 1) * (m + 1)
  ensures a <= m
  trigger {a * a, (2 * m + 1) * (2 * m + 1), 4 * n}
}
lemma ld_prime(n int) {
  requires n >= 2
  uses isprime_ld, ld_def, ld_least
  hint [below] ld(ld(n)) >= 2 && ld(n) % ld(ld(n)) == 0
  hint [trans] n == ld(n) * (n / ld(n)) && ld(n) == ld(ld(n)) * (ld(n) / ld(ld(n)))
  hint [prod] n == ld(ld(n)) * ((ld(n) / ld(ld(n))) * (n / ld(n)))
  apply mul_mod(ld(ld(n)), (ld(n) / ld(ld(n))) * (n / ld(n)))
  hint [divides] n % ld(ld(n)) == 0
  ensures isprime(ld(n))
  trigger {ld(n)}
}
lemma ld_square(n int) {
  requires n >= 2 && !isprime(n)
  uses isprime_ld, ld_def, ld_least
  hint [fac] n == ld(n) * (n / ld(n)) && n / ld(n) >= 2
  hint [cof] n % (n / ld(n)) == 0
  hint [cofbig] n / ld(n) >= ld(n)
  ensures ld(n) * ld(n) <= n
  trigger {ld(n)}
}

// the table g_primes, as evaluated from the source by the check below
fun ptab(int) int
fun ptabn() int
fun pidx(int) int
axiom ptab_order(i int, j int) {
  requires 0 <= i < j < ptabn()
  ensures ptab(i) < ptab(j)
  trigger {ptab(i), ptab(j)}
  reason "evaluated on the table in the source by check primes_table"
}
axiom ptab_first(i int) {
  requires 0 <= i < ptabn()
  ensures ptab(i) >= 2 && ptabn() >= 2 && ptab(0) == 2 && ptab(1) == 3
  trigger {ptab(i)}
  reason "evaluated on the table in the source by check primes_table"
}
axiom ptab_complete(p int) {
  requires isprime(p) && p <= 65535
  ensures 0 <= pidx(p) < ptabn() && ptab(pidx(p)) == p
  trigger {isprime(p)}
  reason "evaluated on the table in the source by check primes_table"
}
check primes_table primes "g_primes" props C18 gives
  len(g_primes) == ptabn() && ptabn() >= 2 && g_primes.off == 0 && (forall i int {elems(g_primes)[i]} :: 0 <= i < ptabn() ==> elems(g_primes)[i] == ptab(i))

func IsPrime(num) (r) {
  prop C18
  uses ptab_order, ptab_first, ptab_complete, isprime_def, isprime_ld, ld_def, ld_least, ld_prime, ld_square
  modifies nothing
  exithint [small] num % 2 == 0 || num % 3 == 0 || num % 6 == 1 || num % 6 == 5
  exithint [least] num >= 2 ==> ld(num) >= 2
  exithint [factor] num >= 2 ==> num % ld(num) == 0
  ensures [exact] r <==> isprime(num)
  loop 1 {
    apply sq_near(ld(num), num, max)
    apply sq_near(2, num, max)
    invariant 2 <= i <= len(g_primes)
    invariant [root] !isprime(num) ==> ld(num) <= max
    invariant [proper] max < num && num >= 5 && (num % 6 == 1 || num % 6 == 5)
    invariant [none_divides] forall j int {ptab(j)} :: 2 <= j < i ==> num % ptab(j) != 0
  }
  loop 1 alt { // ranging over the rest of the table
    apply sq_near(ld(num), num, max)
    apply sq_near(2, num, max)
    invariant [root] !isprime(num) ==> ld(num) <= max
    invariant [proper] max < num && num >= 5 && (num % 6 == 1 || num % 6 == 5)
    invariant [none_divides] forall j int {ptab(j)} :: 2 <= j < rangeindex + 3 ==> num % ptab(j) != 0
  }
  loop 1 alt { // ranging over the whole table
    apply sq_near(ld(num), num, max)
    apply sq_near(2, num, max)
    invariant [root] !isprime(num) ==> ld(num) <= max
    invariant [proper] max < num && num >= 5 && (num % 6 == 1 || num % 6 == 5)
    invariant [none_divides] forall j int {ptab(j)} :: 2 <= j <= rangeindex ==> num % ptab(j) != 0
  }
}
