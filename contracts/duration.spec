// C30: durations of a day or more print as whole days plus the remainder.
package "time"

fun stdDuration(int) str

extern (d time.Duration) String() (s) {
  modifies nothing
  ensures s == stdDuration(d)
}

// the days part and the remainder part of the text denote exactly d, whichever way they are computed
def day() := 86400000000000
func (d Duration) String() (s) {
  prop C30
  uses parts_sum
  modifies nothing
  ensures [below_a_day] d < day() ==> s == stdDuration(d)
  ensures [days_and_rest] d >= day() ==> s == itoa(d / day()) + "d" + stdDuration(d % day())
}
lemma parts_sum(d int) {
  requires d >= day()
  ensures (d / day()) * day() + d % day() == d && 0 <= d % day() && d % day() < day() && d / day() >= 1
}
