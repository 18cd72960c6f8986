// C29: bounded random numbers. GENERATED by tools/mkrand.py.
//
// Ghosts: nst counts this goroutine's writes of the generator state, lb and la are the state before and
// after the last one, lv the value last read. Other goroutines may write the state at any moment.
package "math/rand"
import xtime "github.com/vipally/gx/time"

ghost var nst int
ghost var lb int
ghost var la int
ghost var lv int
ghost var quiet int

extern xtime.RDTSC() (r) {
  modifies nothing
}
extern time.Now() (t) {
  modifies nothing
}
extern (t time.Time) Unix() (s) {
  modifies nothing
}

region lcg32(me Rand32T) {
  loc me.seed {
    step nst := nst + ite(wrote, 1, 0)
    step lb := ite(wrote, before, lb)
    step la := ite(wrote, after, la)
    step lv := before
  }
  rely quiet == 1 ==> me.seed == old(me.seed)
}
def stepped32() := nst == 1 && la == (lb * 7368787 + 2750159) % 4294967296

func NewRand32S(seed) (r) {
  prop C29
  modifies nothing
  ensures r != nil && fresh(r) && r.seed == seed
}
func (me *Rand32T) Rand() (r) {
  prop C29
  region lcg32(me)
  flag noterm
  requires me != nil && nst == 0
  modifies me.seed, nst, lb, la, lv
  ensures [one_step] stepped32()
  ensures [value] r == la
  loop 1 {
    invariant nst == 0
    hint [retry_only_after_interference] quiet != 1
  }
  loop 1 alt { // reading again at the end of the loop
    locals o "uint32"
    invariant nst == 0 && (quiet == 1 ==> o == me.seed)
    hint [retry_only_after_interference] quiet != 1
  }
}
func (me *Rand32T) RandRange(min, max) (r) {
  prop C29
  region lcg32(me)
  flag inlineall
  flag noterm
  requires me != nil && nst == 0
  modifies me.seed, nst, lb, la, lv
  ensures [lower] ite(min <= max, min, max) <= r
  ensures [upper] r <= ite(min <= max, max, min)
  ensures [one_step] stepped32()
}
func (me *Rand32T) RandMax(max) (r) {
  prop C29
  region lcg32(me)
  flag inlineall
  flag noterm
  requires me != nil && nst == 0
  modifies me.seed, nst, lb, la, lv
  ensures [below] max > 0 ==> r < max
  ensures [one_step] stepped32()
}
func (me *Rand32T) Seed() (r) {
  prop C29
  region lcg32(me)
  requires me != nil && nst == 0
  modifies nst, lb, la, lv
  ensures r == lv && nst == 0
}
func (me *Rand32T) Srand(seed) (r) {
  prop C29
  region lcg32(me)
  requires me != nil && nst == 0
  modifies me.seed, nst, lb, la, lv
  ensures [set] nst == 1 && la == seed && r == lb
}
globalinv [C29] gRand32 != nil
func NewRand32() (r) {
  prop C29
  region lcg32(gRand32)
  flag noterm
  entryghost nst := 0
  modifies gRand32.seed, nst, lb, la, lv
  ensures r != nil && fresh(r)
}
func Rand32() (r) {
  prop C29
  region lcg32(gRand32)
  flag inlineall
  flag noterm
  requires nst == 0
  modifies gRand32.seed, nst, lb, la, lv
  ensures [one_step] stepped32()
  ensures [value] r == la
}
func RandMax32(max) (r) {
  prop C29
  region lcg32(gRand32)
  flag inlineall
  flag noterm
  requires nst == 0
  modifies gRand32.seed, nst, lb, la, lv
  ensures [below] max > 0 ==> r < max
  ensures [one_step] stepped32()
}
func RandRange32(min, max) (r) {
  prop C29
  region lcg32(gRand32)
  flag inlineall
  flag noterm
  requires nst == 0
  modifies gRand32.seed, nst, lb, la, lv
  ensures [lower] ite(min <= max, min, max) <= r
  ensures [upper] r <= ite(min <= max, max, min)
  ensures [one_step] stepped32()
}

region lcg64(me Rand64T) {
  loc me.seed {
    step nst := nst + ite(wrote, 1, 0)
    step lb := ite(wrote, before, lb)
    step la := ite(wrote, after, la)
    step lv := before
  }
  rely quiet == 1 ==> me.seed == old(me.seed)
}
def stepped64() := nst == 1 && la == (lb * 4294955897 + 4094975977) % 18446744073709551616

func NewRand64S(seed) (r) {
  prop C29
  modifies nothing
  ensures r != nil && fresh(r) && r.seed == seed
}
func (me *Rand64T) Rand() (r) {
  prop C29
  region lcg64(me)
  flag noterm
  requires me != nil && nst == 0
  modifies me.seed, nst, lb, la, lv
  ensures [one_step] stepped64()
  ensures [value] r == la
  loop 1 {
    invariant nst == 0
    hint [retry_only_after_interference] quiet != 1
  }
  loop 1 alt { // reading again at the end of the loop
    locals o "uint64"
    invariant nst == 0 && (quiet == 1 ==> o == me.seed)
    hint [retry_only_after_interference] quiet != 1
  }
}
func (me *Rand64T) RandRange(min, max) (r) {
  prop C29
  region lcg64(me)
  flag inlineall
  flag noterm
  requires me != nil && nst == 0
  modifies me.seed, nst, lb, la, lv
  ensures [lower] ite(min <= max, min, max) <= r
  ensures [upper] r <= ite(min <= max, max, min)
  ensures [one_step] stepped64()
}
func (me *Rand64T) RandMax(max) (r) {
  prop C29
  region lcg64(me)
  flag inlineall
  flag noterm
  requires me != nil && nst == 0
  modifies me.seed, nst, lb, la, lv
  ensures [below] max > 0 ==> r < max
  ensures [one_step] stepped64()
}
func (me *Rand64T) Seed() (r) {
  prop C29
  region lcg64(me)
  requires me != nil && nst == 0
  modifies nst, lb, la, lv
  ensures r == lv && nst == 0
}
func (me *Rand64T) Srand(seed) (r) {
  prop C29
  region lcg64(me)
  requires me != nil && nst == 0
  modifies me.seed, nst, lb, la, lv
  ensures [set] nst == 1 && la == seed && r == lb
}
globalinv [C29] gRand64 != nil
func NewRand64() (r) {
  prop C29
  region lcg64(gRand64)
  flag noterm
  entryghost nst := 0
  modifies gRand64.seed, nst, lb, la, lv
  ensures r != nil && fresh(r)
}
func Rand64() (r) {
  prop C29
  region lcg64(gRand64)
  flag inlineall
  flag noterm
  requires nst == 0
  modifies gRand64.seed, nst, lb, la, lv
  ensures [one_step] stepped64()
  ensures [value] r == la
}
func RandMax64(max) (r) {
  prop C29
  region lcg64(gRand64)
  flag inlineall
  flag noterm
  requires nst == 0
  modifies gRand64.seed, nst, lb, la, lv
  ensures [below] max > 0 ==> r < max
  ensures [one_step] stepped64()
}
func RandRange64(min, max) (r) {
  prop C29
  region lcg64(gRand64)
  flag inlineall
  flag noterm
  requires nst == 0
  modifies gRand64.seed, nst, lb, la, lv
  ensures [lower] ite(min <= max, min, max) <= r
  ensures [upper] r <= ite(min <= max, max, min)
  ensures [one_step] stepped64()
}
