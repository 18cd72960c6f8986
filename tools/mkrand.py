#!/usr/bin/env python3
# writes contracts/rand.spec: the 32- and 64-bit generators have the same contracts up to width and constants
T = '''
region lcg@W@(me Rand@W@T) {
  loc me.seed {
    step nst := nst + ite(wrote, 1, 0)
    step lb := ite(wrote, before, lb)
    step la := ite(wrote, after, la)
    step lv := before
  }
  rely quiet == 1 ==> me.seed == old(me.seed)
}
def stepped@W@() := nst == 1 && la == (lb * @A@ + @C@) % @M@

func NewRand@W@S(seed) (r) {
  prop C29
  modifies nothing
  ensures r != nil && fresh(r) && r.seed == seed
}
func (me *Rand@W@T) Rand() (r) {
  prop C29
  region lcg@W@(me)
  flag noterm
  requires me != nil && nst == 0
  modifies me.seed, nst, lb, la, lv
  ensures [one_step] stepped@W@()
  ensures [value] r == la
  loop 1 {
    invariant nst == 0
    hint [retry_only_after_interference] quiet != 1
  }
  loop 1 alt { // reading again at the end of the loop
    locals o "uint@W@"
    invariant nst == 0 && (quiet == 1 ==> o == me.seed)
    hint [retry_only_after_interference] quiet != 1
  }
}
func (me *Rand@W@T) RandRange(min, max) (r) {
  prop C29
  region lcg@W@(me)
  flag inlineall
  flag noterm
  requires me != nil && nst == 0
  modifies me.seed, nst, lb, la, lv
  ensures [lower] ite(min <= max, min, max) <= r
  ensures [upper] r <= ite(min <= max, max, min)
  ensures [one_step] stepped@W@()
}
func (me *Rand@W@T) RandMax(max) (r) {
  prop C29
  region lcg@W@(me)
  flag inlineall
  flag noterm
  requires me != nil && nst == 0
  modifies me.seed, nst, lb, la, lv
  ensures [below] max > 0 ==> r < max
  ensures [one_step] stepped@W@()
}
func (me *Rand@W@T) Seed() (r) {
  prop C29
  region lcg@W@(me)
  requires me != nil && nst == 0
  modifies nst, lb, la, lv
  ensures r == lv && nst == 0
}
func (me *Rand@W@T) Srand(seed) (r) {
  prop C29
  region lcg@W@(me)
  requires me != nil && nst == 0
  modifies me.seed, nst, lb, la, lv
  ensures [set] nst == 1 && la == seed && r == lb
}
globalinv [C29] gRand@W@ != nil
func NewRand@W@() (r) {
  prop C29
  region lcg@W@(gRand@W@)
  flag noterm
  entryghost nst := 0
  modifies gRand@W@.seed, nst, lb, la, lv
  ensures r != nil && fresh(r)
}
func Rand@W@() (r) {
  prop C29
  region lcg@W@(gRand@W@)
  flag inlineall
  flag noterm
  requires nst == 0
  modifies gRand@W@.seed, nst, lb, la, lv
  ensures [one_step] stepped@W@()
  ensures [value] r == la
}
func RandMax@W@(max) (r) {
  prop C29
  region lcg@W@(gRand@W@)
  flag inlineall
  flag noterm
  requires nst == 0
  modifies gRand@W@.seed, nst, lb, la, lv
  ensures [below] max > 0 ==> r < max
  ensures [one_step] stepped@W@()
}
func RandRange@W@(min, max) (r) {
  prop C29
  region lcg@W@(gRand@W@)
  flag inlineall
  flag noterm
  requires nst == 0
  modifies gRand@W@.seed, nst, lb, la, lv
  ensures [lower] ite(min <= max, min, max) <= r
  ensures [upper] r <= ite(min <= max, max, min)
  ensures [one_step] stepped@W@()
}
'''
out = '''// C29: bounded random numbers. GENERATED by tools/mkrand.py.
//
// Ghosts: nst counts this goroutine's writes of the generator state, lb and la are the state before and
// after the last one, lv the value last read. Other goroutines may write the state at any moment.
package "math/rand"
import xtime "github.com/vipally/gx/time"

ghost var nst int
ghost var lb int
ghost var la int
ghost var lv int
ghost var quiet int

extern xtime.RDTSC() (r) {
  modifies nothing
}
extern time.Now() (t) {
  modifies nothing
}
extern (t time.Time) Unix() (s) {
  modifies nothing
}
'''
for w, a, c in (('32', 7368787, 2750159), ('64', 4294955897, 4094975977)):
    out += T.replace('@W@', w).replace('@A@', str(a)).replace('@C@', str(c)).replace('@M@', str(2 ** int(w)))
open('/verif/contracts/rand.spec', 'w').write(out)
