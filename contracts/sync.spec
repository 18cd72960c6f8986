// C26, C27: spin locks under every interleaving.
//
// Ghost variables of the goroutine under verification: hold (spin locks it holds, 0 or 1), myw (its
// claim as a writer), inw (it is inside the write section), myr (read locks it holds), nch (number of
// its steps that changed the lock word). He, We, Ie, Re are the sums of hold, myw, inw, myr over all
// other goroutines: the constraints every goroutine keeps for itself (0<=inw<=myw<=hold, 0<=myr) are
// linear, so they hold of the sums. quiet=1 selects executions in which
// no other goroutine holds or claims the write lock and no other takes a step (readers may be inside).
package "sync"

ghost var hold int
ghost var He int
ghost var myw int
ghost var We int
ghost var inw int
ghost var Ie int
ghost var myr int
ghost var Re int
ghost var nch int
ghost var quiet int

region spin(this SpinLock) {
  loc this.state {
    step hold := hold + (after - before)
    step nch := nch + ite(before == after, 0, 1)
  }
  env He
  rely He >= 0 && (quiet == 1 ==> He == 0)
  invariant [word_is_holder_count] this.state == hold + He
  invariant [at_most_one_holder] hold + He <= 1
  invariant [own_count] hold >= 0
}

func (this *SpinLock) Lock() {
  prop C26
  region spin(this)
  requires this != nil && hold == 0 && nch == 0
  modifies this.state, hold, He, nch
  maypanic if quiet != 1
  flag panicpost
  exithint [onpanic_without_lock] hold == 0 && nch == 0
  ensures [acquired] hold == 1
  ensures [one_step] nch == 1
  loop 1 {
    invariant 0 <= i <= 16777217 && hold == old(hold) && nch == old(nch) && (quiet == 1 ==> i == 0)
    invariant myw == old(myw) && inw == old(inw) && myr == old(myr)
    decreases 16777218 - i
  }
}
func (this *SpinLock) Unlock() {
  prop C26
  region spin(this)
  requires this != nil && 0 <= hold <= 1 && nch == 0
  rely hold == 1 || He == 0
  modifies this.state, hold, He, nch
  panics hold == 0
  flag panicpost
  exithint [onpanic_unchanged] hold == 0 && nch == 0
  ensures [released] hold == 0
  ensures [one_step] nch == 1
}

region rw(this RWSpinLock) {
  loc this.w.state {
    step hold := hold + (after - before)
    step nch := nch + ite(before == after, 0, 1)
  }
  loc this.readerCount {
    step myr := myr + ite(after - before == 1, 1, ite(after - before == -1, -1, 0))
    step myw := myw + ite(after - before == -1073741824, 1, ite(after - before == 1073741824, -1, 0))
    step inw := ite(myw == 1 && after == -1073741824, 1, 0)
    step nch := nch + ite(before == after, 0, 1)
  }
  env He, We, Ie, Re
  rely 0 <= Ie && Ie <= We && We <= He && 0 <= Re
  rely quiet == 1 ==> He == 0 && Re == old(Re)
  bound [readers] myr + Re < 1073741824
  invariant [writer_word] this.w.state == hold + He && hold + He <= 1
  invariant [count_word] this.readerCount == myr + Re - 1073741824 * (myw + We)
  invariant [own_claims] 0 <= inw && inw <= myw && myw <= hold && 0 <= myr
  invariant [writer_excludes_readers] inw + Ie >= 1 ==> myr + Re == 0
}

func (this *RWSpinLock) Lock() {
  prop C27
  region rw(this)
  flag inlineall
  requires this != nil && hold == 0 && myw == 0 && inw == 0 && myr >= 0 && nch == 0
  modifies this.w.state, this.readerCount, hold, He, myw, We, inw, Ie, myr, Re, nch
  rely quiet == 1 ==> Re == 0
  maypanic if quiet != 1 || myr > 0
  flag panicpost
  exithint [onpanic_without_lock] hold == 0 && myw == 0 && inw == 0 && myr == old(myr)
  ensures [write_lock_held] inw == 1 && myw == 1 && hold == 1
  ensures [reads] myr == old(myr)
  loop 1 {
    invariant 0 <= i <= 16777217 && hold == 1 && myw == 1 && myr == old(myr) && (quiet == 1 && myr == 0 ==> i == 0)
    decreases 16777218 - i
  }
  loop 1 alt { // a bounded wait, the panic after it
    invariant 0 <= i <= 16777218 && hold == 1 && myw == 1 && myr == old(myr) && (quiet == 1 && myr == 0 ==> i == 0)
    decreases 16777219 - i
  }
}
func (this *RWSpinLock) Unlock() {
  prop C27
  region rw(this)
  flag inlineall
  requires this != nil && 0 <= inw && inw <= myw && myw <= hold && hold <= 1 && myr >= 0 && nch == 0
  requires inw == 1 || hold == 0
  rely inw == 1 || hold == 0 && nch == 0 && this.readerCount != -1073741824 || nch > 0
  modifies this.w.state, this.readerCount, hold, He, myw, We, inw, Ie, myr, Re, nch
  panics inw == 0
  flag panicpost
  exithint [onpanic_unchanged] nch == 0
  ensures [released] inw == 0 && myw == 0 && hold == 0
  ensures [reads] myr == old(myr)
}
func (this *RWSpinLock) RLock() {
  prop C27
  region rw(this)
  flag inlineall
  requires this != nil && hold == 0 && myw == 0 && inw == 0 && myr >= 0 && nch == 0
  modifies this.w.state, this.readerCount, hold, He, myw, We, inw, Ie, myr, Re, nch
  maypanic if quiet != 1
  flag panicpost
  exithint [onpanic_unchanged] nch == 0
  ensures [read_lock_held] myr == old(myr) + 1 && nch == 1
  ensures [no_write_claim] hold == 0 && myw == 0 && inw == 0
  loop 1 {
    invariant 0 <= i <= 16777217 && hold == 0 && myw == 0 && inw == 0 && myr == old(myr) && nch == 0 && (quiet == 1 ==> i == 0)
    decreases 16777218 - i
  }
}
func (this *RWSpinLock) RUnlock() {
  prop C27
  region rw(this)
  flag inlineall
  flag noterm
  requires this != nil && hold == 0 && myw == 0 && inw == 0 && myr >= 0 && nch == 0
  rely old(myr) >= 1 || Re == 0
  modifies this.w.state, this.readerCount, hold, He, myw, We, inw, Ie, myr, Re, nch
  panics myr == 0
  flag panicpost
  exithint [onpanic_unchanged] nch == 0
  ensures [released] myr == old(myr) - 1 && nch == 1
  ensures [no_write_claim] hold == 0 && myw == 0 && inw == 0
  loop 1 {
    invariant hold == 0 && myw == 0 && inw == 0 && myr == old(myr) && nch == 0
    hint [retry_only_after_interference] quiet != 1
  }
}
