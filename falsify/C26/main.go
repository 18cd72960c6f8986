package main

import (
	"runtime"
	gosync "sync"
	"time"

	"falsify/fz"
	"falsify/sim"

	"github.com/vipally/gx/sync"
	simsync "simcopy/sync" // the same source with sync/atomic replaced by falsify/simatomic
)

// Schedule: random choices, biased towards letting one goroutine run on.
func chooser(r *fz.R) func(ids []int, last int) int {
	stay := r.Intn(4)
	return func(ids []int, last int) int {
		if r.Intn(4) < stay {
			for _, i := range ids {
				if i == last {
					return i
				}
			}
		}
		return ids[r.Intn(len(ids))]
	}
}

func main() {
	fz.Main("C26", func(r *fz.R) {
		r.Limit = 25 * time.Second
		r.Case(func() {
			r.Log("sequence: Lock, spin-out Lock, Unlock, Unlock, Lock, Unlock")
			var l sync.SpinLock
			for round := 0; round < 2; round++ {
				r.Check(fz.Panics(l.Unlock), "Unlock of an unlocked lock does not panic")
				r.Check(!fz.Panics(l.Lock), "Lock of a free lock panics")
				r.Check(fz.Panics(l.Lock), "Lock of a held lock returns or hangs instead of panicking")
				r.Check(!fz.Panics(l.Unlock), "Unlock by the holder panics")
				r.Check(fz.Panics(l.Unlock), "second Unlock does not panic")
			}
			for i := 0; i < 5000; i++ {
				l.Lock()
				l.Unlock()
			}
		})
		schedule := func() {
			r.Case(func() {
				var l simsync.SpinLock
				n := 2 + r.Intn(3)
				rounds := 1 + r.Intn(4)
				inside, total, bad := 0, 0, ""
				var fns []func()
				for i := 0; i < n; i++ {
					fns = append(fns, func() {
						for k := 0; k < rounds; k++ {
							l.Lock()
							inside++
							if inside != 1 {
								bad = "two goroutines hold the lock"
							}
							sim.Yield()
							total++
							if inside != 1 {
								bad = "two goroutines hold the lock"
							}
							inside--
							l.Unlock()
						}
					})
				}
				sched, what := sim.Run(chooser(r), 100000, fns...)
				r.Log("%d goroutines doing Lock; Unlock %d times; schedule of atomic steps %v", n, rounds, sched)
				r.Check(bad == "", "%s", bad)
				r.Check(what == "", "%s", what)
				r.Check(total == n*rounds, "%d critical sections ran, want %d", total, n*rounds)
				r.Check(fz.Panics(l.Unlock), "the lock is still held after every goroutine released it")
				r.Check(!fz.Panics(func() { l.Lock() }), "the lock cannot be acquired after every goroutine released it")
			})
		}
		stress := func() {
			r.Case(func() {
				var l sync.SpinLock
				var wg gosync.WaitGroup
				n, rounds, x := 4, 300, 0
				r.Log("%d goroutines, %d increments each under the lock", n, rounds)
				fault := make(chan any, n)
				var giveUp bool // an acquiring call may spin out on a busy machine: no verdict then
				var mu gosync.Mutex
				acquire := func(f func()) {
					if fz.Panics(f) {
						mu.Lock()
						giveUp = true
						mu.Unlock()
						panic("spun out")
					}
				}
				for i := 0; i < n; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if e := recover(); e != nil {
								fault <- e
							}
						}()
						for k := 0; k < rounds; k++ {
							acquire(l.Lock)
							x++
							if k%50 == 0 {
								runtime.Gosched()
							}
							l.Unlock()
						}
					}()
				}
				wg.Wait()
				if giveUp {
					return
				}
				select {
				case e := <-fault:
					r.Fail("a goroutine using the lock properly panics: %v", e)
				default:
				}
				r.Check(x == n*rounds, "counter %d want %d: increments lost", x, n*rounds)
			})
		}
		for r.Cases < 300 || r.More() {
			schedule()
			if r.Cases%100 == 50 {
				stress()
			}
		}
	})
}
