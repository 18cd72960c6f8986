package main

import (
	gosync "sync"
	"time"

	"falsify/fz"
	"falsify/sim"

	"github.com/vipally/gx/sync"
	simsync "simcopy/sync" // the same source with sync/atomic replaced by falsify/simatomic
)

func chooser(r *fz.R) func(ids []int, last int) int {
	stay := r.Intn(4)
	return func(ids []int, last int) int {
		if r.Intn(4) < stay {
			for _, i := range ids {
				if i == last {
					return i
				}
			}
		}
		return ids[r.Intn(len(ids))]
	}
}

func main() {
	fz.Main("C27", func(r *fz.R) {
		r.Limit = 25 * time.Second
		usable := func(l *sync.RWSpinLock, when string) {
			r.Check(!fz.Panics(l.Lock), "%s: Lock of a free lock panics", when)
			r.Check(!fz.Panics(l.Unlock), "%s: Unlock by the writer panics", when)
			r.Check(!fz.Panics(l.RLock), "%s: RLock of a free lock panics", when)
			r.Check(!fz.Panics(l.RLock), "%s: second reader cannot enter", when)
			r.Check(!fz.Panics(l.RUnlock), "%s: RUnlock by a reader panics", when)
			r.Check(!fz.Panics(l.RUnlock), "%s: RUnlock by the last reader panics", when)
			r.Check(fz.Panics(l.RUnlock), "%s: RUnlock of a lock nobody reads does not panic", when)
			r.Check(fz.Panics(l.Unlock), "%s: Unlock of an unlocked lock does not panic", when)
			r.Check(!fz.Panics(l.Lock), "%s: Lock of a free lock panics", when)
			r.Check(fz.Panics(l.RUnlock), "%s: RUnlock of a write-locked lock does not panic", when)
			r.Check(!fz.Panics(l.Unlock), "%s: Unlock by the writer panics", when)
			r.Check(fz.Panics(l.Unlock), "%s: second Unlock does not panic", when)
		}
		r.Case(func() {
			var l sync.RWSpinLock
			usable(&l, "new lock")
			usable(&l, "used lock")
			l.RLock()
			r.Check(fz.Panics(l.Unlock), "Unlock of a lock that is only read-locked does not panic")
			r.Log("RLock; Lock spins out")
			r.Check(fz.Panics(l.Lock), "Lock returns while a reader is inside")
			r.Check(!fz.Panics(l.RLock), "reader cannot enter beside a reader after a writer gave up")
			r.Check(!fz.Panics(l.RUnlock), "RUnlock panics after a writer gave up")
			r.Check(!fz.Panics(l.RUnlock), "RUnlock of the last reader panics after a writer gave up")
			usable(&l, "after a writer gave up")
			r.Log("Lock; RLock spins out; Lock spins out")
			l.Lock()
			r.Check(fz.Panics(l.RLock), "RLock returns while a writer is inside")
			r.Check(fz.Panics(l.Lock), "Lock returns while a writer is inside")
			r.Check(!fz.Panics(l.Unlock), "Unlock by the writer panics")
			usable(&l, "after a reader and a writer gave up")
			for i := 0; i < 2000; i++ {
				l.Lock()
				l.Unlock()
				l.RLock()
				l.RUnlock()
			}
			for i := 0; i < 100; i++ {
				l.RLock()
			}
			for i := 0; i < 100; i++ {
				r.Check(!fz.Panics(l.RUnlock), "RUnlock by one of 100 readers panics")
			}
			usable(&l, "after 100 readers")
		})
		schedule := func() {
			r.Case(func() {
				var l simsync.RWSpinLock
				n := 2 + r.Intn(3)
				readers, writers, done, want, bad := 0, 0, 0, 0, ""
				chk := func() {
					if writers > 1 {
						bad = "two goroutines hold the write lock"
					}
					if writers == 1 && readers > 0 {
						bad = "a reader and a writer hold the lock together"
					}
				}
				var fns []func()
				var scripts []string
				for i := 0; i < n; i++ {
					s := ""
					for k := 1 + r.Intn(4); k > 0; k-- {
						s += string("rw"[r.Intn(2)])
					}
					want += len(s)
					scripts = append(scripts, s)
					fns = append(fns, func() {
						for _, c := range s {
							if c == 'r' {
								l.RLock()
								readers++
								chk()
								sim.Yield()
								chk()
								readers--
								l.RUnlock()
							} else {
								l.Lock()
								writers++
								chk()
								sim.Yield()
								chk()
								writers--
								l.Unlock()
							}
							done++
						}
					})
				}
				sched, what := sim.Run(chooser(r), 200000, fns...)
				r.Log("goroutines doing (r: RLock, RUnlock; w: Lock, Unlock) %v; schedule of atomic steps %v", scripts, sched)
				r.Check(bad == "", "%s", bad)
				r.Check(what == "", "%s", what)
				r.Check(done == want, "%d sections ran, want %d", done, want)
				r.Check(fz.Panics(l.Unlock) && fz.Panics(l.RUnlock), "the lock is still held after every goroutine released it")
				r.Check(!fz.Panics(l.Lock) && !fz.Panics(l.Unlock), "the lock cannot be acquired after every goroutine released it")
			})
		}
		stress := func() {
			r.Case(func() {
				var l sync.RWSpinLock
				var wg gosync.WaitGroup
				n, rounds, x := 4, 100, 0
				r.Log("%d goroutines, %d writes and reads each under the lock", n, rounds)
				fault := make(chan any, n)
				var giveUp bool // an acquiring call may spin out on a busy machine: no verdict then
				var mu gosync.Mutex
				acquire := func(f func()) {
					if fz.Panics(f) {
						mu.Lock()
						giveUp = true
						mu.Unlock()
						panic("spun out")
					}
				}
				for i := 0; i < n; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if e := recover(); e != nil {
								fault <- e
							}
						}()
						for k := 0; k < rounds; k++ {
							acquire(l.Lock)
							x++
							l.Unlock()
							acquire(l.RLock)
							_ = x
							l.RUnlock()
						}
					}()
				}
				wg.Wait()
				if giveUp {
					return
				}
				select {
				case e := <-fault:
					r.Fail("a goroutine using the lock properly panics: %v", e)
				default:
				}
				r.Check(x == n*rounds, "counter %d want %d: increments lost", x, n*rounds)
			})
		}
		for r.Cases < 300 || r.More() {
			schedule()
			if r.Cases%100 == 50 {
				stress()
			}
		}
	})
}
