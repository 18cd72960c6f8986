package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"falsify/fz"

	"github.com/vipally/gx/math/prime"
)

var small []uint64 // primes below 2^16

const seg = 1 << 18

// sieve returns, for lo..lo+seg, which numbers are composite (or below 2)
func sieve(lo uint64, buf []bool) {
	for i := range buf {
		buf[i] = false
	}
	for i := uint64(0); i < seg && lo+i < 2; i++ {
		buf[i] = true
	}
	for _, p := range small {
		if p*p >= lo+seg {
			break
		}
		s := (lo + p - 1) / p * p
		if s < p*p {
			s = p * p
		}
		for ; s < lo+seg; s += p {
			buf[s-lo] = true
		}
	}
}

func isPrime(n uint64) bool {
	if n < 2 {
		return false
	}
	for _, p := range small {
		if p*p > n {
			break
		}
		if n%p == 0 {
			return false
		}
	}
	return true
}

func main() {
	c := make([]bool, 1<<16)
	for p := 2; p < 1<<16; p++ {
		if !c[p] {
			small = append(small, uint64(p))
			for q := p * p; q < 1<<16; q += p {
				c[q] = true
			}
		}
	}
	fz.Main("C18", func(r *fz.R) {
		one := func(n uint64) {
			if n >= 1<<32 {
				return
			}
			r.Case(func() {
				r.Log("IsPrime(%d)", n)
				g := prime.IsPrime(uint32(n))
				r.Check(g == isPrime(n), "IsPrime(%d) = %v", n, g)
			})
		}
		for _, m := range fz.ModelInts() {
			one(m & (1<<32 - 1))
		}
		for n := uint64(0); n < 3000; n++ {
			one(n)
			one(1<<32 - 1 - n)
		}
		for i, p := range small { // squares of primes and products of neighbouring primes
			one(p * p)
			if i > 0 {
				one(p * small[i-1])
			}
			if i > 1 {
				one(p * small[i-2])
			}
		}
		for k := uint64(2); k < 200; k++ {
			for _, p := range small[max(0, len(small)-150):] {
				one(k * p)
			}
		}
		if !fz.Exhaust() {
			for r.More() {
				p := small[r.Intn(len(small))]
				switch r.Intn(4) {
				case 0:
					one(p * small[r.Intn(len(small))])
				case 1:
					one(r.U64() & (1<<32 - 1))
				case 2:
					one(uint64(r.Uint32()) | 1)
				default:
					one(p + uint64(r.Intn(3)) - 1)
				}
			}
			return
		}
		var next uint64
		var bad atomic.Uint64
		bad.Store(1 << 40)
		var wg sync.WaitGroup
		for w := 0; w < runtime.NumCPU(); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				buf := make([]bool, seg)
				cur := uint64(0)
				defer func() {
					if e := recover(); e != nil {
						bad.Store(cur)
					}
				}()
				for {
					lo := atomic.AddUint64(&next, seg) - seg
					if lo >= 1<<32 || bad.Load() < 1<<40 || !r.More() {
						return
					}
					sieve(lo, buf)
					for cur = lo; cur < lo+seg; cur++ {
						if prime.IsPrime(uint32(cur)) == buf[cur-lo] {
							bad.Store(cur)
							return
						}
					}
				}
			}()
		}
		wg.Wait()
		if b := bad.Load(); b < 1<<40 {
			one(b)
			r.Fail("IsPrime(%d) misbehaves", b)
		}
		done := min(atomic.LoadUint64(&next), 1<<32)
		r.Cases += int64(done)
		if r.More() {
			r.Complete(fmt.Sprintf("all %d inputs", uint64(1)<<32))
		}
	})
}
