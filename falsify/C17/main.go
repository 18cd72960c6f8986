package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"falsify/fz"

	"github.com/vipally/gx/math/prime"
)

// nearest: is r the integer nearest to the square root of n?
func nearest(n, r uint32) bool {
	a, b := uint64(n), uint64(r)
	if 4*a >= (2*b+1)*(2*b+1) {
		return false
	}
	return b == 0 || (2*b-1)*(2*b-1) < 4*a
}

func main() {
	fz.Main("C17", func(r *fz.R) {
		one := func(n uint32) {
			r.Case(func() {
				r.Log("SqrtUint32(%d)", n)
				g := prime.SqrtUint32(n)
				r.Check(nearest(n, g), "SqrtUint32(%d) = %d is not the nearest integer to its square root", n, g)
			})
		}
		for _, m := range fz.ModelInts() {
			one(uint32(m))
		}
		for k := uint64(0); k <= 65536; k++ { // around every square and every midpoint
			for _, c := range []uint64{k * k, k*k + k} {
				for d := uint64(0); d < 3; d++ {
					if x := c + d - 1; x < 1<<32 {
						one(uint32(x))
					}
				}
			}
		}
		if !fz.Exhaust() {
			for r.More() {
				one(uint32(r.U64()))
			}
			return
		}
		// every 32-bit input
		var next uint64
		var bad atomic.Uint64
		bad.Store(1 << 40)
		var wg sync.WaitGroup
		for w := 0; w < runtime.NumCPU(); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cur := uint64(0)
				defer func() {
					if e := recover(); e != nil {
						bad.Store(cur)
					}
				}()
				for {
					lo := atomic.AddUint64(&next, 1<<20) - 1<<20
					if lo >= 1<<32 || bad.Load() < 1<<40 {
						return
					}
					for cur = lo; cur < lo+1<<20; cur++ {
						if !nearest(uint32(cur), prime.SqrtUint32(uint32(cur))) {
							bad.Store(cur)
							return
						}
					}
				}
			}()
		}
		wg.Wait()
		if b := bad.Load(); b < 1<<40 {
			one(uint32(b))
			r.Fail("SqrtUint32(%d) misbehaves", b)
		}
		r.Cases += 1 << 32
		r.Complete(fmt.Sprintf("all %d inputs", uint64(1)<<32))
	})
}
