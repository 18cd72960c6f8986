package main

import (
	"sort"
	gosync "sync"

	"falsify/fz"
	"falsify/sim"

	"github.com/vipally/gx/math/rand"
	simrand "simcopy/math/rand" // the same source with sync/atomic replaced by falsify/simatomic
)

func next32(s uint32) uint32 { return s*7368787 + 2750159 }
func next64(s uint64) uint64 { return s*4294955897 + 4094975977 }

func main() {
	fz.Main("C29", func(r *fz.R) {
		one := func(seed, a, b uint64) {
			r.Case(func() {
				s, x, y := uint32(seed), uint32(a), uint32(b)
				lo, hi := x, y
				if lo > hi {
					lo, hi = hi, lo
				}
				g := rand.NewRand32S(s)
				r.Check(g.Seed() == s, "NewRand32S(%d).Seed() = %d", s, g.Seed())
				v := g.RandRange(x, y)
				r.Check(lo <= v && v <= hi, "seed %d: RandRange32(%d,%d) = %d", s, x, y, v)
				r.Check(g.Seed() == next32(s), "seed %d: RandRange32(%d,%d) left state %d, want one step: %d", s, x, y, g.Seed(), next32(s))
				r.Check(g.Srand(s) == next32(s) && g.Seed() == s, "Srand32(%d) does not return the old state and set the new", s)
				v = g.RandMax(x)
				r.Check(x == 0 || v < x, "seed %d: RandMax32(%d) = %d", s, x, v)
				r.Check(g.Seed() == next32(s), "seed %d: RandMax32(%d) left state %d, want one step: %d", s, x, g.Seed(), next32(s))
				g.Srand(s)
				v = g.Rand()
				r.Check(v == next32(s) && g.Seed() == v, "seed %d: Rand32 = %d, state %d, want %d", s, v, g.Seed(), next32(s))
				v = rand.RandRange32(x, y)
				r.Check(lo <= v && v <= hi, "global RandRange32(%d,%d) = %d", x, y, v)
				v = rand.RandMax32(x)
				r.Check(x == 0 || v < x, "global RandMax32(%d) = %d", x, v)
				w := rand.Rand32()
				r.Check(rand.Rand32() == next32(w), "global Rand32 after %d is not one step further", w)
			})
			r.Case(func() {
				s, x, y := seed, a, b
				lo, hi := x, y
				if lo > hi {
					lo, hi = hi, lo
				}
				g := rand.NewRand64S(s)
				r.Check(g.Seed() == s, "NewRand64S(%d).Seed() = %d", s, g.Seed())
				v := g.RandRange(x, y)
				r.Check(lo <= v && v <= hi, "seed %d: RandRange64(%d,%d) = %d", s, x, y, v)
				r.Check(g.Seed() == next64(s), "seed %d: RandRange64(%d,%d) left state %d, want one step: %d", s, x, y, g.Seed(), next64(s))
				r.Check(g.Srand(s) == next64(s) && g.Seed() == s, "Srand64(%d) does not return the old state and set the new", s)
				v = g.RandMax(x)
				r.Check(x == 0 || v < x, "seed %d: RandMax64(%d) = %d", s, x, v)
				r.Check(g.Seed() == next64(s), "seed %d: RandMax64(%d) left state %d, want one step: %d", s, x, g.Seed(), next64(s))
				g.Srand(s)
				v = g.Rand()
				r.Check(v == next64(s) && g.Seed() == v, "seed %d: Rand64 = %d, state %d, want %d", s, v, g.Seed(), next64(s))
				v = rand.RandRange64(x, y)
				r.Check(lo <= v && v <= hi, "global RandRange64(%d,%d) = %d", x, y, v)
				v = rand.RandMax64(x)
				r.Check(x == 0 || v < x, "global RandMax64(%d) = %d", x, v)
				w := rand.Rand64()
				r.Check(rand.Rand64() == next64(w), "global Rand64 after %d is not one step further", w)
			})
		}
		// concurrent calls: together they return exactly the next values of the recurrence
		conc := func() {
			r.Case(func() {
				s := r.U64()
				n, k := 2+r.Intn(3), 1+r.Intn(3)
				g32, g64 := simrand.NewRand32S(uint32(s)), simrand.NewRand64S(s)
				var got32, got64 []uint64
				var fns []func()
				for i := 0; i < n; i++ {
					fns = append(fns, func() {
						for j := 0; j < k; j++ {
							v, w := g32.Rand(), g64.Rand()
							got32, got64 = append(got32, uint64(v)), append(got64, w)
						}
					})
				}
				sched, bad := sim.Run(func(ids []int, last int) int { return ids[r.Intn(len(ids))] }, 100000, fns...)
				r.Log("seed %d, %d goroutines call Rand %d times, schedule %v", s, n, k, sched)
				r.Check(bad == "", "%s", bad)
				var w32, w64 []uint64
				x, y := uint32(s), s
				for i := 0; i < n*k; i++ {
					x, y = next32(x), next64(y)
					w32, w64 = append(w32, uint64(x)), append(w64, y)
				}
				for _, p := range [][2][]uint64{{got32, w32}, {got64, w64}} {
					for _, q := range p {
						sort.Slice(q, func(i, j int) bool { return q[i] < q[j] })
					}
					for i := range p[0] {
						r.Check(p[0][i] == p[1][i], "concurrent calls returned %v, the recurrence gives %v", p[0], p[1])
					}
				}
			})
		}
		vals := []uint64{0, 1, 2, 3, 7, 10, 1 << 31, 1<<31 - 1, 1<<31 + 1, 1<<32 - 1, 1<<32 - 2, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2}
		vals = append(vals, fz.ModelInts()...)
		for _, s := range []uint64{0, 1, 12345, 1<<64 - 1, 1<<32 - 1} {
			for _, a := range vals {
				for _, b := range vals {
					one(s, a, b)
				}
			}
		}
		for i := 0; i < 300 || r.More(); i++ {
			one(r.U64(), r.U64(), r.U64())
			b := r.U64()
			one(r.U64(), b, b+uint64(r.Intn(20)))
			if i%20 == 0 {
				conc()
			}
		}
		var wg gosync.WaitGroup
		g := rand.NewRand64S(1)
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 1000; j++ {
					g.Rand()
				}
			}()
		}
		wg.Wait()
		x := uint64(1)
		for i := 0; i < 4000; i++ {
			x = next64(x)
		}
		r.Case(func() {
			r.Check(g.Seed() == x, "4000 concurrent calls advanced the generator to %d, want %d", g.Seed(), x)
		})
	})
}
