package main

import (
	"strconv"

	"falsify/fz"

	"github.com/vipally/gx/math"
)

func want(n uint64) string {
	d := strconv.FormatUint(n, 10)
	out := ""
	for i := 0; i < len(d); i++ {
		if i > 0 && (len(d)-i)%3 == 0 {
			out += ","
		}
		out += d[i : i+1]
	}
	return out
}

func main() {
	fz.Main("C16", func(r *fz.R) {
		one := func(n uint64) {
			r.Case(func() {
				r.Log("Uint64(%d).CommaString()", n)
				g := math.Uint64(n).CommaString()
				r.Check(g == want(n), "Uint64(%d).CommaString() = %q, want %q", n, g, want(n))
			})
		}
		for _, m := range fz.ModelInts() {
			one(uint64(m))
		}
		for n := uint64(0); n < 20000; n++ {
			one(n)
			one(^n)
		}
		for p := uint64(1); ; p *= 10 { // around every digit count, groups of zeros and nines
			for k := uint64(1); k < 1000 && p <= ^uint64(0)/(k+1); k++ {
				for e := uint64(0); e < 3; e++ {
					one(p*k + e - 1)
				}
			}
			if p > ^uint64(0)/10 {
				break
			}
		}
		for b := uint(0); b < 64; b++ {
			for e := uint64(0); e < 5; e++ {
				one(1<<b + e - 2)
			}
		}
		groups := []uint64{0, 1, 9, 10, 99, 100, 999, 500, 7}
		for i := 0; i < 20000 || r.More(); i++ {
			if i%2 == 0 {
				one(r.U64() >> uint(r.U64()%64))
				continue
			}
			n := uint64(0)
			for k := r.U64() % 7; ; k-- {
				n = n*1000 + groups[r.U64()%uint64(len(groups))]
				if k == 0 {
					break
				}
			}
			one(n)
		}
	})
}
