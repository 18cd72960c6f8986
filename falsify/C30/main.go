package main

import (
	"fmt"
	stdtime "time"

	"falsify/fz"

	"github.com/vipally/gx/time"
)

const day = int64(86400) * 1000000000

func main() {
	fz.Main("C30", func(r *fz.R) {
		one := func(d int64) {
			r.Case(func() {
				r.Log("Duration(%d).String()", d)
				g := time.Duration(d).String()
				w := stdtime.Duration(d).String()
				if d >= day {
					n := d / day
					w = fmt.Sprint(n) + "d" + stdtime.Duration(d-n*day).String()
				}
				r.Check(g == w, "Duration(%d).String() = %q, want %q", d, g, w)
			})
		}
		for _, m := range fz.ModelInts() {
			one(int64(m))
		}
		units := []int64{1, 999, 1000, 1000000, 1000000000, 60 * 1000000000, 3600 * 1000000000, day, 7 * day, 30 * day, 365 * day, 1 << 31, 1 << 32, 1 << 53, 1 << 62, 1<<63 - 1}
		for _, u := range units {
			for e := int64(-2); e <= 2; e++ {
				if v := uint64(u) + uint64(e); v < 1<<63 {
					one(int64(v))
				}
				one(-u - e)
				for k := int64(1); k < 400; k++ {
					if u <= (1<<63-1-e)/k {
						one(k*u + e)
					}
				}
			}
		}
		for k := int64(1); k <= 106751; k++ { // around every whole number of days
			if k < 2000 || k > 106000 || k%97 == 0 {
				one(k*day - 1)
				one(k * day)
				one(k*day + 1)
			}
		}
		for i := 0; i < 3000 || r.More(); i++ {
			v := int64(r.U64() >> uint(r.U64()%64))
			switch i % 4 {
			case 0:
				one(v)
			case 1:
				one(v / day * day)
			case 2:
				one(v/day*day + int64(r.U64()%1000))
			default:
				one(v/1000000000*1000000000 + int64(r.U64()%3) - 1)
			}
		}
	})
}
