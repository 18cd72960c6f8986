package main

import (
	"falsify/fz"

	"github.com/vipally/gx/math"
)

func main() {
	fns := []struct {
		name string
		f    func(v, i uint32) (uint32, error)
		n, w uint32
	}{{"GetBit", math.GetBit, 32, 1}, {"GetByte", math.GetByte, 4, 8}, {"GetWord", math.GetWord, 2, 16}}
	fz.Main("C15", func(r *fz.R) {
		one := func(v, i uint32) {
			r.Case(func() {
				for _, g := range fns {
					x, err := g.f(v, i)
					if i >= g.n {
						r.Check(err != nil && x == 0, "%s(%#x,%d) = %#x,%v: index is out of range", g.name, v, i, x, err)
						continue
					}
					var want uint32 // built bit by bit
					for k := uint32(0); k < g.w; k++ {
						if v/pow(i*g.w+k)%2 == 1 {
							want += pow(k)
						}
					}
					r.Check(err == nil && x == want, "%s(%#x,%d) = %#x,%v want %#x", g.name, v, i, x, err, want)
				}
			})
		}
		idx := []uint32{}
		for i := uint32(0); i < 70; i++ {
			idx = append(idx, i)
		}
		for k := uint(6); k < 32; k++ {
			idx = append(idx, 1<<k-1, 1<<k, 1<<k+1)
		}
		idx = append(idx, 1<<32-1, 1<<32-2, 1<<32-32, 1<<32-4, 1<<32-8)
		vals := []uint32{0, 1, 1<<32 - 1, 1 << 31, 0x12345678, 0xdeadbeef, 0x01020304, 0xff00ff00, 0x00ff00ff, 0x80000001}
		for _, m := range fz.ModelInts() {
			vals = append(vals, uint32(m))
			idx = append(idx, uint32(m))
		}
		for k := uint(0); k < 32; k++ {
			vals = append(vals, 1<<k, ^uint32(1<<k), 1<<k-1)
		}
		for _, v := range vals {
			for _, i := range idx {
				one(v, i)
			}
		}
		for r.More() {
			one(uint32(r.U64()), uint32(r.Intn(36)))
			one(uint32(r.U64()), uint32(r.U64()))
		}
	})
}

func pow(k uint32) uint32 {
	r := uint32(1)
	for ; k > 0; k-- {
		r *= 2
	}
	return r
}
