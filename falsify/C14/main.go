package main

import (
	"math/big"

	"falsify/fz"

	"github.com/vipally/gx/math"
)

type ranged[T uint32 | uint64] interface {
	Init(v, min, max T) error
	Reset() bool
	ResetR() bool
	Add(T) (T, error)
	Sub(T) (T, error)
	Mul(T) (T, error)
	Div(T) (T, error)
	Mod(T) (T, error)
	Inc() (T, error)
	Dec(T) (T, error)
	Set(T) (T, error)
	Get() (T, T, T)
	Val() T
	Min() T
	Max() T
	InRange(T) bool
	InCurrentRange(T) bool
}

func main() {
	fz.Main("C14", func(r *fz.R) {
		var models []uint64 = fz.ModelInts()
		for r.Cases < 400 || r.More() {
			r.Case(func() {
				pool := append([]uint64{0, 1}, models...)
				if r.Intn(2) == 0 {
					history[uint32](r, "RangeUint32", pool, func(v, a, b uint32) (ranged[uint32], bool, error) {
						x, err := math.NewRangeUint32(v, a, b)
						return x, x == nil, err
					})
				} else {
					history[uint64](r, "RangeUInt64", pool, func(v, a, b uint64) (ranged[uint64], bool, error) {
						x, err := math.NewRangeUInt64(v, a, b)
						return x, x == nil, err
					})
				}
			})
		}
	})
}

func history[T uint32 | uint64](r *fz.R, name string, pool []uint64, mk func(v, a, b T) (ranged[T], bool, error)) {
	var top T
	top--
	var x ranged[T]
	var v, lo, hi T
	num := func() T {
		switch r.Intn(9) {
		case 0:
			return T(r.U64())
		case 1:
			return top - T(r.Intn(4))
		case 2:
			return T(pool[r.Intn(len(pool))])
		case 3:
			return v + T(r.Intn(5)) - 2
		case 4:
			return hi + T(r.Intn(5)) - 2
		case 5:
			return lo + T(r.Intn(5)) - 2
		case 6:
			return top>>uint(r.Intn(40)) + T(r.Intn(3)) - 1
		case 7:
			if v != 0 {
				return top/v + T(r.Intn(4)) - 1
			}
		}
		return T(r.Intn(12))
	}
	check := func() {
		a, b, c := x.Get()
		r.Check(a == v && b == lo && c == hi && x.Val() == v && x.Min() == lo && x.Max() == hi, "state is %d in [%d,%d], want %d in [%d,%d]", a, b, c, v, lo, hi)
		r.Check(lo <= v && v <= hi, "value %d outside [%d,%d]", v, lo, hi)
	}
	for x == nil {
		a, b, c := num(), num(), num()
		if r.Intn(2) == 0 && b > c {
			b, c = c, b
		}
		if r.Intn(2) == 0 && c > b {
			a = b + T(r.U64())%(c-b)
		}
		r.Log("New%s(%d, %d, %d)", name, a, b, c)
		y, isnil, err := mk(a, b, c)
		ok := b <= a && a <= c
		r.Check((err == nil) == ok, "New%s(%d,%d,%d): err=%v", name, a, b, c, err)
		r.Check(isnil == !ok, "New%s(%d,%d,%d): object nil=%v", name, a, b, c, isnil)
		if ok {
			x, v, lo, hi = y, a, b, c
		}
	}
	check()
	for i := 1 + r.Intn(30); i > 0; i-- {
		o := num()
		bo, bv := new(big.Int).SetUint64(uint64(o)), new(big.Int).SetUint64(uint64(v))
		res := new(big.Int)
		op := r.Intn(14)
		ok := true
		var got T
		var err error
		switch op {
		case 0, 1:
			r.Log("Add(%d)", o)
			res.Add(bv, bo)
			got, err = x.Add(o)
		case 2, 3:
			r.Log("Sub(%d)", o)
			res.Sub(bv, bo)
			got, err = x.Sub(o)
		case 4, 5:
			r.Log("Mul(%d)", o)
			res.Mul(bv, bo)
			got, err = x.Mul(o)
		case 6:
			r.Log("Div(%d)", o)
			if ok = o != 0; ok {
				res.Div(bv, bo)
			}
			got, err = x.Div(o)
		case 7:
			r.Log("Mod(%d)", o)
			if ok = o != 0; ok {
				res.Mod(bv, bo)
			}
			got, err = x.Mod(o)
		case 8:
			r.Log("Inc")
			_, err := x.Inc()
			r.Check((err == nil) == (v < hi), "Inc at %d in [%d,%d]: err=%v", v, lo, hi, err)
			if v < hi {
				v++
			}
		case 9:
			r.Log("Dec(%d)", o)
			_, err := x.Dec(o)
			r.Check((err == nil) == (v > lo), "Dec at %d in [%d,%d]: err=%v", v, lo, hi, err)
			if v > lo {
				v--
			}
		case 10, 11:
			r.Log("Set(%d)", o)
			p, err := x.Set(o)
			in := lo <= o && o <= hi
			r.Check((err == nil) == in, "Set(%d) in [%d,%d]: err=%v", o, lo, hi, err)
			r.Check(p == v, "Set returned %d, the previous value is %d", p, v)
			if in {
				v = o
			}
		case 12:
			if r.Intn(3) == 0 {
				if r.Intn(2) == 0 {
					r.Log("Reset")
					x.Reset()
					v = lo
				} else {
					r.Log("ResetR")
					x.ResetR()
					v = hi
				}
			}
		case 13:
			a, b, c := num(), num(), num()
			if r.Intn(2) == 0 && b > c {
				b, c = c, b
			}
			r.Log("Init(%d, %d, %d)", a, b, c)
			err := x.Init(a, b, c)
			in := b <= a && a <= c
			r.Check((err == nil) == in, "Init(%d,%d,%d): err=%v", a, b, c, err)
			if in {
				v, lo, hi = a, b, c
			}
		}
		if op < 8 {
			in := ok && res.Sign() >= 0 && res.Cmp(new(big.Int).SetUint64(uint64(lo))) >= 0 && res.Cmp(new(big.Int).SetUint64(uint64(hi))) <= 0
			r.Check((err == nil) == in, "value %d in [%d,%d], operand %d: exact result %v defined=%v, but err=%v", v, lo, hi, o, res, ok, err)
			r.Check(!in || uint64(got) == res.Uint64(), "value %d, operand %d: got %d, exact result %v", v, o, got, res)
		}
		r.Check(x.InRange(o) == (lo <= o && o <= hi), "InRange(%d) in [%d,%d] = %v", o, lo, hi, x.InRange(o))
		r.Check(x.InCurrentRange(o) == (lo <= o && o <= v), "InCurrentRange(%d) in [%d,%d] = %v", o, lo, v, x.InCurrentRange(o))
		check()
	}
}
