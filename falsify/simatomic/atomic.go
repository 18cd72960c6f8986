// Package simatomic has the operations of sync/atomic, each preceded by a scheduling point.
package simatomic

import "falsify/sim"

func LoadInt32(p *int32) int32          { sim.Yield(); return *p }
func StoreInt32(p *int32, v int32)      { sim.Yield(); *p = v }
func SwapInt32(p *int32, v int32) int32 { sim.Yield(); o := *p; *p = v; return o }
func AddInt32(p *int32, d int32) int32  { sim.Yield(); *p += d; return *p }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sim.Yield()
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadUint32(p *uint32) uint32           { sim.Yield(); return *p }
func StoreUint32(p *uint32, v uint32)       { sim.Yield(); *p = v }
func SwapUint32(p *uint32, v uint32) uint32 { sim.Yield(); o := *p; *p = v; return o }
func AddUint32(p *uint32, d uint32) uint32  { sim.Yield(); *p += d; return *p }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sim.Yield()
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadInt64(p *int64) int64          { sim.Yield(); return *p }
func StoreInt64(p *int64, v int64)      { sim.Yield(); *p = v }
func SwapInt64(p *int64, v int64) int64 { sim.Yield(); o := *p; *p = v; return o }
func AddInt64(p *int64, d int64) int64  { sim.Yield(); *p += d; return *p }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sim.Yield()
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadUint64(p *uint64) uint64           { sim.Yield(); return *p }
func StoreUint64(p *uint64, v uint64)       { sim.Yield(); *p = v }
func SwapUint64(p *uint64, v uint64) uint64 { sim.Yield(); o := *p; *p = v; return o }
func AddUint64(p *uint64, d uint64) uint64  { sim.Yield(); *p += d; return *p }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sim.Yield()
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

type Bool struct{ v bool }

func (x *Bool) Load() bool   { sim.Yield(); return x.v }
func (x *Bool) Store(v bool) { sim.Yield(); x.v = v }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	sim.Yield()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}
