package main

import (
	"sort"

	"falsify/fz"

	"github.com/vipally/gx/stl"
)

type node = stl.IntListNode

func main() {
	fz.Main("C08", func(r *fz.R) {
		// every list of up to 6 values out of 0..2
		for n := 0; n <= 6; n++ {
			p := 1
			for i := 0; i < n; i++ {
				p *= 3
			}
			for k := 0; k < p; k++ {
				r.Case(func() {
					v := make([]int, n)
					for i, x := 0, k; i < n; i, x = i+1, x/3 {
						v[i] = x % 3
					}
					run(r, v, 1+k%2)
				})
			}
		}
		r.Case(func() { large(r, 1<<16+1) })
		for i := 0; r.Cases < 1600 || r.More(); i++ {
			if i == 3000 {
				r.Case(func() { large(r, 1<<20+7) })
			}
			r.Case(func() {
				n := r.Intn(70)
				switch i % 40 {
				case 7:
					n = 100 + r.Intn(1000)
					if r.Intn(4) == 0 {
						n = r.Big(9000)
					}
				case 21:
					n = []int{127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097}[r.Intn(12)]
				case 33:
					if i%400 == 33 {
						n = []int{16384, 32769, 65536, 65537, 70000, 131073}[r.Intn(6)]
					}
				}
				v := make([]int, n)
				kind := r.Intn(6)
				m := []int{1, 2, 5, 50, 1 << 20}[r.Intn(5)]
				for i := range v {
					switch kind {
					case 0, 1:
						v[i] = r.Intn(m)
					case 2:
						v[i] = i / (1 + m%7)
					case 3:
						v[i] = -i / (1 + m%7)
					case 4:
						v[i] = int(r.U64())
					case 5:
						v[i] = []int{-1 << 63, 1<<63 - 1, 0, -1, 1}[r.Intn(5)]
					}
				}
				run(r, v, 1+r.Intn(2))
			})
		}
	})
}

func large(r *fz.R, n int) {
	v := make([]int, n)
	for i := range v {
		v[i] = r.Intn(1000)
	}
	run(r, v, 1)
}

// run sorts a list of the values v the given number of times.
func run(r *fz.R, v []int, times int) {
	if len(v) <= 64 {
		r.Log("sort a list of %v", v)
	} else {
		r.Log("sort a list of %d values starting %v", len(v), v[:16])
	}
	l := stl.NewIntList()
	m := make([]*node, len(v))
	for i, x := range v {
		m[i] = l.PushBack(x)
	}
	bystander := stl.NewIntList()
	by := bystander.PushFront(7)
	for t := 0; t < times; t++ {
		l.Sort()
		want := append([]*node(nil), m...)
		val := map[*node]int{}
		for i, x := range m {
			val[x] = v[i]
		}
		sort.SliceStable(want, func(i, j int) bool { return val[want[i]] < val[want[j]] })
		pos := map[*node]int{}
		for i, x := range m {
			pos[x] = i
		}
		x := l.Front()
		for i := range want {
			if x == nil {
				r.Fail("sorted list ends after %d of %d nodes", i, len(want))
			}
			if x.Get() != val[want[i]] {
				r.Fail("value %d at index %d of the sorted list, want %d", x.Get(), i, val[want[i]])
			}
			if x != want[i] {
				r.Fail("index %d of the sorted list holds the node that was at %d, want the one that was at %d (value %d)", i, pos[x], pos[want[i]], x.Get())
			}
			p := want[(i+len(want)-1)%len(want)]
			r.Check(x.Prev() == p, "the previous link of index %d is wrong", i)
			x = x.Next()
		}
		r.Check(x == l.Front(), "sorted list goes on after %d nodes", len(want))
		r.Check(l.Empty() == (len(want) == 0), "Empty = %v", l.Empty())
		r.Check(bystander.Front() == by && by.Get() == 7 && by.Next() == by, "another list changed")
		if t+1 < times && len(want) > 0 {
			// move a node and put the new order to the test
			k := r.Intn(len(want))
			r.Log("move the node at %d to the front, sort again", k)
			l.MoveFront(want[k])
			y := want[k]
			copy(want[1:k+1], want[:k])
			want[0] = y
			m = want
			nv := make([]int, len(m))
			for i, x := range m {
				nv[i] = val[x]
			}
			v = nv
		}
	}
	if len(m) > 0 {
		r.Log("PushFront, then Sort")
		f := l.PushFront(v[0])
		l.Sort()
		n, last := 0, l.Front()
		for x := l.Front(); x != nil && n <= len(m); x = x.Next() {
			r.Check(n == 0 || last.Get() <= x.Get(), "values out of order at index %d", n)
			n++
			last = x
			if x.Next() == l.Front() {
				break
			}
		}
		r.Check(n == len(m)+1, "%d nodes after pushing one to %d", n, len(m))
		r.Check(l.IsValidNode(f), "the pushed node is lost")
	}
}
