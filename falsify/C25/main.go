package main

import (
	"fmt"
	"reflect"

	"falsify/fz"

	"github.com/vipally/gx/factory"
)

type call struct {
	id   int
	args []interface{}
	res  interface{}
}

var calls []call

type creator struct {
	id  int
	ret func(args []interface{}) interface{}
}

func (c *creator) Create(args ...interface{}) interface{} {
	res := c.ret(args)
	calls = append(calls, call{c.id, args, res})
	return res
}

// fac: the three kinds of factories over one key type (string keys map to ints for FactoryI).
type fac struct {
	name   string
	add    func(k int, c factory.Creater) error
	remove func(k int) error
	create func(k int, args ...interface{}) interface{}
	model  map[int]*creator
}

var ints = []int{0, 1, -1, 2, 7, 255, 256, 1 << 31, -1 << 31, 1 << 32, 1<<32 + 1, 1<<62 + 1, -1 << 63, 1<<63 - 1, 65536, 3}
var strs = []string{"", "a", "A", "b", " a", "a ", "aa", "\x00", "a\x00", "é", "0", "1", "type", "Type", "a.b", "a/b"}

func main() {
	fz.Main("C25", func(r *fz.R) {
		ctr := 0
		pick := func(n int) int { return int(r.U64() % uint64(n)) }
		args := func() []interface{} {
			var out []interface{}
			for n := pick(5); n > 0; n-- {
				switch pick(7) {
				case 0:
					out = append(out, nil)
				case 1:
					out = append(out, pick(100))
				case 2:
					out = append(out, fmt.Sprint("s", pick(10)))
				case 3:
					out = append(out, []interface{}{1, "x"})
				case 4:
					out = append(out, []interface{}{})
				case 5:
					out = append(out, &ctr)
				case 6:
					out = append(out, []interface{}(nil))
				}
			}
			if pick(6) == 0 {
				out = []interface{}{}
			}
			return out
		}
		newI := func() *fac {
			f := factory.NewFactoryI()
			return &fac{"FactoryI", func(k int, c factory.Creater) error { return f.AddCreater(ints[k], c) }, func(k int) error { return f.RemoveCreater(ints[k]) },
				func(k int, a ...interface{}) interface{} { return f.Create(ints[k], a...) }, map[int]*creator{}}
		}
		newS := func() *fac {
			f := factory.NewFactoryS()
			return &fac{"FactoryS", func(k int, c factory.Creater) error { return f.AddCreater(strs[k], c) }, func(k int) error { return f.RemoveCreater(strs[k]) },
				func(k int, a ...interface{}) interface{} { return f.Create(strs[k], a...) }, map[int]*creator{}}
		}
		global := func() *fac {
			for _, k := range strs {
				factory.RemoveCreater(k)
			}
			return &fac{"global factory", func(k int, c factory.Creater) error { return factory.AddCreater(strs[k], c) }, func(k int) error { return factory.RemoveCreater(strs[k]) },
				func(k int, a ...interface{}) interface{} { return factory.Create(strs[k], a...) }, map[int]*creator{}}
		}
		for n := 0; n < 300 || r.More(); n++ {
			r.Case(func() {
				fs := []*fac{newI(), newI(), newS(), newS(), global()}
				cs := []*creator{}
				for i := 0; i < 4; i++ {
					ctr++
					c := &creator{id: ctr}
					switch pick(5) {
					case 0:
						c.ret = func([]interface{}) interface{} { return nil }
					case 1:
						c.ret = func([]interface{}) interface{} { return (*int)(nil) }
					case 2:
						c.ret = func([]interface{}) interface{} { return new(int) }
					case 3:
						c.ret = func(a []interface{}) interface{} { return len(a) }
					default:
						c.ret = func([]interface{}) interface{} { return c.id }
					}
					cs = append(cs, c)
				}
				span := 1 + pick(len(ints))
				for ops := 1 + pick(30); ops > 0; ops-- {
					f := fs[pick(len(fs))]
					k := pick(span)
					switch pick(4) {
					case 0:
						c := cs[pick(len(cs))]
						r.Log("%s: register creator %d under key %d", f.name, c.id, k)
						if f.add(k, c) == nil {
							f.model[k] = c
						}
					case 1:
						r.Log("%s: remove key %d", f.name, k)
						if f.remove(k) == nil {
							delete(f.model, k)
						}
					default:
						a := args()
						want := append([]interface{}{}, a...)
						r.Log("%s: create key %d with %v", f.name, k, a)
						calls = nil
						got := f.create(k, a...)
						c := f.model[k]
						if c == nil {
							r.Check(got == nil, "%s: creating with an unregistered key gives %v", f.name, got)
							r.Check(len(calls) == 0, "%s: creating with an unregistered key calls creator %v", f.name, calls)
							break
						}
						r.Check(len(calls) == 1, "%s: %d creators called", f.name, len(calls))
						r.Check(calls[0].id == c.id, "%s: creator %d called, want %d", f.name, calls[0].id, c.id)
						r.Check(len(calls[0].args) == len(want) && (len(want) == 0 || reflect.DeepEqual(calls[0].args, want)), "%s: creator called with %v, want %v", f.name, calls[0].args, want)
						r.Check(calls[0].res == got, "%s: create returns %v, the creator returned %v", f.name, got, calls[0].res)
					}
				}
			})
		}
	})
}
