// Package sim runs goroutines one at a time under a chosen schedule. The code under test yields
// before every atomic operation (see simatomic), so a schedule is a sequence of choices.
package sim

import "fmt"

type abort struct{}

type thread struct {
	id     int
	resume chan bool
	done   bool
	fault  any
}

var (
	cur  *thread
	back chan *thread
)

// Yield: a point where other goroutines may run.
func Yield() {
	t := cur
	if t == nil {
		return
	}
	back <- t
	if !<-t.resume {
		panic(abort{})
	}
}

// Run executes the functions under the schedule given by choose (which gets the runnable thread ids
// and the id of the thread that ran last). It returns the schedule and, if something went wrong, what.
func Run(choose func(ids []int, last int) int, maxSteps int, fns ...func()) (sched []int, bad string) {
	back = make(chan *thread)
	var ts []*thread
	for i, f := range fns {
		t := &thread{id: i, resume: make(chan bool)}
		ts = append(ts, t)
		f := f
		go func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(abort); !ok {
						t.fault = e
					}
				}
				t.done = true
				back <- t
			}()
			if !<-t.resume {
				panic(abort{})
			}
			f()
		}()
	}
	last := -1
	for {
		var ids []int
		for _, t := range ts {
			if !t.done {
				ids = append(ids, t.id)
			}
		}
		if len(ids) == 0 || bad != "" || len(sched) >= maxSteps {
			if len(ids) > 0 && bad == "" {
				bad = fmt.Sprintf("goroutines %v make no progress: still running after %d atomic steps", ids, len(sched))
			}
			cur = nil
			for _, t := range ts {
				if !t.done {
					t.resume <- false
					<-back
				}
			}
			return
		}
		t := ts[choose(ids, last)]
		sched = append(sched, t.id)
		last = t.id
		cur = t
		t.resume <- true
		<-back
		cur = nil
		if t.fault != nil {
			bad = fmt.Sprintf("goroutine %d panics: %v", t.id, t.fault)
		}
	}
}
