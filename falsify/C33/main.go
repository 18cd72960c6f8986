package main

import (
	"fmt"
	"sync"

	"falsify/fz"

	xstrings "github.com/vipally/gx/strings"
)

func main() {
	fz.Main("C33", func(r *fz.R) {
		n := 0
		for r.Cases < 400 || r.More() {
			n++
			r.Case(func() { one(r, n) })
		}
	})
}

func judge(r *fz.R, s string, n int) {
	r.Check(len(s) == n, "Rand(.., %d) gives %d bytes", n, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] < 'A' || s[i] > 'Z' {
			r.Fail("Rand(.., %d) has byte %q at %d", n, s[i], i)
		}
	}
}

func one(r *fz.R, k int) {
	n := r.Intn(40)
	switch {
	case k%7 == 0:
		n = r.Intn(3000)
	case k%60 == 1:
		n = 1<<uint(8+r.Intn(15)) + r.Intn(3) - 1
	case k%400 == 2:
		n = 1<<24 + 1
	}
	rules := []xstrings.Rule{xstrings.RULE_NONE, xstrings.RULE_NORMAL, xstrings.RULE_STRONG, xstrings.RULE_LETTER_LOWER, xstrings.RULE_NUMBER, xstrings.RULE_LETTER_UPPER, xstrings.RULE_LIMIT_LEN, xstrings.Rule(r.U64())}
	rule := rules[r.Intn(len(rules))]
	r.Log("Rand(%#x, %d)", uint(rule), n)
	if k%5 != 0 || n > 5000 {
		judge(r, xstrings.Rand(rule, n), n)
		return
	}
	var wg sync.WaitGroup
	out := make([]string, 4)
	r.Log("from four goroutines")
	for g := range out {
		wg.Add(1)
		g := g
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					out[g] = fmt.Sprint("panic: ", x)
				}
			}()
			out[g] = xstrings.Rand(rule, n)
		}()
	}
	wg.Wait()
	for _, s := range out {
		judge(r, s, n)
	}
}
