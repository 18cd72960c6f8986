package main

import (
	"errors"
	"fmt"
	stdio "io"
	"os"
	"path/filepath"
	"strings"

	"falsify/fz"

	"github.com/vipally/gx/encoding/ini"
)

func main() {
	fz.Main("C24", func(r *fz.R) {
		for r.Cases < 500 || r.More() {
			r.Case(func() { one(r) })
		}
	})
}

type key struct{ s, k string }

func model(text string) (secs map[string]bool, vals map[key]string) {
	secs, vals = map[string]bool{}, map[key]string{}
	cur := ""
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == ';' {
			continue
		}
		if l[0] == '[' && l[len(l)-1] == ']' {
			cur = l[1 : len(l)-1]
			secs[cur] = true
			continue
		}
		if cur == "" {
			continue
		}
		k, v := l, ""
		if i := strings.IndexByte(l, '='); i >= 0 {
			k, v = l[:i], l[i+1:]
		}
		if k, v = strings.TrimSpace(k), strings.TrimSpace(v); k != "" {
			vals[key{cur, k}] = v
		}
	}
	return
}

type reader struct {
	r    *fz.R
	text string
	end  error
}

func (s *reader) Read(p []byte) (int, error) {
	if s.text == "" {
		return 0, s.end
	}
	n := len(s.text)
	if s.r.Intn(3) == 0 {
		n = 1 + s.r.Intn(n)
	}
	n = copy(p, s.text[:n])
	s.text = s.text[n:]
	if s.text == "" && s.r.Intn(2) == 0 {
		return n, s.end
	}
	return n, nil
}

var words = []string{"a", "b", "ab", "A", "key", "x y", "é", "\u3000", "", "1", "a.b", ";", "[", "]", "=", "\x00", "[a]", "a=b", "\\"}
var spaces = []string{"", "", "", " ", "\t", "\r", "  ", "\u00a0", "\v"}

func line(r *fz.R) string {
	w := func() string { return words[r.Intn(len(words))] }
	s := func() string { return spaces[r.Intn(len(spaces))] }
	few := func() string { return []string{"a", "b", "key"}[r.Intn(3)] }
	switch r.Intn(14) {
	case 0:
		return s()
	case 1:
		return s() + ";" + w() + s() + "=" + w()
	case 2, 3:
		return s() + "[" + few() + "]" + s()
	case 4:
		return s() + "[" + s() + w() + s() + "]" + s()
	case 5, 6, 7, 8:
		return s() + few() + s() + "=" + s() + w() + s()
	case 9:
		return s() + few() + s()
	case 10:
		return s() + "=" + s() + w() + s()
	case 11:
		return s() + w() + s() + "=" + w() + "=" + w() + s()
	case 12:
		if r.Intn(20) == 0 {
			return s() + few() + " = " + strings.Repeat(w()+"z", 1000+r.Intn(3000)) + s()
		}
		return w() + w() + w()
	default:
		l := ""
		for n := r.Intn(6); n > 0; n-- {
			l += string("[]=; \ta\r"[r.Intn(8)])
		}
		return l
	}
}

func one(r *fz.R) {
	text := ""
	for n := r.Intn(14); n > 0; n-- {
		text += line(r) + "\n"
	}
	if r.Intn(2) == 0 {
		text += line(r)
	}
	if r.Intn(10) == 0 {
		text = strings.Replace(text, "\n", "\r\n", -1)
	}
	r.Log("%q", short(text))
	var f *ini.IniFile
	if r.Intn(40) == 0 {
		dir, err := os.MkdirTemp("", "fzini")
		r.Check(err == nil, "%v", err)
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, "x.ini")
		os.WriteFile(p, []byte(text), 0600)
		f, err = ini.New(p)
		r.Check(err == nil && f != nil, "New: %v", err)
		_, err = ini.New(filepath.Join(dir, "absent.ini"))
		r.Check(err != nil, "New of an absent file: no error")
	} else {
		in := &reader{r, text, stdio.EOF}
		if r.Intn(8) == 0 {
			in.end = errors.New("read failed") // what was read before counts
		}
		f = ini.Load(in)
	}
	secs, vals := model(text)
	got := map[string]bool{}
	for _, s := range f.Sections() {
		r.Check(!got[s], "section %q is listed twice", s)
		r.Check(secs[s], "section %q was never opened", s)
		got[s] = true
	}
	r.Check(len(got) == len(secs), "sections %q, want %v", f.Sections(), secs)
	ask := []key{{"a", "a"}, {"a", "absent"}, {"absent", "a"}, {"", "a"}, {"", ""}, {"b", ""}, {"a ", "a"}, {"A", "A"}}
	for k := range vals {
		ask = append(ask, k, key{k.s, k.k + " "}, key{k.k, k.s})
	}
	for s := range secs {
		keys := map[string]bool{}
		for _, k := range f.Keys(s) {
			r.Check(!keys[k], "key %q of section %q is listed twice", k, s)
			_, ok := vals[key{s, k}]
			r.Check(ok, "key %q is not set in section %q", k, s)
			keys[k] = true
		}
		n := 0
		for k := range vals {
			if k.s == s {
				n++
			}
		}
		r.Check(n == len(keys), "section %q: %d keys listed, %d set", s, len(keys), n)
		ask = append(ask, key{s, "a"}, key{s, "key"})
	}
	r.Check(len(f.Keys("never a section")) == 0, "keys of an absent section: %q", f.Keys("never a section"))
	for _, k := range ask {
		want, ok := vals[k]
		if !ok {
			want = "the default"
		}
		g := f.GetString(k.s, k.k, "the default")
		r.Check(g == want, "GetString(%q, %q) = %q, want %q", k.s, k.k, short(g), short(want))
	}
}

func short(s string) string {
	if len(s) > 400 {
		return s[:400] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}
