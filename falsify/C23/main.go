package main

import (
	"bytes"
	"errors"
	"fmt"
	stdio "io"

	"falsify/fz"

	"github.com/vipally/gx/io"
)

func main() {
	fz.Main("C23", func(r *fz.R) {
		for r.Cases < 500 || r.More() {
			r.Case(func() { one(r) })
		}
	})
}

// source delivers data in random pieces, ending with end (together with the last bytes or after them)
type source struct {
	r    *fz.R
	data []byte
	got  int
	end  error
	with bool
	big  bool
	idle int
}

func (s *source) Read(p []byte) (int, error) {
	if s.got == len(s.data) {
		if s.idle > 0 && s.r.Intn(3) == 0 {
			s.idle--
			return 0, nil
		}
		return 0, s.end
	}
	if s.idle > 0 && s.r.Intn(6) == 0 {
		s.idle--
		return 0, nil
	}
	n := len(s.data) - s.got
	if n > len(p) {
		n = len(p)
	}
	if !s.big {
		n = 1 + s.r.Intn(n)
	}
	copy(p, s.data[s.got:s.got+n])
	// the rest of the buffer may be used as scratch space
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] ^= 0x5a
	}
	s.got += n
	if s.got == len(s.data) && s.with {
		return n, s.end
	}
	return n, nil
}

// wsource can also write itself out, once
type wsource struct {
	source
	writeTo int
}

func (s *wsource) WriteTo(w stdio.Writer) (int64, error) {
	s.writeTo++
	var n int64
	for s.got < len(s.data) {
		k := 1 + s.r.Intn(len(s.data)-s.got)
		m, err := w.Write(s.data[s.got : s.got+k])
		n += int64(m)
		if err == nil && m < k {
			err = stdio.ErrShortWrite
		}
		s.got += k
		if err != nil {
			return n, err
		}
	}
	if s.end != stdio.EOF {
		return n, s.end
	}
	return n, nil
}

// sink takes at most left bytes, then fails with err (nil: takes less and says so)
type sink struct {
	got   []byte
	left  int
	err   error
	full  bool
	fails int
	after int
}

func (s *sink) Write(p []byte) (int, error) {
	if s.fails > 0 {
		s.after++
	}
	n := len(p)
	if s.full && n >= s.left && s.left >= 0 { // takes everything, yet reports an error
		s.got = append(s.got, p...)
		s.left = 0
		s.fails++
		return n, s.err
	}
	if s.left >= 0 && n > s.left {
		n = s.left
		s.left = 0
		s.got = append(s.got, p[:n]...)
		s.fails++
		return n, s.err
	}
	if s.left >= 0 {
		s.left -= n
	}
	s.got = append(s.got, p...)
	return n, nil
}

func one(r *fz.R) {
	n := r.Intn(30)
	switch r.Intn(10) {
	case 0:
		n = 0
	case 1:
		n = 200 + r.Intn(2000)
	case 2:
		if r.Intn(4) == 0 {
			n = 32*1024*(1+r.Intn(3)) + r.Intn(3) - 1
		}
	}
	data := make([]byte, n)
	r.Read(data)
	end := error(stdio.EOF)
	if r.Intn(4) == 0 {
		end = errors.New("read failed")
	}
	src := source{r: r, data: data, end: end, with: r.Intn(2) == 0, big: n > 4000 || r.Intn(3) == 0, idle: r.Intn(4)}
	var in stdio.Reader
	var ws *wsource
	switch r.Intn(5) {
	case 0:
		ws = &wsource{source: src}
		in = ws
	case 1:
		if end == stdio.EOF {
			in = bytes.NewReader(data)
			break
		}
		fallthrough
	default:
		s := src
		in = &s
	}
	k := 1 + r.Intn(4)
	if r.Intn(12) == 0 {
		k = 0
	}
	bad := -1
	if r.Intn(2) == 0 && k > 0 {
		bad = r.Intn(k)
	}
	var sinks []*sink
	var dsts []stdio.Writer
	desc := ""
	for i := 0; i < k; i++ {
		s := &sink{left: -1}
		if i == bad || bad >= 0 && r.Intn(6) == 0 {
			s.left = r.Intn(n + 2)
			if r.Intn(2) == 0 {
				s.err = fmt.Errorf("write %d failed", i)
				s.full = r.Intn(4) == 0
			}
			desc += fmt.Sprintf(" [%d fails after %d: %v %v]", i, s.left, s.err, s.full)
		}
		sinks = append(sinks, s)
		dsts = append(dsts, s)
	}
	var buf []byte
	if r.Intn(3) > 0 {
		l := 1 + r.Intn(20)
		if n > 4000 {
			l = 1000 + r.Intn(40000)
		}
		buf = make([]byte, l, l+r.Intn(10))
		r.Read(buf)
	}
	r.Log("source of %d bytes %T ending with %v (with the last bytes: %v), buffer %d (nil: %v), %d destinations%s", n, in, end, src.with, len(buf), buf == nil, k, desc)
	var w int64
	var err error
	if buf == nil && r.Intn(2) == 0 {
		w, err = io.Copys(in, dsts...)
	} else {
		w, err = io.CopysBuffer(in, buf, dsts...)
	}
	var werr error
	short := false
	for i, s := range sinks {
		r.Check(bytes.HasPrefix(data, s.got), "destination %d received %d bytes that are no prefix of the source", i, len(s.got))
		r.Check(s.after == 0, "destination %d was written to after it had failed", i)
		if s.fails > 0 {
			r.Check(werr == nil && !short, "another destination was written to after a failure")
			if s.err != nil {
				werr = s.err
			} else {
				short = true
			}
		}
	}
	switch {
	case werr != nil:
		r.Check(err == werr, "error %v, want %v", err, werr)
	case short:
		r.Check(err == stdio.ErrShortWrite, "a short write gave the error %v", err)
	case end != stdio.EOF:
		r.Check(err == end, "error %v, want %v", err, end)
	default:
		r.Check(err == nil, "error %v", err)
	}
	if werr == nil && !short {
		for i, s := range sinks {
			r.Check(bytes.Equal(s.got, data), "destination %d received %d of %d bytes", i, len(s.got), n)
		}
		r.Check(err != nil || w == int64(n), "reports %d of %d bytes", w, n)
	}
}
