package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"fmt"
	"hash/crc64"

	"falsify/fz"

	"github.com/vipally/gx/hash"
)

func main() {
	fz.Main("C21", func(r *fz.R) {
		for r.Cases < 300 || r.More() {
			r.Case(func() { one(r) })
		}
	})
}

func want(size int64, t []byte) []byte {
	var w []byte
	for i := 5; i >= 0; i-- {
		w = append(w, byte(size>>(uint(i)*8)))
	}
	a, b := md5.Sum(t), sha1.Sum(t)
	c := crc64.New(crc64.MakeTable(crc64.ISO))
	c.Write(t)
	w = append(w, a[4:10]...)
	w = append(w, b[7:13]...)
	return append(w, c.Sum(nil)[1:7]...)
}

func one(r *fz.R) {
	f := hash.NewFingerprint()
	h := f.Hash()
	var t []byte
	var size int64
	r.Log("NewFingerprint()")
	steps := 1 + r.Intn(14)
	for k := 0; k < steps; k++ {
		switch x := r.Intn(16); {
		case x < 8:
			n := r.Intn(12)
			switch r.Intn(6) {
			case 0:
				n = 0
			case 1:
				n = 50 + r.Intn(90)
			case 2:
				if r.Intn(4) == 0 {
					n = 1<<uint(r.Intn(18)) + r.Intn(3) - 1
				}
			}
			p := make([]byte, n, n+r.Intn(2)*5)
			r.Read(p)
			if r.Intn(3) == 0 {
				for i := range p {
					p[i] = 0
				}
			}
			p0 := append([]byte(nil), p[:cap(p)]...)
			r.Log("Write(%s)", short(p))
			var m int
			var err error
			if r.Intn(2) == 0 {
				m, err = f.Write(p)
			} else {
				m, err = h.Write(p)
			}
			r.Check(m == n && err == nil, "Write of %d bytes = %d, %v", n, m, err)
			r.Check(bytes.Equal(p[:cap(p)], p0), "Write changed its argument")
			t = append(t, p...)
			size += int64(n)
		case x < 9:
			r.Log("Reset()")
			f.Reset()
			t, size = nil, 0
		case x < 10:
			size = []int64{0, 1, 255, 256, 1<<40 - 1, 1 << 40, 1<<47 + 12345, 1<<48 - 1, 1 << 48, 1<<48 + 77, r.Int63() >> 2}[r.Intn(11)]
			r.Log("Resetsize(%d)", size)
			f.Resetsize(size)
		case x < 13:
			n := r.Intn(5)
			b := make([]byte, n, n+r.Intn(2)*r.Intn(40))
			r.Read(b)
			b0 := append([]byte(nil), b...)
			r.Log("Sum(%x) (capacity %d)", b, cap(b))
			s := h.Sum(b)
			w := append(append([]byte(nil), b0...), want(size, t)...)
			r.Check(bytes.Equal(s, w), "Sum(%x) = %x, want %x (%d bytes written, count %d)", b0, s, w, len(t), size)
			r.Check(bytes.Equal(b, b0), "Sum changed its argument")
		default:
			r.Log("String()")
			w := want(size, t)
			ws := fmt.Sprintf("%x-%x-%x-%x", w[:6], w[6:12], w[12:18], w[18:])
			s := f.String()
			r.Check(s == ws, "String() = %q, want %q", s, ws)
		}
	}
	s := f.Sum(nil)
	w := want(size, t)
	r.Check(bytes.Equal(s, w), "final Sum = %x, want %x", s, w)
	r.Check(f.String() == fmt.Sprintf("%x-%x-%x-%x", w[:6], w[6:12], w[12:18], w[18:]), "final String() = %q", f.String())
}

func short(p []byte) string {
	if len(p) > 60 {
		return fmt.Sprintf("%x... %d bytes", p[:60], len(p))
	}
	return fmt.Sprintf("%x", p)
}
