package main

import (
	"bytes"

	"falsify/fz"

	"github.com/vipally/gx/crypto"
	aes "github.com/vipally/gx/crypto/aes"
)

// give returns b with some spare capacity filled with junk, so that appending in place shows.
func give(r *fz.R, b []byte) []byte {
	spare := int(r.U64() % 40)
	buf := make([]byte, len(b)+spare)
	for i := range buf {
		buf[i] = 0xEE
	}
	copy(buf, b)
	return buf[:len(b)]
}

func main() {
	fz.Main("C19", func(r *fz.R) {
		padded := func(p, in []byte, bs int, zero bool, what string) {
			n := len(p) - len(in)
			r.Check(n >= 1 && n <= bs && len(p)%bs == 0, "%s(%d bytes, block %d) has %d bytes", what, len(in), bs, len(p))
			r.Check(bytes.Equal(p[:len(in)], in), "%s(%x, %d) = %x does not start with the input", what, in, bs, p)
			w := byte(n)
			if zero {
				w = 0
			}
			for _, c := range p[len(in):] {
				r.Check(c == w, "%s(%x, %d) = %x: padding byte %d, want %d", what, in, bs, p, c, w)
			}
		}
		one := func(in []byte, bs int) {
			r.Case(func() {
				r.Log("input %x block size %d", in, bs)
				g := give(r, in)
				p := crypto.PKCS5Padding(g, bs)
				padded(p, in, bs, false, "PKCS5Padding")
				r.Check(bytes.Equal(g, in), "PKCS5Padding changed its input")
				u := crypto.PKCS5UnPadding(p)
				r.Check(bytes.Equal(u, in), "PKCS5UnPadding(%x) = %x, want %x", p, u, in)

				g = give(r, in)
				p = aes.PKCS7Padding(g, bs)
				padded(p, in, bs, false, "PKCS7Padding")
				r.Check(bytes.Equal(g, in), "PKCS7Padding changed its input")
				u = aes.PKCS7Unpadding(p)
				r.Check(bytes.Equal(u, in), "PKCS7Unpadding(%x) = %x, want %x", p, u, in)

				s := string(in)
				p = aes.PKCS7PaddingString(s, bs)
				padded(p, in, bs, false, "PKCS7PaddingString")
				u = aes.PKCS7Unpadding(p)
				r.Check(bytes.Equal(u, in), "PKCS7Unpadding(%x) = %x, want %x", p, u, in)

				g = give(r, in)
				p = crypto.ZeroPadding(g, bs)
				padded(p, in, bs, true, "ZeroPadding")
				r.Check(bytes.Equal(g, in), "ZeroPadding changed its input")
				m := len(in)
				for m > 0 && in[m-1] == 0 {
					m--
				}
				u = crypto.ZeroUnPadding(p)
				r.Check(bytes.Equal(u, in[:m]), "ZeroUnPadding(%x) = %x, want %x", p, u, in[:m])
				u = crypto.ZeroUnPadding(give(r, in))
				r.Check(bytes.Equal(u, in[:m]), "ZeroUnPadding(%x) = %x, want %x", in, u, in[:m])
			})
		}
		fill := func(n, kind int) []byte {
			b := make([]byte, n)
			for i := range b {
				switch kind {
				case 0:
				case 1:
					b[i] = byte(r.U64())
				case 2:
					b[i] = byte(n)
				case 3:
					b[i] = 0xFF
				case 4:
					b[i] = []byte{0, 0, 1, 0x80, 0xC0, 0xE0, 0xFF}[r.U64()%7]
				case 5:
					b[i] = 1
				}
			}
			return b
		}
		ends := []string{"é", "世", "\xff", "\xc0\x80", "\xf0\x9f\x98\x80", "\x00é\x00", "\x80", "\xe0\x80\x80", " ", "\n", "\x01", "\ufeff", "\u0000a"}
		for bs := 1; bs <= 255; bs++ {
			for n := 0; n <= 2*bs+1; n++ {
				if bs > 20 && n > 2 && n%bs > 2 && n%bs < bs-2 && n%37 != 0 {
					continue
				}
				one(fill(n, (n+bs)%6), bs)
			}
		}
		for _, e := range ends {
			for z := 0; z < 5; z++ {
				for _, bs := range []int{1, 2, 8, 16, 255} {
					one(append([]byte(e), make([]byte, z)...), bs)
				}
			}
		}
		for i := 0; i < 2000 || r.More(); i++ {
			bs := 1 + int(r.U64()%255)
			if i%3 == 0 {
				bs = []int{8, 16}[r.U64()%2]
			}
			b := fill(int(r.U64()%600), int(r.U64()%6))
			if i%5 == 0 {
				b = append(b, ends[r.U64()%uint64(len(ends))]...)
			}
			one(b, bs)
		}
		one(fill(70000, 1), 16)
	})
}
