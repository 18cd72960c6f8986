package main

import (
	"bytes"
	"crypto/des"

	"falsify/fz"

	"github.com/vipally/gx/crypto/ecb"
)

func main() {
	fz.Main("C31", func(r *fz.R) {
		for r.Cases < 300 || r.More() {
			r.Case(func() { one(r) })
		}
	})
}

func random(r *fz.R, n int) []byte {
	// spare capacity holds other data of the caller's
	b := make([]byte, n, n+r.Intn(2)*r.Intn(24))
	r.Read(b)
	if n > 0 && r.Intn(3) == 0 {
		for i := range b {
			b[i] &= 1
		}
	}
	return b
}

func one(r *fz.R) {
	keyLens := []int{24, 24, 8, 16, 0, 1, 7, 9, 23, 25, 32}
	key := random(r, keyLens[r.Intn(len(keyLens))])
	n := r.Intn(40)
	if r.Intn(8) == 0 {
		n = r.Intn(3000)
	}
	m := random(r, n)
	if n > 0 && m[n-1] == 0 {
		m[n-1] = byte(1 + r.Intn(255))
	}
	m0, k0 := append([]byte(nil), m...), append([]byte(nil), key...)
	r.Log("key=%x message=%x (capacity %d)", key, m, cap(m))
	c, err := ecb.TripleDesEncrypt(m, key)
	r.Check(err == nil, "TripleDesEncrypt: %v", err)
	r.Check(bytes.Equal(m, m0) && bytes.Equal(key, k0), "TripleDesEncrypt changed its argument")
	r.Check(len(c) == n-n%8+8, "ciphertext has %d bytes for %d bytes of message", len(c), n)
	// the same through the standard library's triple DES, one block at a time
	k24 := make([]byte, 24)
	copy(k24, key)
	std, _ := des.NewTripleDESCipher(k24)
	p := make([]byte, len(c))
	copy(p, m0)
	for i := 0; i < len(p); i += 8 {
		std.Encrypt(p[i:], p[i:i+8])
	}
	r.Check(bytes.Equal(p, c), "ciphertext %x is not the triple DES of the zero-padded message, %x", c, p)
	c0 := append([]byte(nil), c...)
	d, err := ecb.TripleDesDecrypt(c, key)
	r.Check(err == nil, "TripleDesDecrypt: %v", err)
	r.Check(bytes.Equal(d, m0), "decrypting gives %x, not the message", d)
	r.Check(bytes.Equal(c, c0) && bytes.Equal(key, k0), "TripleDesDecrypt changed its argument")
	// lengths that no encryption has
	bad := random(r, r.Intn(30))
	r.Log("ciphertext of %d bytes", len(bad))
	d, err = ecb.TripleDesDecrypt(bad, key)
	if len(bad) == 0 || len(bad)%8 != 0 {
		r.Check(err != nil, "TripleDesDecrypt of %d bytes reports no error", len(bad))
		r.Check(len(d) == 0, "TripleDesDecrypt of %d bytes returns data with its error", len(bad))
	} else {
		r.Check(err == nil, "TripleDesDecrypt of %d bytes: %v", len(bad), err)
	}
}
