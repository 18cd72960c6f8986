package main

import (
	"bytes"

	"falsify/fz"

	aes "github.com/vipally/gx/crypto/aes"
)

func main() {
	fz.Main("C20", func(r *fz.R) {
		rnd := func(n, kind int) []byte {
			b := make([]byte, n)
			for i := range b {
				switch kind {
				case 0:
					b[i] = byte(r.U64())
				case 1:
				case 2:
					b[i] = 16
				case 3:
					b[i] = byte(1 + n%16)
				case 4:
					b[i] = []byte("aé世\x00\x01\xff")[r.U64()%9]
				}
			}
			return b
		}
		session := func(klen, n, lens int, lag bool) {
			r.Case(func() {
				key := rnd(klen, int(r.U64()%2))
				if klen == 32 && r.U64()%2 == 0 {
					copy(key[16:], key[:16])
				}
				k1 := append([]byte(nil), key...)
				r.Log("key %x", key)
				e, err := aes.NewAESEncrypter(k1)
				ok := klen == 16 || klen == 24 || klen == 32
				r.Check((err == nil) == ok, "NewAESEncrypter with a key of %d bytes: error %v", klen, err)
				d, err2 := aes.NewAESDecrypter(k1)
				r.Check((err2 == nil) == ok, "NewAESDecrypter with a key of %d bytes: error %v", klen, err2)
				r.Check(bytes.Equal(k1, key), "the constructors changed the key")
				if !ok {
					r.Check(e == nil && d == nil, "a constructor returned an object with its error")
					return
				}
				var msgs, cts, saved [][]byte
				dec := func(i int) {
					c := append([]byte(nil), cts[i]...)
					r.Check(bytes.Equal(c, saved[i]), "ciphertext %d changed after it was returned", i)
					var m []byte
					if r.U64()%2 == 0 {
						m = d.Decrypt(c)
					} else {
						m = []byte(d.DecryptToString(c))
					}
					r.Check(bytes.Equal(m, msgs[i]), "message %d: %x decrypts to %x", i, msgs[i], m)
				}
				for i := 0; i < n; i++ {
					l := int(r.U64() % uint64(lens+1))
					m := rnd(l, int(r.U64()%5))
					in := append([]byte(nil), m...)
					var c []byte
					if r.U64()%2 == 0 {
						r.Log("Encrypt(%x)", m)
						c = e.Encrypt(in)
						r.Check(bytes.Equal(in, m), "Encrypt changed its input")
					} else {
						r.Log("EncryptString(%x)", m)
						c = e.EncryptString(string(in))
					}
					r.Check(len(c) > len(m) && len(c) <= len(m)+16 && len(c)%16 == 0, "ciphertext of %d bytes for a message of %d", len(c), len(m))
					msgs, cts, saved = append(msgs, m), append(cts, c), append(saved, append([]byte(nil), c...))
					if !lag {
						dec(i)
					}
				}
				if lag {
					for i := range msgs {
						dec(i)
					}
				}
			})
		}
		for k := 0; k <= 40; k++ {
			session(k, 3, 20, false)
		}
		for _, k := range []int{16, 24, 32} {
			for l := 0; l < 70; l++ {
				session(k, 4, l, l%2 == 0)
			}
			session(k, 3, 5000, true)
		}
		for i := 0; i < 300 || r.More(); i++ {
			session([]int{16, 24, 32}[r.U64()%3], 1+int(r.U64()%8), int(r.U64()%80), i%2 == 0)
		}
	})
}
