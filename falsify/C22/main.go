package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	stdhash "hash"
	"hash/crc32"
	"hash/crc64"

	"falsify/fz"

	"github.com/vipally/gx/hash"
)

var seen = map[string]bool{}

func main() {
	fz.Main("C22", func(r *fz.R) {
		r.Case(func() {
			n := 300000
			r.Log("creating %d none hashes", n)
			ids := map[uint32]bool{}
			for i := 0; i < n; i++ {
				s := hash.NewNoneHash().Sum(nil)
				r.Check(len(s) == 4, "none hash: Sum = %x", s)
				id := uint32(s[0])<<24 | uint32(s[1])<<16 | uint32(s[2])<<8 | uint32(s[3])
				r.Check(!ids[id], "none hash number %d: identity %x was given out before", i, s)
				ids[id] = true
			}
		})
		for r.Cases < 400 || r.More() {
			r.Case(func() { one(r) })
		}
	})
}

func std(m hash.HashMethod) stdhash.Hash {
	switch m {
	case hash.MD5:
		return md5.New()
	case hash.SHA1:
		return sha1.New()
	case hash.SHA256:
		return sha256.New()
	case hash.SHA512:
		return sha512.New()
	case hash.CRC32:
		return crc32.NewIEEE()
	case hash.CRC64:
		return crc64.New(crc64.MakeTable(crc64.ISO))
	}
	return nil
}

func fingerprint(t []byte) []byte {
	var w []byte
	for i := 5; i >= 0; i-- {
		w = append(w, byte(len(t)>>(uint(i)*8)))
	}
	a, b := md5.Sum(t), sha1.Sum(t)
	c := crc64.New(crc64.MakeTable(crc64.ISO))
	c.Write(t)
	w = append(w, a[4:10]...)
	w = append(w, b[7:13]...)
	return append(w, c.Sum(nil)[1:7]...)
}

func one(r *fz.R) {
	m := hash.HashMethod(r.Intn(8))
	if r.Intn(12) == 0 {
		bad := []uint64{8, 9, 10, 255, 256, 1 << 32, 1<<32 + 1, 1<<63 + 3, ^uint64(0), 8 + uint64(r.Intn(500))}
		u := hash.HashMethod(bad[r.Intn(len(bad))])
		r.Log("method %d", uint64(u))
		r.Check(fz.Panics(func() { u.New() }), "New of the unknown method %d does not panic", uint64(u))
		r.Check(fz.Panics(func() { hash.New(u) }), "New(%d) does not panic", uint64(u))
		r.Check(fz.Panics(func() { u.StringHash("x") }), "StringHash of the unknown method %d does not panic", uint64(u))
		return
	}
	n := r.Intn(20)
	switch r.Intn(8) {
	case 0:
		n = 0
	case 1:
		n = 50 + r.Intn(100)
	case 2:
		if r.Intn(3) == 0 {
			n = r.Intn(150000)
		}
	}
	t := make([]byte, n)
	r.Read(t)
	switch r.Intn(4) {
	case 0:
		for i := range t {
			t[i] = "ab\x00 \n"[t[i]%5]
		}
	case 1:
		t = bytes.TrimSpace([]byte(fmt.Sprintf("%q", t)))
		n = len(t)
	}
	r.Log("method %d, %d bytes %.80q", int(m), n, t)
	var h stdhash.Hash
	if r.Intn(2) == 0 {
		h = m.New()
	} else {
		h = hash.New(m)
	}
	// the object itself, written in pieces, used more than once
	for round := 0; round < 1+r.Intn(3); round++ {
		if round > 0 {
			h.Reset()
		}
		ref := std(m)
		for p := t; ; {
			k := len(p)
			if k > 0 {
				k = r.Intn(k + 1)
			}
			c, err := h.Write(p[:k])
			r.Check(c == k && err == nil, "Write of %d bytes = %d, %v", k, c, err)
			if p = p[k:]; len(p) == 0 {
				break
			}
		}
		pre := []byte{1, 2, 3}[:r.Intn(4)]
		var w []byte
		switch {
		case ref != nil:
			ref.Write(t)
			w = ref.Sum(pre[:len(pre):len(pre)])
		case m == hash.FINGERPRINT:
			w = append(append([]byte(nil), pre...), fingerprint(t)...)
		}
		s := h.Sum(pre[:len(pre):len(pre)])
		if w != nil {
			r.Check(bytes.Equal(s, w), "Sum = %x, want %x", s, w)
			r.Check(m == hash.FINGERPRINT || h.Size() == ref.Size(), "digest of %d bytes", h.Size())
		} else {
			r.Check(len(s) == len(pre)+4 && bytes.HasPrefix(s, pre), "none hash: Sum(%x) = %x", pre, s)
			r.Check(bytes.Equal(h.Sum(nil), s[len(pre):]), "none hash: identity changed from %x to %x", s[len(pre):], h.Sum(nil))
		}
	}
	if m == hash.NONE {
		id := hex.EncodeToString(h.Sum(nil))
		r.Check(!seen[id], "none hash: identity %s was given out before", id)
		seen[id] = true
		// identities stay what they were and differ, with other hashes created in between
		o := hash.NewNoneHash()
		oid := hex.EncodeToString(o.Sum(nil))
		r.Check(!seen[oid], "none hash: identity %s was given out before", oid)
		seen[oid] = true
		r.Check(hex.EncodeToString(h.Sum(nil)) == id, "none hash: identity %s became %x", id, h.Sum(nil))
		a, b := m.StringHash(string(t)), m.StringHash(string(t))
		r.Check(len(a) == 8 && len(b) == 8 && a != b && !seen[a] && !seen[b], "none hash: string hashes %q, %q", a, b)
		seen[a], seen[b] = true, true
		l := m.StringHashL(string(t))
		r.Check(len(l) == 19 && l[:11] == fmt.Sprintf("%010d-", n) && !seen[l[11:]], "none hash: StringHashL = %q", l)
		seen[l[11:]] = true
		return
	}
	var w []byte
	if m == hash.FINGERPRINT {
		w = fingerprint(t)
	} else {
		s := std(m)
		s.Write(t)
		w = s.Sum(nil)
	}
	x := hex.EncodeToString(w)
	r.Check(m.StringHash(string(t)) == x, "StringHash = %q, want %q", m.StringHash(string(t)), x)
	r.Check(m.StringHashL(string(t)) == fmt.Sprintf("%010d-%s", n, x), "StringHashL = %q, want %010d-%s", m.StringHashL(string(t)), n, x)
}
