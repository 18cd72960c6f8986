package main

import (
	"strings"
	stdunsafe "unsafe"

	"falsify/fz"

	"github.com/vipally/gx/unsafe"
)

func sp(s string) uintptr { return uintptr(stdunsafe.Pointer(stdunsafe.StringData(s))) }
func bp(b []byte) uintptr { return uintptr(stdunsafe.Pointer(stdunsafe.SliceData(b))) }

func main() {
	fz.Main("C28", func(r *fz.R) {
		str := func(s string) {
			r.Case(func() {
				r.Log("string of %d bytes", len(s))
				b := unsafe.StringBytes(s)
				r.Check(len(b) == len(s), "StringBytes of %d bytes has length %d", len(s), len(b))
				r.Check(cap(b) == len(s), "StringBytes of %d bytes has capacity %d", len(s), cap(b))
				r.Check(string(b) == s, "StringBytes(%q) = %q", s, b)
				if len(s) > 0 {
					r.Check(bp(b) == sp(s), "StringBytes copies a string of %d bytes", len(s))
					r.Check(uintptr(unsafe.StringPointer(s)) == sp(s), "StringPointer is not the address of the bytes")
					r.Check(uintptr(unsafe.String(s).Pointer()) == sp(s), "String.Pointer is not the address of the bytes")
				} else if sp(s) != 0 {
					r.Check(uintptr(unsafe.StringPointer(s)) == sp(s), "StringPointer of an empty string is not its address")
					r.Check(uintptr(unsafe.String(s).Pointer()) == sp(s), "String.Pointer of an empty string is not its address")
				}
			})
		}
		byt := func(b []byte) {
			r.Case(func() {
				r.Log("slice of %d bytes, capacity %d", len(b), cap(b))
				was := string(b)
				s := unsafe.BytesString(b)
				r.Check(len(s) == len(b), "BytesString of %d bytes has length %d", len(b), len(s))
				r.Check(string(s) == was, "BytesString(%q) = %q", was, s)
				r.Check(string(b) == was, "BytesString changed the slice")
				if len(b) > 0 {
					r.Check(sp(string(s)) == bp(b), "BytesString copies a slice of %d bytes", len(b))
					b[0] ^= 1
					r.Check(s[0] == b[0], "a change of the slice does not show in the string")
					b[0] ^= 1
				}
				r.Check(uintptr(unsafe.BytesPointer(b)) == bp(b), "BytesPointer (len %d cap %d) is not the address of the first byte", len(b), cap(b))
				r.Check(uintptr(unsafe.Bytes(b).Pointer()) == bp(b), "Bytes.Pointer (len %d cap %d) is not the address of the first byte", len(b), cap(b))
			})
		}
		text := strings.Repeat("0123456789\x00\xff世é", 20000)
		byt(nil)
		byt([]byte{})
		str("")
		str("literal")
		for n := 0; n < 400; n++ {
			str(text[:n])
			str(text[n : 2*n])
			str(string([]byte(text[n/2 : n])))
			b := make([]byte, n, n+n%7)
			copy(b, text)
			byt(b)
			byt(b[n/3:])
			byt(b[:0])
			byt(b[n/2 : n/2+n/5])
			byt(append([]byte(text[:n]), 1))
		}
		for _, n := range []int{1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000} {
			str(text[:n])
			byt([]byte(text[:n]))
			byt(make([]byte, n, 2*n))
		}
		for i := 0; i < 300 || r.More(); i++ {
			lo := int(r.U64() % uint64(len(text)))
			hi := lo + int(r.U64()%uint64(len(text)-lo+1))
			if i%2 == 0 && hi > lo+100 {
				hi = lo + int(r.U64()%100)
			}
			str(text[lo:hi])
			b := []byte(text[lo:hi])
			byt(b)
			k := int(r.U64() % uint64(len(b)+1))
			byt(b[k:])
			byt(b[:k])
			byt(b[:k:k])
		}
	})
}
