// C31: triple DES, block by block. DES itself is abstract: desE and desD are one block under key k.
package "crypto/ecb"
import des "crypto/des"
import cipher "crypto/cipher"

fun desKey(str) int
fun desE(int, str) str
fun desD(int, str) str
// the j-th block of eight bytes
fun blk(str, int) str
// DES block after block
fun ecbE(int, str) str
fun ecbD(int, str) str
// the 24-byte key material made of a key, and its three keys; a message with its zero padding
fun key24(str) str
fun key8(str, int) str
fun pad0(str) str
ghost var msg3 str

axiom des_inverse(k int, b str) {
  requires slen(b) == 8
  ensures desD(k, desE(k, b)) == b && desE(k, desD(k, b)) == b
  trigger {desE(k, b)}
  trigger {desD(k, b)}
  reason "DES decryption and encryption of one block under one key invert each other"
}
axiom des_len(k int, b str) {
  ensures slen(desE(k, b)) == 8 && slen(desD(k, b)) == 8
  trigger {desE(k, b)}
  trigger {desD(k, b)}
  reason "DES maps blocks to blocks of eight bytes"
}
axiom blk_def(s str, j int) {
  requires 0 <= j && 8 * j + 8 <= slen(s)
  ensures slen(blk(s, j)) == 8 && (forall i int {blk(s, j)[i]} :: 0 <= i && i < 8 ==> blk(s, j)[i] == s[8 * j + i])
  trigger {blk(s, j)}
  reason "definition"
}
axiom ecbE_def(k int, p str) {
  requires slen(p) % 8 == 0
  ensures slen(ecbE(k, p)) == slen(p)
  ensures forall i int {ecbE(k, p)[i]} :: 0 <= i && i < slen(p) ==> ecbE(k, p)[i] == desE(k, blk(p, i / 8))[i % 8]
  trigger {ecbE(k, p)}
  reason "definition"
}
axiom ecbD_def(k int, p str) {
  requires slen(p) % 8 == 0
  ensures slen(ecbD(k, p)) == slen(p)
  ensures forall i int {ecbD(k, p)[i]} :: 0 <= i && i < slen(p) ==> ecbD(k, p)[i] == desD(k, blk(p, i / 8))[i % 8]
  trigger {ecbD(k, p)}
  reason "definition"
}
axiom key24_def(s str) {
  ensures slen(key24(s)) == 24 && (forall i int {key24(s)[i]} :: 0 <= i && i < 24 ==> key24(s)[i] == ite(i < slen(s), s[i], 0))
  trigger {key24(s)}
  reason "definition"
}
axiom pad0_def(m str) {
  ensures slen(pad0(m)) == slen(m) + 8 - slen(m) % 8
  ensures forall i int {pad0(m)[i]} :: 0 <= i && i < slen(pad0(m)) ==> pad0(m)[i] == ite(i < slen(m), m[i], 0)
  trigger {pad0(m)}
  reason "definition: a message followed by zeros to the next larger multiple of eight"
}
lemma blk_ecbE(k int, p str, j int) {
  requires slen(p) % 8 == 0 && 0 <= j && 8 * j < slen(p)
  uses blk_def, ecbE_def, des_len
  apply str_ext(blk(ecbE(k, p), j), desE(k, blk(p, j)))
  ensures blk(ecbE(k, p), j) == desE(k, blk(p, j))
  trigger {blk(ecbE(k, p), j)}
}
lemma blk_ecbD(k int, p str, j int) {
  requires slen(p) % 8 == 0 && 0 <= j && 8 * j < slen(p)
  uses blk_def, ecbD_def, des_len
  apply str_ext(blk(ecbD(k, p), j), desD(k, blk(p, j)))
  ensures blk(ecbD(k, p), j) == desD(k, blk(p, j))
  trigger {blk(ecbD(k, p), j)}
}
lemma ecb_inverse(k int, p str) {
  requires slen(p) % 8 == 0
  uses blk_ecbE, blk_ecbD, blk_def, ecbE_def, ecbD_def, des_inverse, des_len
  apply str_ext(ecbD(k, ecbE(k, p)), p)
  apply str_ext(ecbE(k, ecbD(k, p)), p)
  ensures ecbD(k, ecbE(k, p)) == p
  ensures ecbE(k, ecbD(k, p)) == p
  trigger {ecbD(k, ecbE(k, p))}
  trigger {ecbE(k, ecbD(k, p))}
}

extern des.NewCipher(key) (b, err) {
  modifies nothing
  ensures (err == nil) <==> len(key) == 8
  ensures err == nil ==> b != nil && blkKey[b.data] == desKey(strof(elems(key), key.off, len(key))) && blkSize[b.data] == 8
  ensures err != nil ==> b == nil
}
iface cipher.Block.Encrypt(dst, src) {
  requires [no_overlap] ref(dst) != ref(src)
  panics len(src) < blkSize[this.data] || len(dst) < blkSize[this.data]
  modifies dst[0:blkSize[this.data]]
  ensures blkSize[this.data] == 8 ==> strof(elems(dst), dst.off, 8) == desE(blkKey[this.data], old(strof(elems(src), src.off, 8)))
}
iface cipher.Block.Decrypt(dst, src) {
  requires [no_overlap] ref(dst) != ref(src)
  panics len(src) < blkSize[this.data] || len(dst) < blkSize[this.data]
  modifies dst[0:blkSize[this.data]]
  ensures blkSize[this.data] == 8 ==> strof(elems(dst), dst.off, 8) == desD(blkKey[this.data], old(strof(elems(src), src.off, 8)))
}
def text(b) := strof(elems(b), b.off, len(b))
def maxmsg() := 1000000000000

func encrypt(origData, key) (r, err) {
  prop C31
  uses blk_def, ecbE_def, des_len
  modifies nothing
  ensures [error] (err == nil) <==> (len(origData) > 0 && len(origData) % 8 == 0 && len(key) == 8)
  ensures [nothing_on_error] err != nil ==> len(r) == 0
  ensures [length] err == nil ==> fresh(r) && len(r) == len(origData)
  exitapply str_ext(text(r), ecbE(desKey(old(text(key))), old(text(origData))))
  ensures [cipher] err == nil ==> text(r) == ecbE(desKey(old(text(key))), old(text(origData)))
  loop 1 {
    invariant bs == 8 && block != nil && blkSize[block.data] == 8 && blkKey[block.data] == desKey(old(text(key)))
    invariant fresh(out) && len(out) == old(len(origData)) && ref(origData) == old(ref(origData)) && ref(dst) == ref(out)
    invariant len(dst) == len(origData) && dst.off + len(dst) == out.off + len(out) && origData.off + len(origData) == old(origData.off + len(origData)) && len(origData) % 8 == 0
    invariant forall i int {out[i]} :: 0 <= i && i < len(out) - len(dst) ==> out[i] == ecbE(desKey(old(text(key))), old(text(origData)))[i]
    apply str_ext(blk(old(text(origData)), (len(out) - len(dst)) / 8 - 1), strof(elems(origData), origData.off - 8, 8))
    modifies out[0:len(out)]
    decreases len(origData)
  }
  loop 1 alt { // by index
    locals i "int"
    invariant bs == 8 && block != nil && blkSize[block.data] == 8 && blkKey[block.data] == desKey(old(text(key)))
    invariant fresh(out) && len(out) == old(len(origData)) && origData == old(origData) && 0 <= i && i <= len(out) && i % 8 == 0
    invariant forall j int {out[j]} :: 0 <= j && j < i ==> out[j] == ecbE(desKey(old(text(key))), old(text(origData)))[j]
    apply str_ext(blk(old(text(origData)), i / 8 - 1), strof(elems(origData), origData.off + i - 8, 8))
    modifies out[0:len(out)]
    decreases len(out) - i
  }
}
func decrypt(crypted, key) (r, err) {
  prop C31
  uses blk_def, ecbD_def, des_len
  modifies nothing
  ensures [error] (err == nil) <==> (len(crypted) > 0 && len(crypted) % 8 == 0 && len(key) == 8)
  ensures [nothing_on_error] err != nil ==> len(r) == 0
  ensures [length] err == nil ==> fresh(r) && len(r) == len(crypted)
  exitapply str_ext(text(r), ecbD(desKey(old(text(key))), old(text(crypted))))
  ensures [plain] err == nil ==> text(r) == ecbD(desKey(old(text(key))), old(text(crypted)))
  loop 1 {
    invariant bs == 8 && block != nil && blkSize[block.data] == 8 && blkKey[block.data] == desKey(old(text(key)))
    invariant fresh(out) && len(out) == old(len(crypted)) && ref(crypted) == old(ref(crypted)) && ref(dst) == ref(out)
    invariant len(dst) == len(crypted) && dst.off + len(dst) == out.off + len(out) && crypted.off + len(crypted) == old(crypted.off + len(crypted)) && len(crypted) % 8 == 0
    invariant forall i int {out[i]} :: 0 <= i && i < len(out) - len(dst) ==> out[i] == ecbD(desKey(old(text(key))), old(text(crypted)))[i]
    apply str_ext(blk(old(text(crypted)), (len(out) - len(dst)) / 8 - 1), strof(elems(crypted), crypted.off - 8, 8))
    modifies out[0:len(out)]
    decreases len(crypted)
  }
  loop 1 alt { // by index
    locals i "int"
    invariant bs == 8 && block != nil && blkSize[block.data] == 8 && blkKey[block.data] == desKey(old(text(key)))
    invariant fresh(out) && len(out) == old(len(crypted)) && crypted == old(crypted) && 0 <= i && i <= len(out) && i % 8 == 0
    invariant forall j int {out[j]} :: 0 <= j && j < i ==> out[j] == ecbD(desKey(old(text(key))), old(text(crypted)))[j]
    apply str_ext(blk(old(text(crypted)), i / 8 - 1), strof(elems(crypted), crypted.off + i - 8, 8))
    modifies out[0:len(out)]
    decreases len(out) - i
  }
}
// instances of extensionality where the contracts meet
axiom key_ext(a str, b str) {
  requires slen(a) == slen(b) && (forall i int :: 0 <= i && i < slen(a) ==> a[i] == b[i])
  ensures a == b
  trigger {desKey(a), desKey(b)}
  reason "a byte string is determined by its length and bytes"
}
axiom ecb_ext(k int, a str, l int, b str) {
  requires slen(a) == slen(b) && (forall i int :: 0 <= i && i < slen(a) ==> a[i] == b[i])
  ensures a == b
  trigger {ecbE(k, a), ecbE(l, b)}
  reason "a byte string is determined by its length and bytes"
}
axiom strof_elem(a [int]int, off int, n int, p int) {
  requires off <= p && p < off + n
  ensures strof(a, off, n)[p - off] == a[p]
  trigger {strof(a, off, n), a[p]}
  reason "the bytes of a slice as a string are its elements"
}
def K(s, j) := desKey(blk(key24(s), j))
def E3(s, m) := ecbE(K(s, 2), ecbD(K(s, 1), ecbE(K(s, 0), m)))
func TripleDesEncrypt(origData, key) (r, err) {
  prop C31
  uses blk_def, key24_def, pad0_def, ecbE_def, ecbD_def, key_ext, ecb_ext
  requires len(origData) <= maxmsg()
  modifies origData[len(origData):cap(origData)]
  ensures [no_error] err == nil
  ensures [length] len(r) % 8 == 0 && len(r) > len(origData) && len(r) <= len(origData) + 8
  ensures [cipher] text(r) == E3(old(text(key)), pad0(old(text(origData))))
}
def D3(s, m) := ecbD(K(s, 0), ecbE(K(s, 1), ecbD(K(s, 2), m)))
// what is deciphered, without the zeros at its end
def unpadded(r, t) := len(r) <= slen(t) && (forall i int {r[i]} :: 0 <= i && i < len(r) ==> r[i] == t[i]) && (forall i int {t[i]} :: len(r) <= i && i < slen(t) ==> t[i] == 0) && (len(r) > 0 ==> t[len(r) - 1] != 0)
func TripleDesDecrypt(crypted, key) (r, err) {
  prop C31
  uses blk_def, key24_def, ecbE_def, ecbD_def, key_ext, strof_elem, triple_inverse, triple_round_trip
  modifies nothing
  ensures [error] (err == nil) <==> (len(crypted) > 0 && len(crypted) % 8 == 0)
  ensures [plain] err == nil ==> unpadded(r, D3(old(text(key)), old(text(crypted))))
}
lemma triple_inverse(k str, m str) {
  requires slen(m) % 8 == 0
  uses ecb_inverse, ecbE_def, ecbD_def
  ensures D3(k, E3(k, m)) == m
}
// composition of the contracts: c is what encrypting m returned, t what it deciphers to, n the length of the result
lemma triple_round_trip(k str, m str, t str, n int, i int) {
  requires slen(m) > 0 ==> m[slen(m) - 1] != 0
  requires t == D3(k, E3(k, pad0(m)))
  requires 0 <= n && n <= slen(t) && (forall i int {t[i]} :: n <= i && i < slen(t) ==> t[i] == 0) && (n > 0 ==> t[n - 1] != 0)
  uses pad0_def
  apply triple_inverse(k, pad0(m))
  hint t[slen(m) - 1] == t[slen(m) - 1]
  ensures [same_length] n == slen(m)
  ensures [same_bytes] 0 <= i && i < n ==> t[i] == m[i]
}
