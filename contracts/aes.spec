// C19 (PKCS#7), C20 (AES-CBC round trip).
package "crypto/aes"
import stdaes "crypto/aes"
import cipher "crypto/cipher"

// Byte strings are abstract values (strof: the bytes of a slice). Ciphers are abstract too: cbcE and cbcD are
// CBC encryption and decryption under key k from chaining state c, cbcNext the chaining state after a ciphertext.
fun aesKey(str) int
fun ivState(str) int
fun cbcE(int, int, str) str
fun cbcD(int, int, str) str
fun cbcNext(int, int, str) int
fun pad7(str) str
ghost var blkKey [int]int
ghost var blkSize [int]int
ghost var bmKey [int]int
ghost var bmEnc [int]int
ghost var bmChain [int]int
ghost var msg str

axiom str_ext(a str, b str) {
  requires slen(a) == slen(b) && (forall i int :: 0 <= i && i < slen(a) ==> a[i] == b[i])
  ensures a == b
  reason "a byte string is determined by its length and bytes"
}
axiom cbc_inverse(k int, c int, p str) {
  requires slen(p) % 16 == 0
  ensures cbcD(k, c, cbcE(k, c, p)) == p
  trigger {cbcE(k, c, p)}
  reason "CBC decryption under the same key and chaining state inverts encryption"
}
axiom cbc_len(k int, c int, p str) {
  ensures slen(cbcD(k, c, p)) == slen(p)
  trigger {cbcD(k, c, p)}
  reason "CBC keeps the length"
}
axiom cbcE_len(k int, c int, p str) {
  ensures slen(cbcE(k, c, p)) == slen(p)
  trigger {cbcE(k, c, p)}
  reason "CBC keeps the length"
}
axiom pad7_def(m str) {
  requires slen(m) >= 0
  ensures slen(pad7(m)) == slen(m) + 16 - slen(m) % 16
  ensures forall i int {pad7(m)[i]} :: 0 <= i && i < slen(pad7(m)) ==> pad7(m)[i] == ite(i < slen(m), m[i], 16 - slen(m) % 16)
  trigger {pad7(m)}
  reason "definition: a message followed by its PKCS#7 padding to 16 bytes"
}

extern stdaes.NewCipher(key) (b, err) {
  modifies nothing
  ensures (err == nil) <==> (len(key) == 16 || len(key) == 24 || len(key) == 32)
  ensures err == nil ==> b != nil && blkKey[b.data] == aesKey(strof(elems(key), key.off, len(key))) && blkSize[b.data] == 16
  ensures err != nil ==> b == nil
}
iface cipher.Block.BlockSize() (n) {
  modifies nothing
  ensures n == blkSize[this.data]
}
extern cipher.NewCBCEncrypter(b, iv) (m) {
  panics len(iv) != blkSize[b.data]
  modifies nothing
  ensures m != nil && bmKey[m.data] == blkKey[b.data] && bmEnc[m.data] == 1
  ensures bmChain[m.data] == ivState(strof(elems(iv), iv.off, len(iv)))
}
extern cipher.NewCBCDecrypter(b, iv) (m) {
  panics len(iv) != blkSize[b.data]
  modifies nothing
  ensures m != nil && bmKey[m.data] == blkKey[b.data] && bmEnc[m.data] == 0
  ensures bmChain[m.data] == ivState(strof(elems(iv), iv.off, len(iv)))
}
// dst and src are different arrays in every call verified here (an obligation)
iface cipher.BlockMode.CryptBlocks(dst, src) {
  requires [no_overlap] ref(dst) != ref(src) || (dst.off == src.off)
  panics len(src) % 16 != 0 || len(dst) < len(src)
  modifies dst[0:len(src)], bmChain[this.data]
  ensures bmEnc[this.data] == 1 ==> strof(elems(dst), dst.off, len(src)) == cbcE(bmKey[this.data], old(bmChain[this.data]), old(strof(elems(src), src.off, len(src))))
  ensures bmEnc[this.data] == 0 ==> strof(elems(dst), dst.off, len(src)) == cbcD(bmKey[this.data], old(bmChain[this.data]), old(strof(elems(src), src.off, len(src))))
  ensures bmEnc[this.data] == 1 ==> bmChain[this.data] == cbcNext(bmKey[this.data], old(bmChain[this.data]), strof(elems(dst), dst.off, len(src)))
  ensures bmEnc[this.data] == 0 ==> bmChain[this.data] == cbcNext(bmKey[this.data], old(bmChain[this.data]), old(strof(elems(src), src.off, len(src))))
}
func PKCS7Padding(b, blockSize) (r) {
  prop C19
  uses padn_ok, padn_unique, pad7_def
  requires 1 <= blockSize <= 255 && len(b) <= 1000000000000
  modifies nothing
  ensures [length] len(b) < len(r) <= len(b) + blockSize && len(r) % blockSize == 0 && fresh(r)
  ensures [input_first] forall i int {r[i]} :: 0 <= i < len(b) ==> r[i] == b[i]
  ensures [count_bytes] forall i int {r[i]} :: len(b) <= i < len(r) ==> r[i] == len(r) - len(b)
  exitapply str_ext(strof(elems(r), r.off, len(r)), pad7(old(strof(elems(b), b.off, len(b)))))
  ensures [text] blockSize == 16 ==> strof(elems(r), r.off, len(r)) == pad7(old(strof(elems(b), b.off, len(b))))
  loop 1 {
    invariant len(b) <= i && i <= len(buf)
    invariant forall j int {buf[j]} :: 0 <= j < len(b) ==> buf[j] == b[j]
    invariant forall j int {buf[j]} :: len(b) <= j < i ==> buf[j] == size
    modifies buf[0:len(buf)]
  }
  loop 1 alt { // over the part to fill
    locals pad "[]byte", i "int"
    invariant 0 <= i && i <= len(pad) && ref(pad) == ref(buf) && pad.off == buf.off + len(b) && len(pad) == size && len(buf) == len(b) + size
    invariant forall j int {buf[j]} :: 0 <= j < len(b) ==> buf[j] == b[j]
    invariant forall j int {buf[j]} :: len(b) <= j < len(b) + i ==> buf[j] == size
    modifies buf[0:len(buf)]
  }
  loop 1 alt { // appending
    locals i "int"
    invariant 0 <= i && i <= size && len(buf) == len(b) + i && fresh(buf)
    invariant forall j int {buf[j]} :: 0 <= j < len(b) ==> buf[j] == b[j]
    invariant forall j int {buf[j]} :: len(b) <= j < len(buf) ==> buf[j] == size
    decreases size - i
  }
}
func PKCS7PaddingString(str, blockSize) (r) {
  prop C19
  uses padn_ok, padn_unique, pad7_def
  requires 1 <= blockSize <= 255 && len(str) <= 1000000000000
  modifies nothing
  ensures [length] len(str) < len(r) <= len(str) + blockSize && len(r) % blockSize == 0 && fresh(r)
  ensures [input_first] forall i int {r[i]} :: 0 <= i < len(str) ==> r[i] == str[i]
  ensures [count_bytes] forall i int {r[i]} :: len(str) <= i < len(r) ==> r[i] == len(r) - len(str)
  exitapply str_ext(strof(elems(r), r.off, len(r)), pad7(str))
  ensures [text] blockSize == 16 ==> strof(elems(r), r.off, len(r)) == pad7(str)
  loop 1 {
    invariant len(str) <= i && i <= len(buf)
    invariant forall j int {buf[j]} :: 0 <= j < len(str) ==> buf[j] == str[j]
    invariant forall j int {buf[j]} :: len(str) <= j < i ==> buf[j] == size
    modifies buf[0:len(buf)]
  }
  loop 1 alt { // over the part to fill
    locals pad "[]byte", i "int"
    invariant 0 <= i && i <= len(pad) && ref(pad) == ref(buf) && pad.off == buf.off + len(str) && len(pad) == size && len(buf) == len(str) + size
    invariant forall j int {buf[j]} :: 0 <= j < len(str) ==> buf[j] == str[j]
    invariant forall j int {buf[j]} :: len(str) <= j < len(str) + i ==> buf[j] == size
    modifies buf[0:len(buf)]
  }
  loop 1 alt { // appending
    locals i "int"
    invariant 0 <= i && i <= size && len(buf) == len(str) + i && fresh(buf)
    invariant forall j int {buf[j]} :: 0 <= j < len(str) ==> buf[j] == str[j]
    invariant forall j int {buf[j]} :: len(str) <= j < len(buf) ==> buf[j] == size
    decreases size - i
  }
}
func PKCS7Unpadding(b) (r) {
  prop C19
  requires len(b) > 0 && b[len(b)-1] <= len(b)
  modifies nothing
  ensures [prefix] len(r) == len(b) - b[len(b)-1] && ref(r) == ref(b) && r.off == b.off && (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] == b[i])
}

def encOK(e) := e != nil && e.blockMode != nil && e.blockSize == 16 && bmEnc[e.blockMode.data] == 1
def decOK(d) := d != nil && d.blockMode != nil && d.blockSize == 16 && bmEnc[d.blockMode.data] == 0
def validKey(key) := len(key) == 16 || len(key) == 24 || len(key) == 32

func NewAESEncrypter(key) (e, err) {
  prop C20
  modifies nothing
  ensures [valid_key_accepted] (err == nil) <==> validKey(key)
  ensures [nothing_else_on_error] err != nil ==> e == nil
  ensures [encrypter] err == nil ==> encOK(e) && fresh(e)
  ensures [key] err == nil ==> bmKey[e.blockMode.data] == aesKey(strof(elems(key), key.off, len(key)))
  ensures [start] err == nil ==> bmChain[e.blockMode.data] == ivState(strof(elems(key), key.off, 16))
}
func NewAESDecrypter(key) (d, err) {
  prop C20
  modifies nothing
  ensures [valid_key_accepted] (err == nil) <==> validKey(key)
  ensures [nothing_else_on_error] err != nil ==> d == nil
  ensures [decrypter] err == nil ==> decOK(d) && fresh(d)
  ensures [key] err == nil ==> bmKey[d.blockMode.data] == aesKey(strof(elems(key), key.off, len(key)))
  ensures [start] err == nil ==> bmChain[d.blockMode.data] == ivState(strof(elems(key), key.off, 16))
}
func (this *AESEncrypter) Encrypt(b) (r) {
  prop C20
  uses cbcE_len, pad7_def
  requires encOK(this) && len(b) <= 1000000000000
  modifies bmChain[this.blockMode.data]
  ensures [length] len(b) < len(r) && len(r) <= len(b) + 16 && len(r) % 16 == 0 && fresh(r)
  ensures [cipher] strof(elems(r), r.off, len(r)) == cbcE(bmKey[this.blockMode.data], old(bmChain[this.blockMode.data]), pad7(old(strof(elems(b), b.off, len(b)))))
  ensures [chain] bmChain[this.blockMode.data] == cbcNext(bmKey[this.blockMode.data], old(bmChain[this.blockMode.data]), strof(elems(r), r.off, len(r)))
  ensures [still_ok] encOK(this) && unchanged(bmKey)
}
func (this *AESEncrypter) EncryptString(str) (r) {
  prop C20
  uses cbcE_len, pad7_def
  requires encOK(this) && len(str) <= 1000000000000
  modifies bmChain[this.blockMode.data]
  ensures [length] len(str) < len(r) && len(r) <= len(str) + 16 && len(r) % 16 == 0 && fresh(r)
  ensures [cipher] strof(elems(r), r.off, len(r)) == cbcE(bmKey[this.blockMode.data], old(bmChain[this.blockMode.data]), pad7(str))
  ensures [chain] bmChain[this.blockMode.data] == cbcNext(bmKey[this.blockMode.data], old(bmChain[this.blockMode.data]), strof(elems(r), r.off, len(r)))
  ensures [still_ok] encOK(this) && unchanged(bmKey)
}
// m is the message whose encryption b is, from the same chaining state
func (this *AESDecrypter) Decrypt(b) (r) {
  prop C20
  uses cbc_len, cbc_inverse, pad7_def
  requires decOK(this)
  requires [ciphertext] slen(msg) >= 0 && strof(elems(b), b.off, len(b)) == cbcE(bmKey[this.blockMode.data], bmChain[this.blockMode.data], pad7(msg))
  modifies bmChain[this.blockMode.data]
  ensures [message] len(r) == slen(msg) && (forall i int {r[i]} :: 0 <= i && i < len(r) ==> r[i] == msg[i])
  ensures [chain] bmChain[this.blockMode.data] == cbcNext(bmKey[this.blockMode.data], old(bmChain[this.blockMode.data]), old(strof(elems(b), b.off, len(b))))
  ensures [still_ok] decOK(this) && unchanged(bmKey)
}
func (this *AESDecrypter) DecryptToString(b) (s) {
  prop C20
  uses cbc_len, cbc_inverse, pad7_def
  requires decOK(this)
  requires [ciphertext] slen(msg) >= 0 && strof(elems(b), b.off, len(b)) == cbcE(bmKey[this.blockMode.data], bmChain[this.blockMode.data], pad7(msg))
  modifies bmChain[this.blockMode.data]
  exitapply str_ext(s, msg)
  ensures [message] s == msg
  ensures [chain] bmChain[this.blockMode.data] == cbcNext(bmKey[this.blockMode.data], old(bmChain[this.blockMode.data]), old(strof(elems(b), b.off, len(b))))
  ensures [still_ok] decOK(this) && unchanged(bmKey)
}
