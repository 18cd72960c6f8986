// C21: fingerprint. C22: hash selection, string hashes, the none hash.
package "hash"
import stdhash "hash"
import md5 "crypto/md5"
import sha1 "crypto/sha1"
import sha256 "crypto/sha256"
import sha512 "crypto/sha512"
import crc32 "hash/crc32"
import crc64 "hash/crc64"
import bytes "bytes"

// digest(a, t): the digest of the bytes t by the algorithm with method number a (1 MD5 ... 6 CRC-64)
fun digest(int, str) str
// the one-byte string; the bytes of a slice
fun bstr(int) str
def text(b) := strof(elems(b), b.off, len(b))

// The hashes of the standard library: their algorithm and the bytes written to them so far.
ghost var hAlg [int]int
ghost var hText [int]str
ghost var tabPoly [int]int
ghost var bufText [int]str
// none hashes created so far
ghost var nNone int

axiom digest_len(a int, t str) {
  ensures slen(digest(a, t)) == ite(a == 1, 16, ite(a == 2, 20, ite(a == 3, 32, ite(a == 4, 64, ite(a == 5, 4, ite(a == 6, 8, slen(digest(a, t))))))))
  trigger {digest(a, t)}
  reason "digest sizes of MD5, SHA-1, SHA-256, SHA-512, CRC-32 and CRC-64"
}
axiom strof_part(a [int]int, o int, n int, p int, m int) {
  requires o <= p && 0 <= m && p + m <= o + n
  ensures strof(a, p, m) == substr(strof(a, o, n), p - o, p - o + m)
  trigger {strof(a, o, n), strof(a, p, m)}
  reason "part of a byte string"
}
axiom strof_empty(a [int]int, o int, n int) {
  requires n == 0
  ensures strof(a, o, n) == ""
  trigger {strof(a, o, n)}
  reason "a byte string without bytes"
}
axiom hex_number(n int) {
  requires 0 <= n && n < 281474976710656
  ensures hexn(12, n) == hexs(be6(n))
  trigger {hexn(12, n)}
  reason "hexadecimal notation: twelve digits are the digits of the six bytes, most significant first"
}
axiom cat_empty(e str, s str) {
  requires slen(e) == 0
  ensures e + s == s
  trigger {e + s}
  reason "concatenation"
}

def be6(n) := bstr(n / 1099511627776 % 256) + bstr(n / 4294967296 % 256) + bstr(n / 16777216 % 256) + bstr(n / 65536 % 256) + bstr(n / 256 % 256) + bstr(n % 256)
def be4(n) := bstr(n / 16777216 % 256) + bstr(n / 65536 % 256) + bstr(n / 256 % 256) + bstr(n % 256)

extern md5.New() (h) {
  modifies nothing
  ensures h.tag != 0 && stdTag(h.tag) && fresh(h.data) && hAlg[h.data] == 1 && hText[h.data] == ""
}
extern sha1.New() (h) {
  modifies nothing
  ensures stdTag(h.tag) && fresh(h.data) && hAlg[h.data] == 2 && hText[h.data] == ""
}
extern sha256.New() (h) {
  modifies nothing
  ensures stdTag(h.tag) && fresh(h.data) && hAlg[h.data] == 3 && hText[h.data] == ""
}
extern sha512.New() (h) {
  modifies nothing
  ensures stdTag(h.tag) && fresh(h.data) && hAlg[h.data] == 4 && hText[h.data] == ""
}
extern crc32.NewIEEE() (h) {
  modifies nothing
  ensures stdTag(h.tag) && fresh(h.data) && hAlg[h.data] == 5 && hText[h.data] == ""
}
extern crc64.MakeTable(poly) (t) {
  modifies nothing
  ensures t != nil && tabPoly[ref(t)] == poly
}
extern crc64.New(tab) (h) {
  requires [table] tab != nil
  modifies nothing
  ensures stdTag(h.tag) && fresh(h.data) && hText[h.data] == ""
  ensures (hAlg[h.data] == 6) <==> tabPoly[ref(tab)] == 15564440312192434176
}
extern bytes.NewBuffer(b) (r) {
  modifies b[len(b):cap(b)]
  ensures r != nil && fresh(r) && bufText[ref(r)] == old(text(b))
}
extern (b *bytes.Buffer) WriteByte(c) (err) {
  modifies bufText[ref(b)]
  ensures err == nil && bufText[ref(b)] == old(bufText[ref(b)]) + bstr(c)
}
extern (b *bytes.Buffer) Write(p) (n, err) {
  modifies bufText[ref(b)]
  ensures err == nil && n == len(p) && bufText[ref(b)] == old(bufText[ref(b)]) + text(p)
}
extern (b *bytes.Buffer) Bytes() (r) {
  modifies nothing
  ensures text(r) == bufText[ref(b)]
}

// a hash of the standard library, not one of this package's
def stdTag(t) := t != 0 && t != ptag(Fingerprint) && t != ptag(NoneHash)
def stdOf(h, a) := stdTag(h.tag) && hAlg[h.data] == a
def wfFP(f) := f != nil && stdOf(f.hs1, 1) && stdOf(f.hs2, 2) && stdOf(f.hs3, 6) && f.hs1.data != f.hs2.data && f.hs1.data != f.hs3.data && f.hs2.data != f.hs3.data && hText[f.hs2.data] == hText[f.hs1.data] && hText[f.hs3.data] == hText[f.hs1.data] && f.size <= 4611686018427387904
def freshParts(f) := fresh(f.hs1.data) && fresh(f.hs2.data) && fresh(f.hs3.data)
def fpText(f) := hText[f.hs1.data]
// the fingerprint of the bytes t, counted as n
def fpBytes(n, t) := be6(n % 281474976710656) + substr(digest(1, t), 4, 10) + substr(digest(2, t), 7, 13) + substr(digest(6, t), 1, 7)
def asFP(h) := ptr(Fingerprint, h.data)
def asNone(h) := ptr(NoneHash, h.data)

// calls through the interface go to this package's own methods for its own types (dispatch); the contracts
// here are for the hashes of the standard library
iface stdhash.Hash.Write(p) (n, err) {
  opt dispatch "Fingerprint,NoneHash"
  requires stdTag(this.tag)
  modifies hText[this.data]
  ensures n == len(p) && err == nil && hText[this.data] == old(hText[this.data]) + text(p)
}
iface stdhash.Hash.Sum(b) (r) {
  opt dispatch "Fingerprint,NoneHash"
  requires stdTag(this.tag)
  modifies b[len(b):cap(b)]
  ensures text(r) == old(text(b)) + digest(hAlg[this.data], hText[this.data]) && len(r) == len(b) + slen(digest(hAlg[this.data], hText[this.data]))
  ensures len(b) == 0 ==> text(r) == digest(hAlg[this.data], hText[this.data])
  ensures len(r) > cap(b) ==> fresh(r)
}
iface stdhash.Hash.Reset() {
  opt dispatch "Fingerprint,NoneHash"
  requires stdTag(this.tag)
  modifies hText[this.data]
  ensures hText[this.data] == ""
}
globalinv [C21] tabPoly[ref(gCrc6ISO4Table)] == 15564440312192434176 && gCrc6ISO4Table != nil
globalinv [C22] tabPoly[ref(gCrc6ISO4Table)] == 15564440312192434176 && gCrc6ISO4Table != nil
def noneInv() := nNone >= 0 && gId == nNone % 4294967296

func init() {
  prop C21, C22
  flag init
  flag noframe
  modifies gCrc6ISO4Table, gId, nNone
  exitghost nNone := 0
  ensures [none_yet] noneInv() && nNone == 0
}
func NewFingerprint() (f) {
  prop C21, C22
  flag inlineall
  modifies nothing
  ensures [new] fresh(f) && wfFP(f) && freshParts(f) && f.size == 0 && fpText(f) == ""
}
func (this *Fingerprint) Hash() (h) {
  prop C21
  requires this != nil
  modifies nothing
  ensures [self] h.tag == ptag(Fingerprint) && h.data == ref(this)
}
func (this *Fingerprint) Resetsize(size) {
  prop C21
  requires this != nil
  modifies this.size
  ensures [size] this.size == size
}
func (this *Fingerprint) Write(p) (n, err) {
  prop C21, C22
  requires wfFP(this) && this.size + len(p) <= 4611686018427387904
  modifies hText[this.hs1.data], hText[this.hs2.data], hText[this.hs3.data], this.size
  ensures [all_accepted] n == len(p) && err == nil
  ensures [text] fpText(this) == old(fpText(this)) + text(p) && wfFP(this)
  ensures [count] this.size == old(this.size) + len(p)
  ensures [counts_bytes] old(this.size == slen(fpText(this))) ==> this.size == slen(fpText(this))
}
func (this *Fingerprint) Sum(b) (r) {
  prop C21, C22
  uses strof_part, strof_empty, digest_len, cat_empty
  requires wfFP(this)
  modifies b[len(b):cap(b)]
  ensures [appended] text(r) == old(text(b)) + fpBytes(this.size, fpText(this))
  ensures [alone] len(b) == 0 ==> text(r) == fpBytes(this.size, fpText(this))
}
func (this *Fingerprint) String() (s) {
  prop C21
  uses strof_part, strof_empty, digest_len, hex_number
  requires wfFP(this)
  modifies nothing
  ensures [hex] s == hexs(be6(this.size % 281474976710656)) + "-" + hexs(substr(digest(1, fpText(this)), 4, 10)) + "-" + hexs(substr(digest(2, fpText(this)), 7, 13)) + "-" + hexs(substr(digest(6, fpText(this)), 1, 7))
}
func (this *Fingerprint) Reset() {
  prop C21
  requires wfFP(this)
  modifies hText[this.hs1.data], hText[this.hs2.data], hText[this.hs3.data], this.size
  ensures [initial] wfFP(this) && this.size == 0 && fpText(this) == ""
}

// C22
axiom strof_conv(a [int]int, o int, n int, s str) {
  requires n == slen(s) && (forall i int {a[o + i]} :: 0 <= i && i < n ==> a[o + i] == s[i])
  ensures strof(a, o, n) == s
  trigger {strof(a, o, n), slen(s)}
  reason "strings with the same bytes are equal"
}
lemma none_ids_differ(i int, j int) {
  requires 0 <= i && i < j && j - i < 4294967296
  ensures i % 4294967296 != j % 4294967296
}
def isNew(h, a) := fresh(h.data) && (1 <= a && a <= 6 ==> stdOf(h, a) && hText[h.data] == "") && (a == 7 ==> h.tag == ptag(Fingerprint) && wfFP(asFP(h)) && freshParts(asFP(h)) && asFP(h).size == 0 && fpText(asFP(h)) == "") && (a == 0 ==> h.tag == ptag(NoneHash) && asNone(h).id == nNone % 4294967296)
def noneCount(a) := nNone == old(nNone) + ite(a == 0, 1, 0) && noneInv()
func NewNoneHash() (h) {
  prop C22
  uses none_ids_differ
  requires noneInv()
  modifies gId, nNone
  exitghost nNone := nNone + 1
  ensures [new] isNew(h, 0)
  ensures [counted] noneCount(0)
}
func (this *NoneHash) Write(p) (n, err) {
  prop C22
  modifies nothing
  ensures [all_accepted] n == len(p) && err == nil
}
func (this *NoneHash) Sum(b) (r) {
  prop C22
  uses strof_empty, cat_empty
  requires this != nil
  modifies b[len(b):cap(b)]
  ensures [identity] text(r) == old(text(b)) + be4(this.id)
  ensures [alone] len(b) == 0 ==> text(r) == be4(this.id)
}
func (this *NoneHash) Reset() {
  prop C22
  modifies nothing
}
func (me HashMethod) New() (h) {
  prop C22
  requires noneInv()
  panics me > 7
  modifies gId, nNone
  ensures [named_algorithm] isNew(h, me)
  ensures [counted] noneCount(me)
}
func New(t) (h) {
  prop C22
  requires noneInv()
  panics t > 7
  modifies gId, nNone
  ensures [named_algorithm] isNew(h, t)
  ensures [counted] noneCount(t)
}
func (me HashMethod) StringHash(s) (h) {
  prop C22
  uses strof_conv, strof_empty, cat_empty
  requires noneInv()
  panics me > 7
  modifies gId, nNone
  ensures [hex_digest] 1 <= me && me <= 6 ==> h == hexs(digest(me, s))
  ensures [hex_fingerprint] me == 7 ==> h == hexs(fpBytes(slen(s), s))
  ensures [hex_none] me == 0 ==> h == hexs(be4(nNone % 4294967296))
  ensures [counted] noneCount(me)
}
func (me HashMethod) StringHashL(s) (h) {
  prop C22
  uses strof_conv, strof_empty, cat_empty
  requires noneInv()
  panics me > 7
  modifies gId, nNone
  ensures [length_hex_digest] 1 <= me && me <= 6 ==> h == zpad(10, slen(s)) + "-" + hexs(digest(me, s))
  ensures [length_hex_fingerprint] me == 7 ==> h == zpad(10, slen(s)) + "-" + hexs(fpBytes(slen(s), s))
  ensures [length_hex_none] me == 0 ==> h == zpad(10, slen(s)) + "-" + hexs(be4(nNone % 4294967296))
  ensures [counted] noneCount(me)
}
