// C23: copying a reader to several writers.
package "io"
import stdio "io"

// During one copy: the bytes taken from a reader (and all but the last chunk of them), whether it reported its end and its last other error;
// the bytes a writer took; the first error a writer returned, and whether a writer took fewer bytes than given.
ghost var rGot [int]str
ghost var rPrev str
ghost var rEnd [int]bool
ghost var rErrTag int
ghost var rErrData int
ghost var wGot [int]str
ghost var wErrTag int
ghost var wErrData int
ghost var wShort bool

def btext(b, n) := strof(elems(b), b.off, n)
def prefixOf(a, b) := slen(a) <= slen(b) && (forall j int {a[j]} :: 0 <= j && j < slen(a) ==> a[j] == b[j])
def noteW(e) := (old(wErrTag) != 0 ==> wErrTag == old(wErrTag) && wErrData == old(wErrData)) && (old(wErrTag) == 0 ==> wErrTag == e.tag && wErrData == e.data)

axiom strof_bytes(a [int]int, o int, n int, j int) {
  requires 0 <= j && j < n
  ensures strof(a, o, n)[j] == a[o + j]
  trigger {strof(a, o, n)[j]}
  reason "bytes of a byte string"
}
iface stdio.Reader.Read(p) (n, err) {
  modifies p[*], rGot[this.data], rPrev, rEnd[this.data], rErrTag, rErrData
  ensures 0 <= n && n <= len(p)
  ensures rPrev == old(rGot[this.data]) && rGot[this.data] == rPrev + btext(p, n)
  ensures n == 0 ==> rGot[this.data] == rPrev
  ensures rEnd[this.data] <==> (err == stdio.EOF)
  ensures err == stdio.EOF ==> rErrTag == 0
  ensures err != stdio.EOF ==> rErrTag == err.tag && rErrData == err.data
}
iface stdio.Writer.Write(p) (n, err) {
  modifies wGot[this.data], wErrTag, wErrData, wShort
  ensures 0 <= n && n <= len(p)
  ensures wGot[this.data] == old(wGot[this.data]) + btext(p, n)
  ensures noteW(err)
  ensures wShort <==> (old(wShort) || n < len(p))
}
iface stdio.WriterTo.WriteTo(w) (n, err) {
  requires wGot[w.data] == "" && rGot[this.data] == ""
  modifies wGot[w.data], rGot[this.data], rEnd[this.data], wErrTag, wErrData
  ensures n == slen(wGot[w.data]) && prefixOf(wGot[w.data], rGot[this.data])
  ensures err == nil ==> wGot[w.data] == rGot[this.data] && rEnd[this.data]
  ensures noteW(err)
}
func CopysBuffer(src, buf, dsts) (written, err) {
  prop C23
  uses strof_bytes
  flag noterm
  requires src.tag != 0 && (buf == nil || len(buf) > 0)
  requires stdio.EOF != nil && stdio.ErrShortWrite != nil
  requires forall i int {dsts[i]} :: 0 <= i && i < len(dsts) ==> dsts[i].tag != 0
  requires forall i int, j int {dsts[i], dsts[j]} :: 0 <= i && i < j && j < len(dsts) ==> dsts[i].data != dsts[j].data
  modifies buf[*], rGot[src.data], rPrev, rEnd[src.data], rErrTag, rErrData, wGot, wErrTag, wErrData, wShort
  entryghost rGot := rGot[src.data := ""]
  entryghost rEnd := rEnd[src.data := false]
  entryghost wGot := mapof x int :: ""
  entryghost rErrTag := 0
  entryghost wErrTag := 0
  entryghost wShort := false
  ensures [all_delivered] err == nil ==> rEnd[src.data] && written == slen(rGot[src.data]) && (forall i int {dsts[i]} :: 0 <= i && i < len(dsts) ==> wGot[dsts[i].data] == rGot[src.data])
  ensures [prefixes] forall i int {dsts[i]} :: 0 <= i && i < len(dsts) ==> prefixOf(wGot[dsts[i].data], rGot[src.data])
  ensures [write_error] wErrTag != 0 ==> err.tag == wErrTag && err.data == wErrData
  ensures [short_write] wErrTag == 0 && wShort ==> err == stdio.ErrShortWrite
  ensures [read_error] wErrTag == 0 && !wShort && rErrTag != 0 ==> err.tag == rErrTag && err.data == rErrData
  ensures [no_error] wErrTag == 0 && !wShort && rErrTag == 0 ==> err == nil
  loop 1 {
    invariant [buffer] len(buf) > 0 && (buf.arr == old(buf.arr) && buf.off == old(buf.off) && len(buf) == old(len(buf)) || fresh(buf))
    invariant [no_error_yet] err == nil && wErrTag == 0 && rErrTag == 0 && !wShort
    invariant [count] written == slen(rGot[src.data])
    invariant [in_step] forall i int {dsts[i]} :: 0 <= i && i < len(dsts) ==> wGot[dsts[i].data] == rGot[src.data]
  }
  loop 2 {
    invariant [no_write_error] wErrTag == 0 && !wShort && err == nil
    invariant [served] forall i int {dsts[i]} :: 0 <= i && i <= rangeindex ==> wGot[dsts[i].data] == rGot[src.data]
    invariant [waiting] forall i int {dsts[i]} :: rangeindex < i && i < len(dsts) ==> wGot[dsts[i].data] == rPrev
  }
}
func Copys(src, dsts) (written, err) {
  prop C23
  flag noterm
  requires src.tag != 0
  requires stdio.EOF != nil && stdio.ErrShortWrite != nil
  requires forall i int {dsts[i]} :: 0 <= i && i < len(dsts) ==> dsts[i].tag != 0
  requires forall i int, j int {dsts[i], dsts[j]} :: 0 <= i && i < j && j < len(dsts) ==> dsts[i].data != dsts[j].data
  modifies rGot[src.data], rPrev, rEnd[src.data], rErrTag, rErrData, wGot, wErrTag, wErrData, wShort
  ensures [all_delivered] err == nil ==> rEnd[src.data] && written == slen(rGot[src.data]) && (forall i int {dsts[i]} :: 0 <= i && i < len(dsts) ==> wGot[dsts[i].data] == rGot[src.data])
  ensures [prefixes] forall i int {dsts[i]} :: 0 <= i && i < len(dsts) ==> prefixOf(wGot[dsts[i].data], rGot[src.data])
  ensures [write_error] wErrTag != 0 ==> err.tag == wErrTag && err.data == wErrData
  ensures [short_write] wErrTag == 0 && wShort ==> err == stdio.ErrShortWrite
  ensures [read_error] wErrTag == 0 && !wShort && rErrTag != 0 ==> err.tag == rErrTag && err.data == rErrData
  ensures [no_error] wErrTag == 0 && !wShort && rErrTag == 0 ==> err == nil
}
