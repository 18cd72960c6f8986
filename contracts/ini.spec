// C24: INI files.
package "encoding/ini"
import bufio "bufio"
import strings "strings"
import os "os"

// The text being loaded: its lines as bufio.Reader.ReadString('\n') delivers them, their number (the last one
// comes with an error, at the latest io.EOF), and how many have been delivered.
ghost var iniLine [int]str
ghost var iniTotal int
ghost var iniRead int
// the text an IniFile was loaded from
ghost field IniFile.lines [int]str
ghost field IniFile.nlines int

// strings.TrimSpace; the position of the first '=' of a string, -1 if there is none
fun trim(str) str
fun eqpos(str) int
axiom trim_empty(s str) {
  requires slen(s) == 0
  ensures trim(s) == ""
  trigger {trim(s)}
  reason "strings.TrimSpace of the empty string"
}
axiom eqpos_range(s str) {
  ensures -1 <= eqpos(s) && eqpos(s) < slen(s)
  trigger {eqpos(s)}
  reason "a position in the string, or -1"
}

def isHead(t) := t != "" && t[0] == 91 && t[slen(t) - 1] == 93
def headName(t) := substr(t, 1, slen(t) - 1)
def isData(t) := t != "" && t[0] != 59 && !isHead(t)
def keyOf(t) := ite(eqpos(t) < 0, trim(t), trim(substr(t, 0, eqpos(t))))
def valOf(t) := ite(eqpos(t) < 0, "", trim(substr(t, eqpos(t) + 1, slen(t))))

// after n lines: the current section, whether s was a header, whether and to what k is set in s
fun iniCur([int]str, int) str
fun iniSec([int]str, int, str) bool
fun iniHas([int]str, int, str, str) bool
fun iniVal([int]str, int, str, str) str
def setsKey(L, n, s, k) := isData(trim(L[n])) && s != "" && iniCur(L, n) == s && k != "" && keyOf(trim(L[n])) == k

axiom cur_0(L [int]str, n int) {
  requires n == 0
  ensures iniCur(L, n) == ""
  trigger {iniCur(L, n)}
  reason "definition: no section is current before the first line"
}
axiom cur_step(L [int]str, n int, m int) {
  requires n >= 0 && m == n + 1
  ensures iniCur(L, m) == ite(isHead(trim(L[n])), headName(trim(L[n])), iniCur(L, n))
  trigger {iniCur(L, n), iniCur(L, m)}
  reason "definition: a header line makes its section current"
}
axiom sec_0(L [int]str, n int, s str) {
  requires n == 0
  ensures !iniSec(L, n, s)
  trigger {iniSec(L, n, s)}
  reason "definition: no header before the first line"
}
axiom sec_step(L [int]str, n int, m int, s str) {
  requires n >= 0 && m == n + 1
  ensures iniSec(L, m, s) <==> (iniSec(L, n, s) || isHead(trim(L[n])) && headName(trim(L[n])) == s)
  trigger {iniCur(L, n), iniSec(L, m, s)}
  reason "definition: headers seen"
}
axiom has_0(L [int]str, n int, s str, k str) {
  requires n == 0
  ensures !iniHas(L, n, s, k)
  trigger {iniHas(L, n, s, k)}
  reason "definition: nothing set before the first line"
}
axiom has_step(L [int]str, n int, m int, s str, k str) {
  requires n >= 0 && m == n + 1
  ensures iniHas(L, m, s, k) <==> (iniHas(L, n, s, k) || setsKey(L, n, s, k))
  trigger {iniCur(L, n), iniHas(L, m, s, k)}
  reason "definition: keys set"
}
axiom val_step(L [int]str, n int, m int, s str, k str) {
  requires n >= 0 && m == n + 1
  ensures iniVal(L, m, s, k) == ite(setsKey(L, n, s, k), valOf(trim(L[n])), iniVal(L, n, s, k))
  trigger {iniCur(L, n), iniVal(L, m, s, k)}
  reason "definition: the last line that sets the key decides"
}
extern bufio.NewReader(f) (r) {
  modifies iniRead
  ensures r != nil && fresh(r) && iniRead == 0
}
extern (r *bufio.Reader) ReadString(delim) (line, err) {
  requires [lines] delim == 10 && iniRead < iniTotal
  modifies iniRead
  ensures line == iniLine[old(iniRead)] && iniRead == old(iniRead) + 1
  ensures err != nil <==> iniRead == iniTotal
}
extern os.Open(name) (f, err) {
  modifies nothing
  ensures err == nil ==> f != nil
}
extern (f *os.File) Close() (err) {
  modifies nothing
}
extern strings.TrimSpace(s) (r) {
  modifies nothing
  ensures r == trim(s)
}
extern strings.HasPrefix(s, p) (r) {
  modifies nothing
  ensures slen(p) == 1 ==> (r <==> (slen(s) >= 1 && s[0] == p[0]))
  ensures r <==> (slen(p) <= slen(s) && (forall i int {s[i]} {p[i]} :: 0 <= i && i < slen(p) ==> s[i] == p[i]))
}
extern strings.HasSuffix(s, p) (r) {
  modifies nothing
  ensures slen(p) == 1 ==> (r <==> (slen(s) >= 1 && s[slen(s) - 1] == p[0]))
  ensures r <==> (slen(p) <= slen(s) && (forall i int {p[i]} :: 0 <= i && i < slen(p) ==> s[slen(s) - slen(p) + i] == p[i]))
}
extern strings.SplitN(s, sep, n) (r) {
  requires [first_equals_sign] sep == "=" && n == 2
  modifies nothing
  ensures fresh(r)
  ensures eqpos(s) < 0 ==> len(r) == 1 && r[0] == s
  ensures eqpos(s) >= 0 ==> len(r) == 2 && r[0] == substr(s, 0, eqpos(s)) && r[1] == substr(s, eqpos(s) + 1, slen(s))
}
extern strings.Index(s, sep) (r) {
  requires [first_equals_sign] sep == "="
  modifies nothing
  ensures r == eqpos(s)
}
extern strings.IndexByte(s, c) (r) {
  requires [first_equals_sign] c == 61
  modifies nothing
  ensures r == eqpos(s)
}

def secsOK(m, L, n) := m != nil && (forall s str {has(m, s)} {iniSec(L, n, s)} :: has(m, s) <==> iniSec(L, n, s)) && (forall s str {m[s]} :: has(m, s) ==> m[s] != nil) && (forall s str, t str {m[s], m[t]} :: has(m, s) && has(m, t) && s != t ==> m[s] != m[t])
def keysOK(m, L, n) := (forall s str, k str {has(m[s], k)} {iniHas(L, n, s, k)} :: has(m, s) ==> (has(m[s], k) <==> iniHas(L, n, s, k))) && (forall s str, k str {m[s][k]} {iniVal(L, n, s, k)} :: has(m, s) && has(m[s], k) ==> m[s][k] == iniVal(L, n, s, k)) && (forall s str, k str {iniHas(L, n, s, k)} :: iniHas(L, n, s, k) ==> iniSec(L, n, s))
def iniOK(f) := f != nil && secsOK(f.sections, f.lines, f.nlines) && keysOK(f.sections, f.lines, f.nlines)

func Load(f) (r) {
  prop C24
  requires f.tag != 0 && iniTotal >= 1
  modifies iniRead
  exitghost r.lines := iniLine
  exitghost r.nlines := iniTotal
  ensures [loaded] fresh(r) && r.lines == iniLine && r.nlines == iniTotal && iniOK(r)
  loop 1 {
    decreases iniTotal - iniRead
    invariant [lines] 0 <= iniRead && iniRead <= iniTotal && (err != nil <==> iniRead == iniTotal)
    invariant [current] sec == iniCur(iniLine, iniRead) && (sec != "" ==> iniSec(iniLine, iniRead, sec))
    invariant [own] fresh(m) && (forall s str {m[s]} :: has(m, s) ==> fresh(m[s]))
    invariant [sections] secsOK(m, iniLine, iniRead)
    invariant [keys] keysOK(m, iniLine, iniRead)
  }
}
func New(path) (r, err) {
  prop C24
  requires iniTotal >= 1
  modifies iniRead
  ensures [loaded] err == nil ==> r != nil && r.lines == iniLine && r.nlines == iniTotal && iniOK(r)
}
func (p *IniFile) GetString(sec, key, def_) (r) {
  prop C24
  requires iniOK(p)
  modifies nothing
  ensures [set] iniHas(p.lines, p.nlines, sec, key) ==> r == iniVal(p.lines, p.nlines, sec, key)
  ensures [default] !iniHas(p.lines, p.nlines, sec, key) ==> r == def_
}
func (p *IniFile) Sections() (r) {
  prop C24
  requires iniOK(p)
  modifies nothing
  ensures [headers] forall j int {r[j]} :: 0 <= j && j < len(r) ==> iniSec(p.lines, p.nlines, r[j])
  ensures [once] forall i int, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
  ensures [complete] forall s str {iniSec(p.lines, p.nlines, s)} :: iniSec(p.lines, p.nlines, s) ==> (exists j int {r[j]} :: 0 <= j && j < len(r) && r[j] == s)
  loop 1 {
    invariant [filled] i == rangeiter && len(s) == len(p.sections) && fresh(s) && (forall j int {s[j]} :: 0 <= j && j < i ==> s[j] == rangekey[j])
  }
  loop 1 alt { // appending
    invariant [filled] len(s) == rangeiter && (fresh(s) || cap(s) == 0) && s.off == 0 && (forall j int {s[j]} {rangekey[j]} :: 0 <= j && j < len(s) ==> s[j] == rangekey[j])
  }
}
func (p *IniFile) Keys(sec) (r) {
  prop C24
  requires iniOK(p)
  modifies nothing
  ensures [none] !iniSec(p.lines, p.nlines, sec) ==> len(r) == 0
  ensures [set] forall j int {r[j]} :: 0 <= j && j < len(r) ==> iniHas(p.lines, p.nlines, sec, r[j])
  ensures [once] forall i int, j int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
  ensures [complete] forall k str {iniHas(p.lines, p.nlines, sec, k)} :: iniHas(p.lines, p.nlines, sec, k) ==> (exists j int {r[j]} :: 0 <= j && j < len(r) && r[j] == k)
  loop 1 {
    invariant [filled] i == rangeiter && len(keys) == len(m) && fresh(keys) && (forall j int {keys[j]} :: 0 <= j && j < i ==> keys[j] == rangekey[j])
  }
  loop 1 alt { // appending
    invariant [filled] len(keys) == rangeiter && (fresh(keys) || cap(keys) == 0) && keys.off == 0 && (forall j int {keys[j]} {rangekey[j]} :: 0 <= j && j < len(keys) ==> keys[j] == rangekey[j])
  }
}
