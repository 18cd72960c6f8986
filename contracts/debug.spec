// C32: backtraces. Frames are numbered as seen from the function under verification: frame 0 is the function
// that called it, frame 1 the one that called that, and so on; negative numbers are the frames of this package.
package "debug"
import runtime "runtime"
import bytes "bytes"

fun frName(int) str
fun frFile(int) str
fun frLine(int) int
// the pc of frame j as runtime.Caller and as runtime.Frames report it; the name runtime.FuncForPC gives for a pc
fun frPC(int) int
fun frCallPC(int) int
fun pcName(int) str
fun pcFile(int) str
fun pcLine(int) int
ghost var frCount int
ghost var pcFrom [int]int
ghost var pcBeg [int]int
ghost var fsFrom [int]int
ghost var fsPos [int]int
ghost var fsCnt [int]int
ghost var funcPC [int]int

axiom pc_name(j int) {
  ensures pcName(frPC(j)) == frName(j) && pcFile(frPC(j)) == frFile(j) && pcLine(frPC(j)) == frLine(j)
  trigger {frPC(j)}
  reason "runtime.FuncForPC of a pc from runtime.Caller names the innermost function there"
}
extern runtime.Caller(skip) (pc, file, line, ok) {
  modifies nothing
  ensures ok <==> (0 <= skip && skip - calldepth - 1 < frCount)
  ensures ok ==> pc == frPC(skip - calldepth - 1) && file == frFile(skip - calldepth - 1) && line == frLine(skip - calldepth - 1)
}
extern runtime.FuncForPC(pc) (f) {
  modifies nothing
  ensures f != nil && funcPC[ref(f)] == pc
}
extern (f *runtime.Func) Name() (s) {
  modifies nothing
  ensures s == pcName(funcPC[ref(f)])
}
extern (f *runtime.Func) FileLine(pc) (file, line) {
  requires [own_pc] pc == funcPC[ref(f)]
  modifies nothing
  ensures file == pcFile(pc) && line == pcLine(pc)
}
extern runtime.Callers(skip, pc) (n) {
  modifies pc[*], pcFrom[pc.arr], pcBeg[pc.arr]
  requires [skip] skip >= 0
  ensures pcFrom[pc.arr] == skip - calldepth - 2 && pcBeg[pc.arr] == pc.off && n == max(0, min(len(pc), frCount - (skip - calldepth - 2)))
}
extern runtime.CallersFrames(callers) (fs) {
  requires [from_the_start] callers.off == pcBeg[callers.arr]
  modifies nothing
  ensures fs != nil && fresh(fs) && fsFrom[ref(fs)] == pcFrom[callers.arr] && fsPos[ref(fs)] == 0
  ensures fsCnt[ref(fs)] == len(callers)
}
extern (fs *runtime.Frames) Next() (f, more) {
  requires [more_frames] fsPos[ref(fs)] < fsCnt[ref(fs)]
  modifies fsPos[ref(fs)]
  ensures fsPos[ref(fs)] == old(fsPos[ref(fs)]) + 1 && (more <==> fsPos[ref(fs)] < fsCnt[ref(fs)])
  ensures f.Function == frName(fsFrom[ref(fs)] + fsPos[ref(fs)] - 1) && f.File == frFile(fsFrom[ref(fs)] + fsPos[ref(fs)] - 1) && f.Line == frLine(fsFrom[ref(fs)] + fsPos[ref(fs)] - 1) && f.PC == frCallPC(fsFrom[ref(fs)] + fsPos[ref(fs)] - 1)
}
extern (b *bytes.Buffer) WriteString(s) (n, err) {
  modifies bufText[ref(b)]
  ensures err == nil && n == slen(s) && bufText[ref(b)] == old(bufText[ref(b)]) + s
}
extern (b *bytes.Buffer) String() (s) {
  modifies nothing
  ensures s == bufText[ref(b)]
}

// the text for frame j
def frFunc(head, j) := head + " Func{" + frName(j) + "}"
def frPlace(head, j) := head + " FileLine{" + frFile(j) + " : " + itoa(frLine(j)) + "}"
def frAll(head, j) := head + " Func{" + frName(j) + "} FileLine{" + frFile(j) + " : " + itoa(frLine(j)) + "} pc{" + hexU(frPC(j)) + "}"
def frList(j) := "Func{" + frName(j) + "} FileLine{" + frFile(j) + " : " + itoa(frLine(j)) + "} pc{" + hexU(frCallPC(j)) + "}"
// the lines for frames 0 to n-1
fun btsText(int) str
axiom bts_0(n int) {
  requires n == 0
  ensures btsText(n) == ""
  trigger {btsText(n)}
  reason "definition of the listing"
}
axiom bts_step(n int, m int) {
  requires n >= 0 && m == n + 1
  ensures btsText(m) == btsText(n) + "#" + itoa(n) + " Func{" + frName(n) + "} File{" + frFile(n) + " : " + itoa(frLine(n)) + "} pc{" + hexU(frCallPC(n)) + "}\n"
  trigger {btsText(n), btsText(m)}
  reason "definition of the listing"
}

func Bt() (s) {
  prop C32
  flag inlineall
  uses pc_name
  requires frCount >= 1
  modifies nothing
  ensures [own_frame] s == frAll("", 0)
}
func BtFileLine() (s) {
  prop C32
  flag inlineall
  uses pc_name
  requires frCount >= 1
  modifies nothing
  ensures [own_frame] s == frPlace("", 0)
}
func BtFunc() (s) {
  prop C32
  flag inlineall
  uses pc_name
  requires frCount >= 1
  modifies nothing
  ensures [own_frame] s == frFunc("", 0)
}
func Caller(depth) (s) {
  prop C32
  flag inlineall
  uses pc_name
  requires 0 <= depth && depth < 1073741824
  modifies nothing
  ensures [outer_frame] depth + 1 < frCount ==> s == frAll("Caller:", depth + 1)
  ensures [beyond_stack] depth + 1 >= frCount ==> s == ""
}
func CallerFileLine(depth) (s) {
  prop C32
  flag inlineall
  uses pc_name
  requires 0 <= depth && depth < 1073741824
  modifies nothing
  ensures [outer_frame] depth + 1 < frCount ==> s == frPlace("Caller:", depth + 1)
  ensures [beyond_stack] depth + 1 >= frCount ==> s == ""
}
func CallerFunc(depth) (s) {
  prop C32
  flag inlineall
  uses pc_name
  requires 0 <= depth && depth < 1073741824
  modifies nothing
  ensures [outer_frame] depth + 1 < frCount ==> s == frFunc("Caller:", depth + 1)
  ensures [beyond_stack] depth + 1 >= frCount ==> s == ""
}
func Bts() (s) {
  prop C32
  flag inlineall
  uses bts_0, bts_step
  requires frCount >= 1
  requires forall r int {bufText[r]} :: r >= alloc ==> bufText[r] == ""
  modifies nothing
  ensures [inside_out] s == btsText(min(frCount, 50))
  loop 1 {
    decreases fsCnt[ref(frames)] - fsPos[ref(frames)]
    invariant [listed] i >= 0 && frames != nil && i == fsPos[ref(frames)] && (more <==> i < fsCnt[ref(frames)]) && i <= fsCnt[ref(frames)] && fsCnt[ref(frames)] == min(frCount + calldepth, 50) && fsFrom[ref(frames)] == 0 - calldepth && fresh(frames) && bufText[ref(buf)] == btsText(i)
  }
  loop 1 alt { // leaving when there are no more
    decreases fsCnt[ref(frames)] - fsPos[ref(frames)]
    invariant [listed] i >= 0 && frames != nil && i == fsPos[ref(frames)] && n == fsCnt[ref(frames)] && (n > 0 ==> i < fsCnt[ref(frames)]) && i <= fsCnt[ref(frames)] && fsCnt[ref(frames)] == min(frCount + calldepth, 50) && fsFrom[ref(frames)] == 0 - calldepth && fresh(frames) && bufText[ref(buf)] == btsText(i)
  }
}
func CallStackList(nDepth) (r) {
  prop C32
  flag inlineall
  requires 0 <= nDepth && nDepth < 1073741824 && frCount >= 1
  modifies nothing
  ensures [inside_out] forall j int {r[j]} :: 0 <= j && j < len(r) ==> r[j] == frList(nDepth - 2 + j)
  ensures [complete] len(r) == max(0, min(50, frCount - (nDepth - 2)))
  loop 1 {
    decreases fsCnt[ref(frames)] - fsPos[ref(frames)]
    invariant [listed] frames != nil && len(cs) == fsPos[ref(frames)] && fresh(cs) && fresh(frames) && (more <==> len(cs) < fsCnt[ref(frames)]) && len(cs) <= fsCnt[ref(frames)] && fsCnt[ref(frames)] == max(0, min(50, frCount - (nDepth - 2 - calldepth))) && fsFrom[ref(frames)] == nDepth - 2 - calldepth
    invariant [texts] forall j int {cs[j]} :: 0 <= j && j < len(cs) ==> cs[j] == frList(nDepth - 2 - calldepth + j)
  }
  loop 1 alt { // leaving when there are no more
    decreases fsCnt[ref(frames)] - fsPos[ref(frames)]
    invariant [listed] frames != nil && len(cs) == fsPos[ref(frames)] && fresh(cs) && fresh(frames) && n == fsCnt[ref(frames)] && (n > 0 ==> len(cs) < fsCnt[ref(frames)]) && len(cs) <= fsCnt[ref(frames)] && fsCnt[ref(frames)] == max(0, min(50, frCount - (nDepth - 2 - calldepth))) && fsFrom[ref(frames)] == nDepth - 2 - calldepth
    invariant [texts] forall j int {cs[j]} :: 0 <= j && j < len(cs) ==> cs[j] == frList(nDepth - 2 - calldepth + j)
  }
}
func Assert(b) (r) {
  prop C32
  requires frCount >= 1
  requires forall r int {bufText[r]} :: r >= alloc ==> bufText[r] == ""
  panics !b
  modifies nothing
  ensures [passes] r == b
}
