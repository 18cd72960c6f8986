// C17: integer square root, rounded to the nearest integer.
package "math/prime"

// k: root bits still to be decided; sq: the part of the root decided so far (a multiple of 2^k)
def sk(i) := 16 - i / 2
def sq(s, i) := s / pow2(sk(i))
def skm(m) := ite(m == 1073741824, 16, ite(m == 268435456, 15, ite(m == 67108864, 14, ite(m == 16777216, 13, ite(m == 4194304, 12, ite(m == 1048576, 11, ite(m == 262144, 10, ite(m == 65536, 9, ite(m == 16384, 8, ite(m == 4096, 7, ite(m == 1024, 6, ite(m == 256, 5, ite(m == 64, 4, ite(m == 16, 3, ite(m == 4, 2, ite(m == 1, 1, 0))))))))))))))))
def sqm(s, m) := s / pow2(skm(m))

func SqrtUint32(val) (r) {
  prop C17, C18
  modifies nothing
  ensures [nearest_above] 4 * val < (2 * r + 1) * (2 * r + 1)
  ensures [nearest_below] r > 0 ==> (2 * r - 1) * (2 * r - 1) < 4 * val
  loop 1 {
    invariant 0 <= i && i <= 32 && i % 2 == 0
    invariant [shape] sqrtVal % (pow2(sk(i)) * pow2(sk(i))) == 0 && sq(sqrtVal, i) <= 65536 - pow2(sk(i))
    invariant [rest] val == old(val) - sq(sqrtVal, i) * sq(sqrtVal, i)
    invariant [bound] old(val) < (sq(sqrtVal, i) + pow2(sk(i))) * (sq(sqrtVal, i) + pow2(sk(i)))
    hint [quot] sq(sqrtVal, i) == atstart(sq(sqrtVal, i)) || sq(sqrtVal, i) == atstart(sq(sqrtVal, i)) + pow2(sk(i))
    hint [start] atstart(sqrtVal) == atstart(sq(sqrtVal, i)) * pow2(sk(i) + 1)
    hint [step] (sq(sqrtVal, i) == atstart(sq(sqrtVal, i)) && val == atstart(val)) || (sq(sqrtVal, i) == atstart(sq(sqrtVal, i)) + pow2(sk(i)) && val == atstart(val) - atstart(sq(sqrtVal, i)) * pow2(sk(i) + 1) - pow2(sk(i)) * pow2(sk(i)))
    split i 0 2 4 6 8 10 12 14 16 18 20 22 24 26 28 30 32
  }
  loop 1 alt { // over the bit itself
    locals magic "uint32"
    invariant magic == 0 || magic == 1073741824 || magic == 268435456 || magic == 67108864 || magic == 16777216 || magic == 4194304 || magic == 1048576 || magic == 262144 || magic == 65536 || magic == 16384 || magic == 4096 || magic == 1024 || magic == 256 || magic == 64 || magic == 16 || magic == 4 || magic == 1
    invariant [shape] sqrtVal % (pow2(skm(magic)) * pow2(skm(magic))) == 0 && sqm(sqrtVal, magic) <= 65536 - pow2(skm(magic))
    invariant [rest] val == old(val) - sqm(sqrtVal, magic) * sqm(sqrtVal, magic)
    invariant [bound] old(val) < (sqm(sqrtVal, magic) + pow2(skm(magic))) * (sqm(sqrtVal, magic) + pow2(skm(magic)))
    hint [quot] sqm(sqrtVal, magic) == atstart(sqm(sqrtVal, magic)) || sqm(sqrtVal, magic) == atstart(sqm(sqrtVal, magic)) + pow2(skm(magic))
    hint [start] atstart(sqrtVal) == atstart(sqm(sqrtVal, magic)) * pow2(skm(magic) + 1)
    hint [step] (sqm(sqrtVal, magic) == atstart(sqm(sqrtVal, magic)) && val == atstart(val)) || (sqm(sqrtVal, magic) == atstart(sqm(sqrtVal, magic)) + pow2(skm(magic)) && val == atstart(val) - atstart(sqm(sqrtVal, magic)) * pow2(skm(magic) + 1) - pow2(skm(magic)) * pow2(skm(magic)))
    decreases magic
    split magic 1073741824 268435456 67108864 16777216 4194304 1048576 262144 65536 16384 4096 1024 256 64 16 4 1 0
  }
}
