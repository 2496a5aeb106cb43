------------------------------- MODULE Bytes -------------------------------
(* Byte-level vocabulary of the format: a byte is 0..255, a byte string a sequence, bit p of a byte string is bit
   (p % 8) of byte (p \div 8), least significant first. Numbers wider than TLC's 32-bit integers are little-endian
   byte strings. *)
EXTENDS Integers, Sequences, SequencesExt, TLC

(* the value of b; when it is false its name is reported, to explain a rejected record *)
Chk(nm, b) == IF b THEN TRUE ELSE PrintT(<<"WHY", nm>>) /\ FALSE

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Pow2(k) == IF k <= 16 THEN P2[k + 1] ELSE 2 ^ k

BitOf(b, k) == (b \div P2[k + 1]) % 2
\* bit p (from 0) of byte string s; bits beyond the end are 0
BitAt(s, p) == IF p \div 8 < Len(s) THEN BitOf(s[p \div 8 + 1], p % 8) ELSE 0
CeilDiv(a, b) == (a + b - 1) \div b
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* byte built from 8 bits f(0..7)
ByteFrom(f(_)) == f(0) + 2*f(1) + 4*f(2) + 8*f(3) + 16*f(4) + 32*f(5) + 64*f(6) + 128*f(7)
\* byte string of n bytes whose bit p is f(p)
BytesFrom(n, f(_)) == [k \in 1..n |-> LET g(j) == f(8*(k-1) + j) IN ByteFrom(g)]

\* little-endian n-byte string of a natural below 2^31
RECURSIVE LE(_, _)
LE(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o LE(v \div 256, n - 1)
\* natural denoted by a little-endian byte string (must be below 2^31)
RECURSIVE Nat_(_, _)
Nat_(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + 256 * Nat_(s, k + 1)
NatOf(s) == Nat_(s, 1)

PadTo(s, n) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE 0]
Zeros(n) == [k \in 1..n |-> 0]
Sub(s, from, n) == SubSeq(s, from, from + n - 1)
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

------------------------------------------------------------------------------
(* unsigned LEB128 of naturals below 2^31 *)
RECURSIVE Uleb(_)
Uleb(v) == IF v < 128 THEN <<v>> ELSE <<128 + (v % 128)>> \o Uleb(v \div 128)

(* ULEB128 of a 64-bit number given as its 64 bits (as an 8-byte string): 7 bits a byte, as few bytes as needed *)
UlebLen(s) == LET top == CHOOSE t \in 0..64 : /\ (t > 0 => BitAt(s, t - 1) = 1)
                                               /\ \A p \in t..63 : BitAt(s, p) = 0
              IN Max2(1, CeilDiv(top, 7))
Uleb64(s) == LET n == UlebLen(s) IN
  [k \in 1..n |-> LET f(j) == IF j = 7 THEN (IF k < n THEN 1 ELSE 0) ELSE BitAt(s, 7*(k-1) + j) IN ByteFrom(f)]
\* number of bytes of the ULEB128 at the head of s: up to the first byte without continuation bit (0: unterminated)
UlebEnd(s, at) == LET C == {k \in at..Min2(Len(s), at + 11) : s[k] < 128}
                  IN IF C = {} THEN 0 ELSE (CHOOSE k \in C : \A j \in C : k <= j) - at + 1
\* the 64-bit number (8 bytes) read by a ULEB128 of n bytes at position at
UlebVal64(s, at, n) == BytesFrom(8, LAMBDA p : IF p \div 7 < n THEN BitOf(s[at + p \div 7], p % 7) ELSE 0)
\* does the ULEB128 denote a number of at most 64 bits?
UlebFits64(s, at, n) == n <= 9 \/ (n = 10 /\ s[at + 9] <= 1)

------------------------------------------------------------------------------
(* 64-bit two's complement arithmetic on 8-byte strings, modulo 2^64 *)
AddB(a, b, carry0) ==
  LET n == Len(a)
      step(acc, k) == LET t == a[k] + b[k] + acc.c IN [r |-> Append(acc.r, t % 256), c |-> t \div 256]
  IN FoldLeft(step, [r |-> <<>>, c |-> carry0], [k \in 1..n |-> k]).r
NotB(a) == [k \in 1..Len(a) |-> 255 - a[k]]
Add64(a, b) == LET t1 == a[1] + b[1]  t2 == a[2] + b[2] + t1 \div 256  t3 == a[3] + b[3] + t2 \div 256  t4 == a[4] + b[4] + t3 \div 256
                   t5 == a[5] + b[5] + t4 \div 256  t6 == a[6] + b[6] + t5 \div 256  t7 == a[7] + b[7] + t6 \div 256  t8 == a[8] + b[8] + t7 \div 256
               IN <<t1 % 256, t2 % 256, t3 % 256, t4 % 256, t5 % 256, t6 % 256, t7 % 256, t8 % 256>>
\* the 8-byte number of w bits at bit s (0..7) of byte q
Field64(B, q, s, w) ==
  [j \in 1..8 |-> LET have == w - 8 * (j - 1) IN
     IF have <= 0 THEN 0
     ELSE (B[q + j - 1] \div P2[s + 1] + (IF s > 0 /\ s + have > 8 THEN B[q + j] * P2[9 - s] ELSE 0)) % (IF have >= 8 THEN 256 ELSE P2[have + 1])]
Sub64(a, b) == AddB(a, NotB(b), 1)
Neg64(a) == Sub64(Zeros(Len(a)), a)
IsNeg(a) == a[Len(a)] >= 128
\* arithmetic comparison of two's complement strings of the same length
RECURSIVE LtU_(_, _, _)
LtU_(a, b, k) == IF k = 0 THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LtU_(a, b, k - 1)
LtU(a, b) == LtU_(a, b, Len(a))
LtS(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE LtU(a, b)
\* zig-zag: (v << 1) ^ (v >> 63)
ZigZag64(v) == BytesFrom(8, LAMBDA p : LET b == IF p = 0 THEN 0 ELSE BitAt(v, p - 1)
                                           s == IF IsNeg(v) THEN 1 ELSE 0 IN (b + s) % 2)
UnZigZag64(u) == BytesFrom(8, LAMBDA p : LET b == IF p = 63 THEN 0 ELSE BitAt(u, p + 1)
                                             s == BitAt(u, 0) IN (b + s) % 2)
\* sign extension / truncation of a two's complement string
SExt(s, n) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE IF IsNeg(s) THEN 255 ELSE 0]

------------------------------------------------------------------------------
(* fixed-width bit packing, least significant bit first *)
\* value number k (from 0), as an n-byte string, of the width-w values packed in s
Packed(s, w, k, n) == BytesFrom(n, LAMBDA p : IF p < w THEN BitAt(s, k * w + p) ELSE 0)
Unpack(s, w, cnt, n) == [k \in 1..cnt |-> Packed(s, w, k - 1, n)]
Pack(vals, w) == LET cnt == Len(vals) IN
  BytesFrom(CeilDiv(cnt * w, 8), LAMBDA p : IF p < cnt * w THEN BitAt(vals[p \div w + 1], p % w) ELSE 0)
=============================================================================
