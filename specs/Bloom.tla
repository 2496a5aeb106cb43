------------------------------- MODULE Bloom -------------------------------
(* Split-block Bloom filters (BloomFilter.md) and XXH64, on byte strings. A filter of n blocks of 256 bits is a set of bit
   positions below 256 n; a hash is 8 bytes. The upper half of the hash chooses the block, the lower half one bit in each of
   the block's eight 32-bit words. *)
EXTENDS Thrift, TLCExt, FiniteSets, Bitwise

\* product of byte strings, modulo 256^Len(a)
MulB(a, b) ==
  LET n == Len(a)
      col(k) == FoldLeft(LAMBDA s, j : s + a[j] * b[k + 1 - j], 0, [j \in 1..k |-> j])
  IN FoldLeft(LAMBDA s, k : LET t == TLCEval(col(k) + s.c) IN [r |-> Append(s.r, t % 256), c |-> t \div 256],
              [r |-> <<>>, c |-> 0], [k \in 1..n |-> k]).r
\* 0x47b6137b, 0x44974d91, 0x8824ad5b, 0xa2b7289d, 0x705495c7, 0x2df1424b, 0x9efc4947, 0x5c6bfb31
Salt == << <<123, 19, 182, 71>>, <<145, 77, 151, 68>>, <<91, 173, 36, 136>>, <<157, 40, 183, 162>>, <<199, 149, 84, 112>>, <<75, 66, 241, 45>>, <<71, 73, 252, 158>>, <<49, 251, 107, 92>> >>
\* (upper half * n) >> 32
BlockOf(h, n) == FoldLeft(LAMBDA c, k : (h[k] * n + c) \div 256, 0, <<5, 6, 7, 8>>)
\* the upper five bits of lower half * salt
BitOfWord(h, i) == MulB(SubSeq(h, 1, 4), Salt[i])[4] \div 8
BitsOf(h, n) == LET b == TLCEval(BlockOf(h, n)) IN {256 * b + 32 * (i - 1) + BitOfWord(h, i) : i \in 1..8}
Inserted(bits, h, n) == bits \cup BitsOf(h, n)
Answers(bits, h, n) == BitsOf(h, n) \subseteq bits

P64_1 == <<135, 202, 235, 133, 177, 121, 55, 158>>
P64_2 == <<79, 235, 212, 39, 61, 174, 178, 194>>
P64_3 == <<249, 121, 55, 158, 177, 103, 86, 22>>
P64_4 == <<99, 174, 178, 194, 119, 202, 235, 133>>
P64_5 == <<197, 103, 86, 22, 47, 235, 212, 39>>
Xor64(a, b) == [k \in 1..8 |-> a[k] ^^ b[k]]
\* bits s.. of a 64-bit string; rotation
ShrB(a, s) == LET q == s \div 8 r == s % 8 IN
  [k \in 1..8 |-> (IF k + q <= 8 THEN a[k + q] \div P2[r + 1] ELSE 0) + (IF k + q + 1 <= 8 /\ r > 0 THEN (a[k + q + 1] * P2[9 - r]) % 256 ELSE 0)]
Rotl(a, s) == LET q == s \div 8 r == s % 8
                  at(k) == a[((k - 1 - q + 16) % 8) + 1]
              IN [k \in 1..8 |-> ((at(k) * P2[r + 1]) % 256) + (IF r > 0 THEN at(k - 1) \div P2[9 - r] ELSE 0)]
Mul64(a, b) == TLCEval(MulB(a, b))
Plus(a, b) == TLCEval(Add64(a, b))
XRound(v, lane) == Mul64(TLCEval(Rotl(Plus(v, Mul64(lane, P64_2)), 31)), P64_1)
XMerge(h, v) == Plus(Mul64(TLCEval(Xor64(h, XRound(Zeros(8), v))), P64_1), P64_4)
RECURSIVE Stripes(_, _, _), XTail(_, _, _)
Stripes(B, p, v) ==
  IF p + 31 > Len(B) THEN [v |-> v, p |-> p]
  ELSE Stripes(B, p + 32, TLCEval([k \in 1..4 |-> XRound(v[k], SubSeq(B, p + 8 * (k - 1), p + 8 * k - 1))]))
XTail(B, p, h) ==
  IF p + 7 <= Len(B) THEN XTail(B, p + 8, Plus(Mul64(TLCEval(Rotl(TLCEval(Xor64(h, XRound(Zeros(8), SubSeq(B, p, p + 7)))), 27)), P64_1), P64_4))
  ELSE IF p + 3 <= Len(B)
       THEN XTail(B, p + 4, Plus(Mul64(TLCEval(Rotl(TLCEval(Xor64(h, Mul64(PadTo(SubSeq(B, p, p + 3), 8), P64_1))), 23)), P64_2), P64_3))
  ELSE IF p <= Len(B) THEN XTail(B, p + 1, Mul64(TLCEval(Rotl(TLCEval(Xor64(h, Mul64(<<B[p], 0, 0, 0, 0, 0, 0, 0>>, P64_5))), 11)), P64_1))
  ELSE h
Avalanche(h0) == LET h1 == Mul64(TLCEval(Xor64(h0, ShrB(h0, 33))), P64_2)
                     h2 == Mul64(TLCEval(Xor64(h1, ShrB(h1, 29))), P64_3)
                 IN TLCEval(Xor64(h2, ShrB(h2, 32)))
\* seed 0
XXH64(B) ==
  LET s == TLCEval(Stripes(B, 1, <<Plus(P64_1, P64_2), P64_2, Zeros(8), Neg64(P64_1)>>))
      v == s.v
      h == IF Len(B) < 32 THEN P64_5
           ELSE LET a == Plus(Plus(TLCEval(Rotl(v[1], 1)), TLCEval(Rotl(v[2], 7))), Plus(TLCEval(Rotl(v[3], 12)), TLCEval(Rotl(v[4], 18))))
                IN TLCEval(FoldLeft(LAMBDA x, k : XMerge(x, v[k]), a, <<1, 2, 3, 4>>))
  IN Avalanche(XTail(B, s.p, Plus(h, LE(Len(B), 8))))

(* a stored filter: a header, its bitset following. "std": a filter of the only kind the format defines so far; "other": of a kind it
   does not define *)
Only(v, id) == "f" \in DOMAIN v /\ DOMAIN v.f = {id}
StoredFilter(B, at) ==
  LET h == Struct(B, at + 1)
  IN IF at < 0 \/ at >= Len(B) THEN [k |-> "bad"]
     ELSE IF ~h.ok THEN [k |-> "bad"]
     ELSE IF ~(\A id \in 1..4 : Has(h.v, id)) THEN [k |-> "odd"]
     \* unknown strings that are not UTF-8 may be refused
     ELSE IF \E id \in DOMAIN h.v.f \ (1..4) : "s" \in DOMAIN h.v.f[id] /\ \E b \in {h.v.f[id].s[j] : j \in DOMAIN h.v.f[id].s} : b > 127 THEN [k |-> "odd"]
     ELSE IF ~("i" \in DOMAIN h.v.f[1] /\ Only(h.v.f[3], 1)) THEN [k |-> "odd"]
     ELSE IF Only(h.v.f[2], 1) /\ Only(h.v.f[4], 1)
          THEN IF h.v.f[1].i < 0 THEN [k |-> "bad"]
               ELSE IF h.v.f[1].i > Len(B) - h.n + 1 THEN [k |-> "bad"]
               ELSE [k |-> "std", bits |-> SubSeq(B, h.n, h.n + h.v.f[1].i - 1)]
     ELSE IF (Only(h.v.f[2], 1) \/ Only(h.v.f[2], 2)) /\ (Only(h.v.f[4], 1) \/ Only(h.v.f[4], 2)) THEN [k |-> "other"]
     ELSE [k |-> "odd"]
=============================================================================
