------------------------------- MODULE Codec -------------------------------
(* The byte formats of LZ4 blocks, Hadoop's framing of them and Snappy, as decoders. A result is [st, out]: "ok", "bad"
   (cut short, reaching before its start, of another length than declared), or "lax": decodable, but not as the format
   demands of an encoder, which decoders may refuse. *)
EXTENDS Bytes

BadC == [st |-> "bad", out |-> <<>>]
\* n bytes copied from `off` bytes before the end of out; they may overlap what they produce
CopyBack(out, off, n) == out \o (IF n <= off THEN SubSeq(out, Len(out) - off + 1, Len(out) - off + n)
                                 ELSE [k \in 1..n |-> out[Len(out) - off + 1 + ((k - 1) % off)]])

\* LZ4: an extended length: base and, when base is 15, bytes up to the first that is not 255; [ok, v, n]
RECURSIVE Ext(_, _, _)
Ext(B, p, v) == IF p > Len(B) THEN [ok |-> FALSE, v |-> 0, n |-> 0]
                ELSE IF B[p] = 255 THEN Ext(B, p + 1, v + 255) ELSE [ok |-> TRUE, v |-> v + B[p], n |-> p + 1]
LenAt(B, p, base) == IF base = 15 THEN Ext(B, p, 15) ELSE [ok |-> TRUE, v |-> base, n |-> p]
\* out so far, lastm: where the last match ended and started in out (0: none), from position p
RECURSIVE Lz4_(_, _, _, _, _, _)
Lz4_(B, p, out, mstart, mend, lax) ==
  IF p > Len(B) THEN BadC
  ELSE LET t == B[p]
           l == TLCEval(LenAt(B, p + 1, t \div 16))
       IN IF ~l.ok \/ l.n + l.v - 1 > Len(B) THEN BadC
          ELSE LET o1 == TLCEval(out \o Sub(B, l.n, l.v))
                   q == l.n + l.v
               IN IF q > Len(B)
                  THEN \* the last sequence: literals only; matches end 5 and start 12 bytes before the end
                       [st |-> IF lax \/ t % 16 # 0 \/ (mend > 0 /\ (Len(o1) - mend < 5 \/ Len(o1) - mstart < 12)) THEN "lax" ELSE "ok", out |-> o1]
                  ELSE IF q + 1 > Len(B) THEN BadC
                  ELSE LET off == B[q] + 256 * B[q + 1]
                           m == TLCEval(LenAt(B, q + 2, t % 16))
                       IN IF ~m.ok \/ off > Len(o1) THEN BadC
                          ELSE IF off = 0 THEN [st |-> "lax", out |-> <<>>]
                          ELSE LET o2 == TLCEval(CopyBack(o1, off, m.v + 4)) IN
                               IF m.n > Len(B) THEN [st |-> "lax", out |-> o2]   \* ends with a match
                               ELSE Lz4_(B, m.n, o2, Len(o1), Len(o2), lax)
Lz4(B) == TLCEval(Lz4_(B, 1, <<>>, 0, 0, FALSE))
\* a block that must decode to n bytes; a wrong length cannot be excused
Lz4N(B, n) == LET r == Lz4(B) IN
  IF r.st = "ok" /\ Len(r.out) # n THEN BadC ELSE IF r.st = "lax" /\ r.out # <<>> /\ Len(r.out) # n THEN BadC ELSE r

BE(B, p) == IF B[p] >= 64 THEN 2147483647 ELSE ((B[p] * 256 + B[p + 1]) * 256 + B[p + 2]) * 256 + B[p + 3]
RECURSIVE Hadoop_(_, _, _, _)
Hadoop_(B, p, n, out) ==
  IF p > Len(B) THEN (IF Len(out) = n THEN [st |-> "ok", out |-> out] ELSE BadC)
  ELSE IF p + 7 > Len(B) THEN BadC
  ELSE LET d == BE(B, p) c == BE(B, p + 4) IN
       IF c > Len(B) \/ p + 8 + c - 1 > Len(B) \/ d > n THEN BadC
       ELSE LET r == Lz4N(Sub(B, p + 8, c), d) IN
            IF r.st # "ok" THEN r ELSE Hadoop_(B, p + 8 + c, n, TLCEval(out \o r.out))
Hadoop(B, n) == TLCEval(Hadoop_(B, 1, n, <<>>))
\* the legacy codec: framed, else one plain block
Legacy(B, n) == LET h == Hadoop(B, n) IN
  CASE h.st = "ok" -> h
    [] h.st = "bad" -> Lz4N(B, n)
    [] OTHER -> h

\* Snappy: the length, then literals and copies
RECURSIVE Snap_(_, _, _, _)
Snap_(B, p, n, out) ==
  IF p > Len(B) THEN (IF Len(out) = n THEN [st |-> "ok", out |-> out] ELSE BadC)
  ELSE LET t == B[p] k == t % 4 h == t \div 4 IN
       IF k = 0
       THEN LET e == IF h < 60 THEN 0 ELSE h - 59 IN
            IF p + e > Len(B) THEN BadC
            ELSE LET l == IF e = 0 THEN h + 1 ELSE IF e = 4 /\ B[p + 4] >= 64 THEN 2147483646 ELSE NatOf(Sub(B, p + 1, e)) + 1 IN
                 IF l > Len(B) \/ p + e + l > Len(B) THEN BadC
                 ELSE Snap_(B, p + e + l + 1, n, TLCEval(out \o Sub(B, p + e + 1, l)))
       ELSE LET e == IF k = 1 THEN 1 ELSE IF k = 2 THEN 2 ELSE 4 IN
            IF p + e > Len(B) THEN BadC
            ELSE LET l == IF k = 1 THEN (h % 8) + 4 ELSE h + 1
                     off == IF k = 1 THEN (t \div 32) * 256 + B[p + 1] ELSE IF k = 3 /\ B[p + 4] >= 64 THEN 2147483646 ELSE NatOf(Sub(B, p + 1, e))
                 IN IF off = 0 \/ off > Len(out) \/ Len(out) + l > n THEN BadC
                    ELSE Snap_(B, p + e + 1, n, TLCEval(CopyBack(out, off, l)))
UInt_(B) ==
  LET k == UlebEnd(B, 1) IN
  IF k = 0 \/ k > 5 \/ (k = 5 /\ B[5] >= 8) THEN [ok |-> FALSE, n |-> 0, v |-> 0]
  ELSE LET b(j) == IF j <= k THEN B[j] % 128 ELSE 0
       IN [ok |-> TRUE, n |-> k + 1, v |-> b(1) + 128 * b(2) + 16384 * b(3) + 2097152 * b(4) + 268435456 * b(5)]
Snappy(B) == LET u == UInt_(B) IN IF ~u.ok THEN BadC ELSE TLCEval(Snap_(B, u.n, u.v, <<>>))
SnappyN(B, n) == LET r == Snappy(B) IN IF r.st = "ok" /\ Len(r.out) # n THEN BadC ELSE r
=============================================================================
