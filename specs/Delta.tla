------------------------------- MODULE Delta -------------------------------
(* Variable-length and zig-zag integers, delta bit-packed integers, delta-length and delta (prefix) byte arrays, and plain
   byte arrays. 64-bit integers are 8 bytes; arithmetic is modulo 2^64. A decoding is [ok, vals, n]: the values up to the first
   defect, whether there was none, and the position after the last byte used. *)
EXTENDS Thrift

\* an integer below 2^31 as 8 bytes
Int8(x) == LE(x, 8)
HeaderOk(bs, nm) == bs > 0 /\ bs % 128 = 0 /\ nm > 0 /\ bs % nm = 0 /\ (bs \div nm) % 32 = 0
\* [ok, n, bs, nm, count, first]: block size, miniblocks per block, number of values, first value
NoHeader == [ok |-> FALSE, odd |-> FALSE, n |-> 0]
\* no number there: not terminated, or (nothing is required of it) beyond 2^31
NoUInt(B, p) == [NoHeader EXCEPT !.odd = UlebEnd(B, p) > 0]
DeltaHeader(B, p) ==
  LET a == UInt(B, p) IN
  IF ~a.ok THEN NoUInt(B, p)
  ELSE LET b == UInt(B, a.n) IN
       IF ~b.ok THEN NoUInt(B, a.n)
       ELSE LET c == UInt(B, b.n) IN
            IF ~c.ok THEN NoUInt(B, b.n)
            ELSE LET k == UlebEnd(B, c.n) IN
                 IF k = 0 \/ ~UlebFits64(B, c.n, k) THEN NoHeader
                 ELSE IF ~HeaderOk(a.v, b.v) THEN [NoHeader EXCEPT !.odd = TRUE]
                 ELSE [ok |-> TRUE, odd |-> FALSE, n |-> c.n + k, bs |-> a.v, nm |-> b.v, count |-> c.v, first |-> UnZigZag64(TLCEval(UlebVal64(B, c.n, k)))]
\* miniblocks: w bits for each of cnt deltas above min, in vpm slots
MiniSize(vpm, w) == (vpm * w) \div 8
MiniVals(B, p, w, cnt, min, prev) ==
  FoldLeft(LAMBDA a, k :
      LET off == (k - 1) * w
      IN Append(a, Add64(IF a = <<>> THEN prev ELSE a[Len(a)], Add64(min, Field64(B, p + off \div 8, off % 8, w)))),
    <<>>, [k \in 1..cnt |-> k])
RECURSIVE MinisAt(_, _, _, _, _, _, _, _)
\* widths at B[ws..], bodies from p, left deltas to read in this block
MinisAt(B, ws, p, vpm, left, min, prev, acc) ==
  IF left = 0 THEN [ok |-> TRUE, vals |-> acc, n |-> p]
  ELSE LET w == B[ws]
           c == Min2(left, vpm)
       IN IF w > 64 THEN [ok |-> FALSE, vals |-> acc, n |-> p]
          ELSE IF p + MiniSize(vpm, w) - 1 > Len(B) THEN [ok |-> FALSE, vals |-> acc, n |-> p]
          ELSE LET vs == TLCEval(MiniVals(B, p, w, c, min, prev)) IN
               MinisAt(B, ws + 1, p + MiniSize(vpm, w), vpm, left - c, min, TLCEval(vs[c]), TLCEval(acc \o vs))
RECURSIVE BlocksAt(_, _, _, _, _)
BlocksAt(B, p, h, left, acc) ==
  IF left <= 0 THEN [ok |-> TRUE, vals |-> acc, n |-> p]
  ELSE LET k == UlebEnd(B, p) IN
       IF k = 0 \/ ~UlebFits64(B, p, k) THEN [ok |-> FALSE, vals |-> acc, n |-> p]
       ELSE IF p + k + h.nm - 1 > Len(B) THEN [ok |-> FALSE, vals |-> acc, n |-> p]
       ELSE LET q == TLCEval(MinisAt(B, p + k, p + k + h.nm, h.bs \div h.nm, TLCEval(Min2(left, h.bs)), TLCEval(UnZigZag64(TLCEval(UlebVal64(B, p, k)))), TLCEval(acc[Len(acc)]), <<>>))
            IN IF ~q.ok THEN [ok |-> FALSE, vals |-> acc \o q.vals, n |-> q.n]
               ELSE BlocksAt(B, q.n, h, left - h.bs, TLCEval(acc \o q.vals))
DeltaAt(B, p) ==
  LET h == TLCEval(DeltaHeader(B, p)) IN
  IF ~h.ok THEN [ok |-> FALSE, vals |-> <<>>, n |-> p]
  ELSE IF h.count = 0 THEN [ok |-> TRUE, vals |-> <<>>, n |-> h.n]
  ELSE BlocksAt(B, h.n, h, h.count - 1, TLCEval(<<h.first>>))

\* lengths as integers; those that are not lengths of anything are -1
AsLength(v) == IF v[4] < 128 /\ \A k \in 5..8 : v[k] = 0 THEN NatOf(SubSeq(v, 1, 4)) ELSE -1
Lengths(vals) == [k \in 1..Len(vals) |-> AsLength(vals[k])]
Total(ls) == FoldLeft(LAMBDA a, x : a + x, 0, ls)
RECURSIVE Slices(_, _, _, _)
Slices(B, p, ls, acc) == IF ls = <<>> THEN acc ELSE Slices(B, p + ls[1], Tail(ls), Append(acc, SubSeq(B, p, p + ls[1] - 1)))
\* delta-length byte arrays
DeltaLengthAt(B, p) ==
  LET d == TLCEval(DeltaAt(B, p)) ls == Lengths(d.vals) IN
  IF ~d.ok THEN [ok |-> FALSE]
  ELSE IF (\E k \in 1..Len(ls) : ls[k] < 0 \/ ls[k] > Len(B)) THEN [ok |-> FALSE]
  ELSE IF d.n + Total(ls) - 1 > Len(B) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, lens |-> ls, items |-> Slices(B, d.n, ls, <<>>), n |-> d.n + Total(ls)]
\* each item is a prefix of the previous one and a suffix
DeltaBytesAt(B, p) ==
  LET d == TLCEval(DeltaAt(B, p)) ls == Lengths(d.vals) IN
  IF ~d.ok THEN [ok |-> FALSE]
  ELSE LET s == TLCEval(DeltaLengthAt(B, d.n)) IN
       IF ~s.ok THEN [ok |-> FALSE]
       ELSE IF Len(s.items) # Len(ls) THEN [ok |-> FALSE]
       ELSE LET step(a, k) == IF ~a.ok THEN a
                              ELSE LET prev == IF a.items = <<>> THEN <<>> ELSE a.items[Len(a.items)]
                                   IN IF ls[k] < 0 \/ ls[k] > Len(prev) THEN [a EXCEPT !.ok = FALSE]
                                      ELSE [a EXCEPT !.items = Append(@, SubSeq(prev, 1, ls[k]) \o s.items[k])]
                r == FoldLeft(step, [ok |-> TRUE, items |-> <<>>], [k \in 1..Len(ls) |-> k])
            IN IF r.ok THEN [ok |-> TRUE, prefixes |-> ls, suffixes |-> s.lens, items |-> r.items, n |-> s.n] ELSE [ok |-> FALSE]
\* plain: 4 bytes of length before each item; up to the first defect
RECURSIVE PlainAt(_, _, _)
PlainAt(B, p, acc) ==
  IF p > Len(B) THEN [ok |-> TRUE, items |-> acc]
  ELSE IF p + 3 > Len(B) \/ (p + 3 <= Len(B) /\ B[p + 3] >= 128) THEN [ok |-> FALSE, items |-> acc]
  ELSE LET l == NatOf(SubSeq(B, p, p + 3)) IN
       IF l > Len(B) \/ (l <= Len(B) /\ p + 4 + l - 1 > Len(B)) THEN [ok |-> FALSE, items |-> acc]
       ELSE PlainAt(B, p + 4 + l, Append(acc, SubSeq(B, p + 4, p + 4 + l - 1)))
=============================================================================
