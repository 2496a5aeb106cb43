------------------------------- MODULE Hybrid -------------------------------
(* The RLE / bit-packing hybrid encoding: what a byte string denotes, run by run and value by value. Values are
   4-byte strings. Counts above Cap are treated as Cap (no check asks for that many values). *)
EXTENDS Bytes

Cap == 1073741823
\* the count in an indicator (indicator >> 1), given as an 8-byte string
Count(u) == IF u[4] >= 128 \/ \E k \in 5..8 : u[k] # 0 THEN Cap ELSE NatOf(SubSeq(u, 1, 4)) \div 2
TimesCap(a, b) == IF a > Cap \div (IF b = 0 THEN 1 ELSE b) THEN Cap ELSE a * b

\* the run at byte position at (1-based) of s: kind "end", "err", "bp" (bytes) or "rle" (bytes, count); next position
RunAt(s, at, w) ==
  LET n == UlebEnd(s, at)
  IN IF w = 0 \/ at > Len(s) THEN [k |-> "end", b |-> <<>>, n |-> 0, nx |-> at]
     ELSE IF n = 0 \/ ~UlebFits64(s, at, n) THEN [k |-> "err", b |-> <<>>, n |-> 0, nx |-> at]
     ELSE LET u == UlebVal64(s, at, n)
              p == at + n
              left == Len(s) - p + 1
          IN IF left <= 0 THEN [k |-> "end", b |-> <<>>, n |-> 0, nx |-> p]
             ELSE IF u[1] % 2 = 1
             THEN LET len == Min2(TimesCap(Count(u), w), left)
                  IN [k |-> "bp", b |-> Sub(s, p, len), n |-> 0, nx |-> p + len]
             ELSE LET len == CeilDiv(w, 8)
                  IN IF left < len THEN [k |-> "err", b |-> <<>>, n |-> 0, nx |-> p]
                     ELSE [k |-> "rle", b |-> Sub(s, p, len), n |-> Count(u), nx |-> p + len]

\* all runs of s; the last element is "end" or "err"
RECURSIVE RunsFrom(_, _, _)
RunsFrom(s, at, w) == LET r == RunAt(s, at, w)
                      IN IF r.k \in {"end", "err"} THEN <<r>> ELSE <<r>> \o RunsFrom(s, r.nx, w)
RunsOf(s, w) == RunsFrom(s, 1, w)

\* values of one run, at most m of them
RunValues(r, w, m) ==
  IF r.k = "bp" THEN Unpack(r.b, w, Min2((Len(r.b) * 8) \div w, m), 4)
  ELSE LET v == PadTo(r.b, 4) IN [j \in 1..Min2(r.n, m) |-> v]

\* n values denoted by a run list; <<>> as last element marks an error at that place. Missing values are 0.
DenoteRuns(runs, w, n) ==
  LET f(acc, r) == IF acc.stop THEN acc
                   ELSE IF Len(acc.v) >= n THEN [acc EXCEPT !.stop = TRUE]
                   ELSE IF r.k = "err" THEN [v |-> Append(acc.v, <<>>), stop |-> TRUE]
                   ELSE IF r.k = "end"
                   THEN [v |-> acc.v \o [j \in 1..(n - Len(acc.v)) |-> Zeros(4)], stop |-> TRUE]
                   ELSE [acc EXCEPT !.v = @ \o RunValues(r, w, n - Len(@))]
  IN FoldLeft(f, [v |-> <<>>, stop |-> FALSE], runs).v
\* value j (from 0) of a run list without errors, without listing the others
HeldBy(r, w) == IF r.k = "bp" THEN (Len(r.b) * 8) \div w ELSE IF r.k = "rle" THEN r.n ELSE 0
ValueAt(runs, w, j) ==
  LET f(acc, r) == IF acc.v # <<>> THEN acc
                   ELSE IF acc.j >= HeldBy(r, w) THEN [acc EXCEPT !.j = @ - HeldBy(r, w)]
                   ELSE [acc EXCEPT !.v = IF r.k = "bp" THEN Packed(r.b, w, acc.j, 4) ELSE PadTo(r.b, 4)]
      x == FoldLeft(f, [v |-> <<>>, j |-> j], runs).v
  IN IF x = <<>> THEN Zeros(4) ELSE x
Decode(s, w, n) == DenoteRuns(RunsOf(s, w), w, n)

------------------------------------------------------------------------------
(* Encoder of abstract run lists: [k |-> "rle", v |-> 4 bytes, n |-> count] and [k |-> "bp", vs |-> values, g |-> groups]
   where the run declares g groups of 8 and holds the bytes of vs (fewer than 8*g values only if it is the last) *)
EncRun(r, w) == IF r.k = "rle" THEN Uleb(2 * r.n) \o SubSeq(r.v, 1, CeilDiv(w, 8))
                ELSE Uleb(2 * r.g + 1) \o Pack(r.vs, w)
EncRuns(rs, w) == Concat([j \in 1..Len(rs) |-> EncRun(rs[j], w)])
\* values an abstract run list denotes, n of them
Meaning(rs, n) ==
  LET all == Concat([j \in 1..Len(rs) |-> IF rs[j].k = "rle" THEN [x \in 1..rs[j].n |-> rs[j].v] ELSE rs[j].vs])
  IN [j \in 1..n |-> IF j <= Len(all) THEN all[j] ELSE Zeros(4)]
=============================================================================
