------------------------------- MODULE Native -------------------------------
(* Values of the native types as their little-endian bytes: order and, of a 96-bit time stamp (8 bytes of nanoseconds, 4 of the
   Julian day), the instant. *)
EXTENDS Stats

\* two's complement of n bytes; an unsigned number in n bytes
SExtTo(a, n) == [k \in 1..n |-> IF k <= Len(a) THEN a[k] ELSE IF IsNeg(a) THEN 255 ELSE 0]
Plus_(a, b) == TLCEval(AddB(a, b, 0))
\* nanoseconds in a day: the bits of 86400 000 000 000, highest first
DayFactor == <<1, 0, 0, 1, 1, 1, 0, 1, 0, 0, 1, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
TimesDay(d) == LET f(acc, b) == LET t == Plus_(acc, acc) IN IF b = 1 THEN Plus_(t, d) ELSE t
                   m == FoldLeft(f, Zeros(Len(d)), DayFactor)
               IN m
Day0 == <<140, 61, 37, 0>>   \* 1970-01-01 is Julian day 2440588
\* nanoseconds since 1970, in 16 bytes
Instant(a) ==
  LET day == PadTo(SubSeq(a, 9, 12), 16)
      since == TLCEval(AddB(day, NotB(PadTo(Day0, 16)), 1))
  IN Plus_(TimesDay(since), PadTo(SubSeq(a, 1, 8), 16))
\* those a 64-bit number can hold
Holds64(x) == \A k \in 9..16 : x[k] = (IF x[8] >= 128 THEN 255 ELSE 0)

TypeCode == [i32 |-> 1, i64 |-> 2, f32 |-> 4, f64 |-> 5, binary |-> 6]
Lt(ty, a, b) == IF ty = "i96" THEN LtS(Instant(a), Instant(b)) ELSE ValLt([t |-> TypeCode[ty], c |-> <<>>, l |-> <<>>], a, b)
Ord(ty, a, b) == IF Lt(ty, a, b) THEN -1 ELSE IF Lt(ty, b, a) THEN 1 ELSE 0
NoOrder(ty, a) == ty \in {"f32", "f64"} /\ IsNaN([t |-> TypeCode[ty]], a)

RECURSIVE BitsFor(_)
BitsFor(n) == IF n = 0 THEN 0 ELSE 1 + BitsFor(n \div 2)
=============================================================================
