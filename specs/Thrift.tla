------------------------------- MODULE Thrift -------------------------------
(* The compact protocol the format stores its structures in, as a parser from bytes to values. A value is a record
   with one field telling its kind: [i |-> Int], [big |-> 8 bytes] for integers beyond TLC's range, [b |-> BOOLEAN],
   [s |-> bytes], [l |-> sequence of values], [f |-> function from field ids to values], [d |-> 8 bytes]. A parse
   result is [ok, n, v]: whether there is a value at the position, the position after it, and the value. *)
EXTENDS Bytes

Bad == [ok |-> FALSE, n |-> 0, v |-> [i |-> 0]]
Good(n, v) == [ok |-> TRUE, n |-> n, v |-> v]

VI(x) == [i |-> x]
VB(x) == [b |-> x]
VS(x) == [s |-> x]
VL(x) == [l |-> x]
VF(x) == [f |-> x]

\* an unsigned varint below 2^31
UInt(B, p) ==
  LET k == UlebEnd(B, p) IN
  IF k = 0 \/ k > 5 \/ (k = 5 /\ B[p + 4] >= 8) THEN [ok |-> FALSE, n |-> 0, v |-> 0]
  ELSE LET b(j) == IF j <= k THEN B[p + j - 1] % 128 ELSE 0
       IN [ok |-> TRUE, n |-> p + k,
           v |-> b(1) + 128 * b(2) + 16384 * b(3) + 2097152 * b(4) + 268435456 * b(5)]
\* a zig-zag varint: Int when it fits 32 bits
SInt(B, p) ==
  LET k == UlebEnd(B, p) IN
  IF k = 0 \/ ~UlebFits64(B, p, k) THEN Bad
  ELSE IF k < 5 \/ (k = 5 /\ B[p + 4] < 16)
       THEN LET b(j) == IF j <= k THEN B[p + j - 1] % 128 ELSE 0
                h == b(1) \div 2 + 64 * b(2) + 8192 * b(3) + 1048576 * b(4) + 134217728 * b(5)
            IN Good(p + k, VI(IF B[p] % 2 = 0 THEN h ELSE -h - 1))
       ELSE LET u == TLCEval(UlebVal64(B, p, k)) IN
            IF u[5] = 0 /\ u[6] = 0 /\ u[7] = 0 /\ u[8] = 0   \* a small number in more bytes than it needs
            THEN LET h == u[1] \div 2 + 128 * u[2] + 32768 * u[3] + 8388608 * u[4]
                 IN Good(p + k, VI(IF u[1] % 2 = 0 THEN h ELSE -h - 1))
            ELSE Good(p + k, [big |-> UnZigZag64(u)])

RECURSIVE StructAt(_, _, _, _), ListOf(_, _, _, _, _)
ValueAt(B, p, ct) ==
  CASE ct = 1 -> Good(p, VB(TRUE))
    [] ct = 2 -> Good(p, VB(FALSE))
    [] ct = 3 -> IF p > Len(B) THEN Bad ELSE Good(p + 1, VI(IF B[p] < 128 THEN B[p] ELSE B[p] - 256))
    [] ct \in {4, 5, 6} -> SInt(B, p)
    [] ct = 7 -> IF p + 7 > Len(B) THEN Bad ELSE Good(p + 8, [d |-> SubSeq(B, p, p + 7)])
    [] ct = 8 -> LET l == UInt(B, p) IN
                 IF ~l.ok \/ l.v > Len(B) \/ l.n + l.v - 1 > Len(B) THEN Bad
                 ELSE Good(l.n + l.v, VS(SubSeq(B, l.n, l.n + l.v - 1)))
    [] ct \in {9, 10} ->
         IF p > Len(B) THEN Bad
         ELSE LET h == B[p]
                  l == IF h \div 16 = 15 THEN UInt(B, p + 1) ELSE [ok |-> TRUE, n |-> p + 1, v |-> h \div 16]
              IN IF ~l.ok \/ l.v > Len(B) THEN Bad ELSE ListOf(B, l.n, h % 16, l.v, <<>>)
    [] ct = 12 -> StructAt(B, p, 0, <<>>)
    [] OTHER -> Bad
\* list elements of type bool take a byte each
ListOf(B, p, ct, k, acc) ==
  IF k = 0 THEN Good(p, VL(acc))
  ELSE LET r == TLCEval(IF ct \in {1, 2} THEN (IF p > Len(B) THEN Bad ELSE Good(p + 1, VB(B[p] = 1))) ELSE ValueAt(B, p, ct))
       IN IF ~r.ok THEN Bad ELSE ListOf(B, r.n, ct, k - 1, Append(acc, r.v))
StructAt(B, p, last, acc) ==
  IF p > Len(B) THEN Bad
  ELSE IF B[p] = 0 THEN Good(p + 1, VF(acc))
  ELSE LET ct == B[p] % 16
           dl == B[p] \div 16
           hd == TLCEval(IF dl = 0 THEN SInt(B, p + 1) ELSE Good(p + 1, VI(last + dl)))
       IN IF ~hd.ok \/ "i" \notin DOMAIN hd.v THEN Bad
          ELSE LET r == TLCEval(ValueAt(B, hd.n, ct))
               IN IF ~r.ok THEN Bad ELSE StructAt(B, r.n, hd.v.i, TLCEval((hd.v.i :> r.v) @@ acc))

Struct(B, p) == TLCEval(StructAt(B, p, 0, <<>>))

\* field access; Fld gives <<>> or <<value>>
Has(v, id) == "f" \in DOMAIN v /\ id \in DOMAIN v.f
Fld(v, id) == IF Has(v, id) THEN <<v.f[id]>> ELSE <<>>
Is(v, id, x) == Has(v, id) /\ v.f[id] = x
IntF(v, id) == IF Has(v, id) /\ "i" \in DOMAIN v.f[id] THEN v.f[id].i ELSE -999999999
ListF(v, id) == IF Has(v, id) /\ "l" \in DOMAIN v.f[id] THEN v.f[id].l ELSE <<>>
HasList(v, id) == Has(v, id) /\ "l" \in DOMAIN v.f[id]
OptInt(v, id) == IF Has(v, id) THEN <<IntF(v, id)>> ELSE <<>>

\* building expected structures: optional fields
Opt(id, o, mk(_)) == IF Len(o) = 0 THEN <<>> ELSE id :> mk(o[1])
RECURSIVE Merge(_)
Merge(fs) == IF fs = <<>> THEN <<>> ELSE fs[1] @@ Merge(Tail(fs))
Str(fs) == VF(TLCEval(Merge(fs)))
\* a number of a case: an Int, or 8 bytes
Num(x) == VI(x)
=============================================================================
