------------------------------- MODULE Stats -------------------------------
(* Orders of the format's types on plain-encoded values, and what statistics of pages determine of a column chunk.
   Statistics: [min, max, omin, omax: <<>> or <<bytes>>, nc, dc: <<>> or <<number>>]. *)
EXTENDS File

\* "s" signed, "u" unsigned, "?" undefined. The logical type decides, else the converted type, else the physical one.
SortOrder(leaf) ==
  IF leaf.l # <<>>
  THEN CASE leaf.l[1] \in {"STRING", "ENUM", "JSON", "BSON", "UUID"} -> "u"
         [] leaf.l[1] = "INTEGER" -> IF leaf.l[3] THEN "s" ELSE "u"
         [] leaf.l[1] \in {"DECIMAL", "DATE", "TIME", "TIMESTAMP"} -> "s"
         [] OTHER -> "?"
  ELSE IF leaf.c # <<>>
  THEN CASE leaf.c[1] \in {0, 4, 19, 20, 11, 12, 13, 14} -> "u"
         [] leaf.c[1] \in {5, 6, 7, 8, 9, 10, 15, 16, 17, 18} -> "s"
         [] OTHER -> "?"
  ELSE CASE leaf.t \in {1, 2, 4, 5} -> "s"
         [] leaf.t = 3 -> "?"
         [] OTHER -> "u"

IsNaN(leaf, a) ==
  CASE leaf.t = 4 -> a[4] % 128 = 127 /\ a[3] >= 128 /\ (a[3] % 128 # 0 \/ a[2] # 0 \/ a[1] # 0)
    [] leaf.t = 5 -> a[8] % 128 = 127 /\ a[7] \div 16 = 15 /\ (a[7] % 16 # 0 \/ \E k \in 1..6 : a[k] # 0)
    [] OTHER -> FALSE
Unordered(leaf, a) == SortOrder(leaf) = "?" \/ IsNaN(leaf, a)

\* lexicographic order of byte strings, a prefix being smaller
RECURSIVE LexLt(_, _, _)
LexLt(a, b, k) == IF k > Len(b) THEN FALSE ELSE IF k > Len(a) THEN TRUE
                  ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LexLt(a, b, k + 1)
\* big-endian two's complement of any length, little-endian sign-extended to n bytes
FromBE(a, n) == LET l == Reverse(a) IN IF l = <<>> THEN Zeros(n) ELSE SExt(l, n)
\* magnitude of an IEEE value as a number that orders by sign and magnitude; both zeros are equal
IeeeLt(a, b) ==
  LET n == Len(a)
      mag(x) == [x EXCEPT ![n] = x[n] % 128]
      zero(x) == \A k \in 1..n : mag(x)[k] = 0
      neg(x) == x[n] >= 128 /\ ~zero(x)
  IN IF neg(a) /\ neg(b) THEN LtU(mag(b), mag(a))
     ELSE IF neg(a) THEN TRUE ELSE IF neg(b) THEN FALSE ELSE LtU(mag(a), mag(b))
ValLt(leaf, a, b) ==
  CASE leaf.t \in {4, 5} -> IeeeLt(a, b)
    [] leaf.t \in {0, 1, 2} -> IF SortOrder(leaf) = "u" THEN LtU(a, b) ELSE LtS(a, b)
    [] leaf.t \in {6, 7} -> IF SortOrder(leaf) = "u" THEN LexLt(a, b, 1)
                            ELSE LET n == Max2(1, Max2(Len(a), Len(b))) IN LtS(FromBE(a, n), FromBE(b, n))
    [] OTHER -> FALSE

\* every value of the page is null
AllNull(p) == p.st # <<>> /\ p.st[1].nc = <<VI(p.n)>>
\* bound b (<<>> or <<bytes>>) of a chunk given its data pages; get takes a page's bound, lt(x, y): x is more extreme
BoundSound(leaf, b, ps, get(_), lt(_, _)) ==
  LET stated == {get(p.st[1])[1] : p \in {q \in ToSet(ps) : q.st # <<>> /\ get(q.st[1]) # <<>>}}
      known == \A p \in ToSet(ps) : p.st # <<>> /\ (AllNull(p) \/ get(p.st[1]) # <<>>)
  IN IF b = <<>>
     THEN ~known \/ stated = {} \/ \E v \in stated : Unordered(leaf, v)
     ELSE /\ known
          /\ b[1] \in stated
          /\ (\E v \in stated : Unordered(leaf, v)) \/ \A v \in stated : ~lt(v, b[1])
NullsSound(nc, ps) ==
  IF ps # <<>> /\ \A p \in ToSet(ps) : p.st # <<>> /\ p.st[1].nc # <<>>
  THEN nc = <<VI(SumOf(ps, LAMBDA p : p.st[1].nc[1].i))>> ELSE nc = <<>>
DistinctSound(dc, ps) == dc = <<>> \/ (Len(ps) = 1 /\ ps[1].st # <<>> /\ dc = ps[1].st[1].dc)

\* statistics of a chunk (a parsed structure, or <<>>) against its data pages
ChunkStatsOk(leaf, s, ps) ==
  LET b(id) == IF s = <<>> THEN <<>> ELSE IF Has(s[1], id) THEN <<s[1].f[id].s>> ELSE <<>>
      k(id) == IF s = <<>> THEN <<>> ELSE Fld(s[1], id)
  IN /\ Chk("minimum", BoundSound(leaf, b(6), ps, LAMBDA x : x.min, LAMBDA x, y : ValLt(leaf, x, y)))
     /\ Chk("maximum", BoundSound(leaf, b(5), ps, LAMBDA x : x.max, LAMBDA x, y : ValLt(leaf, y, x)))
     /\ Chk("null count", NullsSound(k(3), ps))
     /\ Chk("distinct count", DistinctSound(k(4), ps))
     /\ Chk("deprecated bounds", b(1) = <<>> /\ b(2) = <<>>)

\* decoding statistics
Decoded(leaf, st) == [t |-> leaf.t, len |-> leaf.len, min |-> st.min, max |-> st.max, nc |-> st.nc, dc |-> st.dc, nc2 |-> st.nc]
Encoded(leaf, st) == [st EXCEPT !.omin = <<>>, !.omax = <<>>]
=============================================================================
