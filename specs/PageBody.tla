------------------------------ MODULE PageBody ------------------------------
(* The body of a data page: repetition levels, definition levels, values. In a v1 page each kind of level that the column has is
   preceded by its length in 4 bytes; in a v2 page the lengths are in the header and both sections are there, possibly empty.
   A page is a record: v2, maxrep, maxdef, opt (the leaf itself is optional), n (values, nulls included), body, rlen, dlen, enc, ty,
   size (of a fixed-length type), dict (<<>> or <<items>>), sel (<<>> or row intervals). *)
EXTENDS Validity, Delta

NoSplit == [ok |-> FALSE]
\* a section with its length before it: [ok, s, at]
Section(B, at, has) ==
  IF ~has THEN [ok |-> TRUE, s |-> <<>>, at |-> at]
  ELSE IF at + 3 > Len(B) THEN NoSplit
  ELSE IF B[at + 3] >= 128 THEN NoSplit
  ELSE LET l == NatOf(SubSeq(B, at, at + 3)) IN
       IF l > Len(B) - (at + 3) THEN NoSplit ELSE [ok |-> TRUE, s |-> SubSeq(B, at + 4, at + 3 + l), at |-> at + 4 + l]
SplitV1(B, rep, def) ==
  LET r == Section(B, 1, rep) IN
  IF ~r.ok THEN NoSplit
  ELSE LET d == Section(B, r.at, def) IN
       IF ~d.ok THEN NoSplit ELSE [ok |-> TRUE, rep |-> r.s, def |-> d.s, vals |-> SubSeq(B, d.at, Len(B))]
SplitV2(B, rl, dl) ==
  IF rl < 0 \/ dl < 0 \/ rl > Len(B) THEN NoSplit
  ELSE IF dl > Len(B) - rl THEN NoSplit
  ELSE [ok |-> TRUE, rep |-> SubSeq(B, 1, rl), def |-> SubSeq(B, rl + 1, rl + dl), vals |-> SubSeq(B, rl + dl + 1, Len(B))]
SplitBody(p) == IF p.v2 THEN SplitV2(p.body, p.rlen, p.dlen) ELSE SplitV1(p.body, p.maxrep > 0, p.maxdef > 0)

RECURSIVE Width(_)
Width(max) == IF max = 0 THEN 0 ELSE 1 + Width(max \div 2)
\* the n levels of a section; too few, or a defect: ok is FALSE
LevelsOf(s, max, n) ==
  IF max = 0 THEN [ok |-> TRUE, l |-> [k \in 1..n |-> 0]]
  ELSE LET runs == TLCEval(RunsOf(s, Width(max)))
           held == FoldLeft(LAMBDA a, r : Min2(n, a + (IF r.k = "bp" THEN (Len(r.b) * 8) \div Width(max) ELSE r.n)), 0, SubSeq(runs, 1, Len(runs) - 1))
       IN IF held < n THEN [ok |-> FALSE]
          ELSE LET vs == TLCEval(DenoteRuns(runs, Width(max), n))
               IN [ok |-> TRUE, l |-> TLCEval([k \in 1..n |-> vs[k][1] + 256 * vs[k][2]])]
\* items of w bytes
Chunked(s, w) == [k \in 1..(Len(s) \div w) |-> SubSeq(s, (k - 1) * w + 1, k * w)]
Sizes == [i32 |-> 4, f32 |-> 4, i64 |-> 8, f64 |-> 8, i96 |-> 12]
IsDict(p) == p.enc \in {"dict", "rle_dict"}
\* the values of a section, m of them needed: "ok" with the values, "err" when a length does not fit, "odd" when nothing is required
ValuesOf(p, s, m) ==
  IF IsDict(p)
  THEN IF p.ty = "bool" \/ p.dict = <<>> THEN [k |-> "err"]
       ELSE IF s = <<>> THEN [k |-> "err"]
       ELSE IF s[1] > 32 THEN [k |-> "err"]
       ELSE LET runs == TLCEval(RunsOf(Tail(s), s[1]))
                held == FoldLeft(LAMBDA a, r : Min2(m, a + (IF r.k = "bp" THEN (Len(r.b) * 8) \div s[1] ELSE r.n)), 0, SubSeq(runs, 1, Len(runs) - 1))
                ix == TLCEval(DenoteRuns(runs, s[1], m))
            IN IF s[1] > 0 /\ (held < m \/ runs[Len(runs)].k = "err") THEN [k |-> "odd"]
               ELSE IF \E j \in 1..m : ix[j][4] > 0 \/ ix[j][3] > 0 \/ ix[j][1] + 256 * ix[j][2] >= Len(p.dict[1]) THEN [k |-> "odd"]
               ELSE [k |-> "ok", v |-> [j \in 1..m |-> p.dict[1][ix[j][1] + 256 * ix[j][2] + 1]]]
  ELSE IF p.enc # "plain" THEN [k |-> "err"]
  ELSE CASE p.ty = "bool" -> IF Len(s) * 8 < m THEN [k |-> "odd"] ELSE [k |-> "ok", v |-> [j \in 1..m |-> <<BitAt(s, j - 1)>>]]
         [] p.ty = "binary" -> LET q == TLCEval(PlainAt(s, 1, <<>>)) IN
                               IF Len(q.items) >= m THEN (IF q.ok /\ Len(q.items) = m THEN [k |-> "ok", v |-> q.items] ELSE [k |-> "odd"])
                               ELSE IF q.ok THEN [k |-> "odd"] ELSE [k |-> "err"]
         [] OTHER -> LET w == IF p.ty = "fixed" THEN p.size ELSE Sizes[p.ty] IN
                     IF w = 0 THEN [k |-> "err"]
                     ELSE IF Len(s) % w # 0 THEN [k |-> "err"]
                     ELSE IF Len(s) \div w # m THEN [k |-> "odd"] ELSE [k |-> "ok", v |-> Chunked(s, w)]
\* rows of a flat page: <<value>> or <<>>. rows: "ok" (and rows), "err", "odd"
RowsOf(p) ==
  LET s == TLCEval(SplitBody(p)) IN
  IF ~s.ok THEN [k |-> "err"]
  ELSE LET d == TLCEval(IF p.opt THEN LevelsOf(s.def, p.maxdef, p.n) ELSE [ok |-> TRUE, l |-> [j \in 1..p.n |-> p.maxdef]]) IN
       IF ~d.ok
       THEN (IF IsDict(p) /\ (p.ty = "bool" \/ p.dict = <<>>) THEN [k |-> "err"] ELSE [k |-> "odd"])
       ELSE LET valid == TLCEval([j \in 1..p.n |-> IF d.l[j] = p.maxdef THEN 1 ELSE 0])
                m == CountSet(valid, 0, p.n)
                v == TLCEval(ValuesOf(p, s.vals, m))
                pre == TLCEval(Pre(valid))
            IN IF v.k # "ok" THEN [k |-> v.k]
               ELSE [k |-> "ok", rows |-> [j \in 1..p.n |-> IF valid[j] = 1 THEN <<v.v[pre[j] + 1]>> ELSE <<>>]]

(* pages of very many rows, without defect: the rows at positions *)
\* pieces <<1 or 0: the level is the maximum, from, to>> of n levels
LevelPieces(s, max, n) ==
  LET groups(r) == IF r.k = "bp" THEN LET u == DenoteRuns(<<r>>, Width(max), (Len(r.b) * 8) \div Width(max)) IN [k \in 1..Len(u) |-> <<u[k], 1>>]
                   ELSE IF r.k = "rle" THEN <<<<PadTo(r.b, 4), r.n>>>> ELSE <<>>
      isMax(v) == IF v[1] + 256 * v[2] = max THEN 1 ELSE 0
      runs == TLCEval(RunsOf(s, Width(max)))
  IN IF max = 0 THEN <<<<1, 0, n>>>> ELSE FoldLeft(LAMBDA a, r : IF a # <<>> /\ a[Len(a)][3] = n THEN a
                                            ELSE FoldLeft(LAMBDA b, g : AddPiece(b, <<isMax(g[1]), g[2]>>, n), a, TLCEval(groups(r))), <<>>, runs)
LevelAt(runs, max, k) == IF max = 0 THEN 0 ELSE LET v == ValueAt(runs, Width(max), k) IN v[1] + 256 * v[2]
\* value j (from 0) of the section
ValueOf(p, s, runs, j) ==
  IF IsDict(p) THEN LET v == IF s[1] = 0 THEN <<0, 0>> ELSE ValueAt(runs, s[1], j) IN p.dict[1][v[1] + 256 * v[2] + 1]
  ELSE IF p.ty = "bool" THEN <<BitAt(s, j)>>
  ELSE LET w == IF p.ty = "fixed" THEN p.size ELSE Sizes[p.ty] IN SubSeq(s, j * w + 1, (j + 1) * w)
RowsAt(p, s, at) ==
  LET ps == TLCEval(IF p.opt THEN LevelPieces(s.def, p.maxdef, p.n) ELSE <<<<1, 0, p.n>>>>)
      runs == TLCEval(IF IsDict(p) /\ s.vals[1] > 0 THEN RunsOf(Tail(s.vals), s.vals[1]) ELSE <<>>)
  IN [i \in 1..Len(at) |-> IF ValidAt(ps, at[i]) = 1 THEN <<ValueOf(p, s.vals, runs, Below(ps, at[i]))>> ELSE <<>>]
=============================================================================
