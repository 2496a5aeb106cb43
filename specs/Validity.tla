------------------------------ MODULE Validity ------------------------------
(* Validity of rows: the bits a list of runs of width 1 denotes, one per row, and what selecting row intervals (start, length;
   ascending, disjoint, possibly touching or empty) gives: the selected rows in order, each with the number of non-null rows
   lying between it and the selected row before it. *)
EXTENDS Hybrid, Iter, TLCExt

RowsIn(ivs) == FoldLeft(LAMBDA a, q : a + q[2], 0, ivs)
\* positions (from 0) selected, in order
Positions(ivs) == FoldLeft(LAMBDA a, q : a \o [k \in 1..q[2] |-> q[1] + k - 1], <<>>, ivs)
CountSet(bits, from, to) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(bits, from + 1, to))
\* element j + 1: non-null rows among the first j
Pre(bits) == FoldLeft(LAMBDA a, b : Append(a, a[Len(a)] + b), <<0>>, bits)
Selected(bits, ivs) ==
  LET ps == TLCEval(Positions(ivs))
      pre == TLCEval(Pre(bits))
  IN [k \in 1..Len(ps) |-> <<bits[ps[k] + 1], pre[ps[k] + 1] - (IF k = 1 THEN 0 ELSE pre[ps[k - 1] + 2])>>]
\* each valid row takes the next value (values are 0, 1, ...); a null (-1) takes none
Paired(bits) == LET pre == TLCEval(Pre(bits)) IN [k \in 1..Len(bits) |-> IF bits[k] = 1 THEN pre[k] ELSE -1]
(* the same of rows too many to list: pieces <<bit, from, to>> of equal rows *)
Grow(a, b, n) == IF a # <<>> /\ a[Len(a)][1] = b THEN [a EXCEPT ![Len(a)][2] = @ + n] ELSE Append(a, <<b, n>>)
Grouped(bytes) == FoldLeft(LAMBDA a, x : IF x = 0 THEN Grow(a, 0, 8) ELSE IF x = 255 THEN Grow(a, 1, 8)
                                         ELSE FoldLeft(LAMBDA c, k : Grow(c, (x \div (2 ^ k)) % 2, 1), a, <<0, 1, 2, 3, 4, 5, 6, 7>>), <<>>, bytes)
\* g: <<bit, count>>
AddPiece(a, g, n) == LET at == IF a = <<>> THEN 0 ELSE a[Len(a)][3]
                         to == IF g[2] > n - at THEN n ELSE at + g[2]
                     IN IF to = at THEN a
                        ELSE IF a # <<>> /\ a[Len(a)][1] = g[1] THEN [a EXCEPT ![Len(a)][3] = to]
                        ELSE Append(a, <<g[1], at, to>>)
PiecesOf(runs, n) ==
  LET groups(r) == IF r.k = "bp" THEN Grouped(r.b) ELSE IF r.k = "rle" THEN <<<<r.b[1], r.n>>>> ELSE <<>>
  IN FoldLeft(LAMBDA a, g : AddPiece(a, g, n), <<>>, FoldLeft(LAMBDA a, r : a \o groups(r), <<>>, runs))
\* non-null rows among the first j
Below(ps, j) == FoldLeft(LAMBDA a, p : a + (IF p[1] = 0 \/ p[2] >= j THEN 0 ELSE (IF p[3] < j THEN p[3] ELSE j) - p[2]), 0, ps)
ValidAt(ps, k) == LET S == {i \in 1..Len(ps) : ps[i][2] <= k /\ k < ps[i][3]} IN ps[CHOOSE i \in S : TRUE][1]
PairAt(ps, k) == IF ValidAt(ps, k) = 1 THEN Below(ps, k) ELSE -1
PositionAt(ivs, k) == FoldLeft(LAMBDA a, q : IF a.at >= 0 THEN a ELSE IF a.k < q[2] THEN [at |-> q[1] + a.k, k |-> 0] ELSE [at |-> -1, k |-> a.k - q[2]],
                               [at |-> -1, k |-> k], ivs).at
\* the selected rows: <<bit, non-null rows since the selected row before, how many such rows follow one another>>
SelectedPieces(ps, ivs) ==
  LET Cut(a, q, p) == LET f == IF p[2] < q[1] THEN q[1] ELSE p[2]
                          t == IF p[3] > q[1] + q[2] THEN q[1] + q[2] ELSE p[3]
                          gap == Below(ps, f) - Below(ps, a.end)
                      IN IF f >= t THEN a
                         ELSE IF a.out # <<>> /\ a.out[Len(a.out)][1] = p[1] /\ gap = 0
                         THEN [out |-> [a.out EXCEPT ![Len(a.out)][3] = @ + (t - f)], end |-> t]
                         ELSE [out |-> Append(a.out, <<p[1], gap, t - f>>), end |-> t]
  IN FoldLeft(LAMBDA a, q : FoldLeft(LAMBDA b, p : TLCEval(Cut(b, q, p)), a, ps), [out |-> <<>>, end |-> 0], ivs).out
=============================================================================
