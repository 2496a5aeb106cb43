------------------------------- MODULE Select -------------------------------
(* Row selection through the page index. Pages are given by the row each starts at; rows are numbered from 0 in the
   column chunk; an interval is <<start, length>>. Everything is defined row by row. *)
EXTENDS Chunk

NumV(x) == IF "i" \in DOMAIN x THEN x.i ELSE -1
\* first rows that describe pages of a chunk of n rows
ValidFirst(first, n) == /\ \A k \in 1..Len(first) : first[k] >= 0 /\ first[k] <= n
                        /\ \A k \in 1..(Len(first) - 1) : first[k] <= first[k + 1]
PageEnd(first, n, k) == IF k = Len(first) THEN n ELSE first[k + 1]
IvRows(iv) == [j \in 1..iv[2] |-> iv[1] + j - 1]
\* the rows a list of intervals covers, in the order it covers them
RowsOf(ivs) == Concat([k \in 1..Len(ivs) |-> IvRows(ivs[k])])
\* the chosen rows lying in page k, relative to its first row
Chosen(first, n, ivs, k) ==
  LET a == first[k] b == PageEnd(first, n, k)
      q == SelectSeq(RowsOf(ivs), LAMBDA r : r >= a /\ r < b)
  IN [j \in 1..Len(q) |-> q[j] - a]
\* rows of chosen pages
PageRows(first, n, chosen) ==
  Concat([k \in 1..Len(first) |-> IF chosen[k] THEN [j \in 1..(PageEnd(first, n, k) - first[k]) |-> first[k] + j - 1] ELSE <<>>])

\* selected pages o for locations [off, size, first] (numbers of a case) and intervals
SelectOk(in, o) ==
  LET first == [k \in 1..Len(in.locs) |-> NumV(in.locs[k][3])]
      ok == /\ \A k \in 1..Len(in.locs) : "i" \in DOMAIN in.locs[k][3] /\ NumV(in.locs[k][1]) >= 0 /\ in.locs[k][2] >= 0
            /\ ValidFirst(first, in.rows)
  IN /\ Chk("locations accepted or refused", ("ok" \in DOMAIN o.select) = ok)
     /\ ok => /\ Chk("a selection per page", Len(o.select.ok) = Len(first))
              /\ \A k \in 1..Len(first) :
                   LET x == o.select.ok[k] IN
                   /\ Chk("page location", x.start = NumV(in.locs[k][1]) /\ x.len = in.locs[k][2])
                   /\ Chk("page rows", x.n = PageEnd(first, in.rows, k) - first[k])
                   /\ Chk("selected rows", RowsOf(x.sel) = Chosen(first, in.rows, in.ivs, k))
                   /\ Chk("a page without chosen rows is skipped", x.sel = <<>> \/ RowsOf(x.sel) # <<>>)
     /\ Chk("row intervals accepted or refused", ("ok" \in DOMAIN o.rows) = (ValidFirst(first, in.rows) /\ \A k \in 1..Len(in.locs) : "i" \in DOMAIN in.locs[k][3]))
     /\ "ok" \in DOMAIN o.rows => Chk("rows of the pages", RowsOf(o.rows.ok) = PageRows(first, in.rows, in.pages))

------------------------------------------------------------------------------
(* The same for rows too many to list: intervals taken whole. Intervals cover the same rows in the same order when they
   are alike after empty ones are dropped and touching ones joined. That cutting intervals at the ends of a page gives
   the chosen rows is checked in SelectM. Rows and bytes may be numbered from a far `up`, to which the numbers of a case
   and of its results are relative. *)
RECURSIVE CanonFrom(_, _, _)
CanonFrom(ivs, k, acc) ==
  IF k > Len(ivs) THEN acc
  ELSE IF ivs[k][2] = 0 THEN CanonFrom(ivs, k + 1, acc)
  ELSE LET l == Len(acc) IN
       IF l > 0 /\ acc[l][1] + acc[l][2] = ivs[k][1]
       THEN CanonFrom(ivs, k + 1, TLCEval([acc EXCEPT ![l] = <<acc[l][1], acc[l][2] + ivs[k][2]>>]))
       ELSE CanonFrom(ivs, k + 1, TLCEval(Append(acc, <<ivs[k][1], ivs[k][2]>>)))
Canon(ivs) == CanonFrom(ivs, 1, <<>>)
CutAt(ivs, a, b) ==
  SelectSeq([j \in 1..Len(ivs) |-> LET s == IF ivs[j][1] > a THEN ivs[j][1] ELSE a
                                       e == Min2(ivs[j][1] + ivs[j][2], b) IN <<s - a, IF e > s THEN e - s ELSE 0>>],
            LAMBDA v : v[2] > 0)
SelectWideOk(in, o) ==
  LET first == TLCEval([k \in 1..Len(in.locs) |-> NumV(in.locs[k][3])])
      ok == ValidFirst(first, in.rows)
      chosen == SelectSeq([k \in 1..Len(first) |-> k], LAMBDA k : in.pages[k])
  IN /\ Chk("many locations accepted or refused", ("ok" \in DOMAIN o.select) = ok)
     /\ Chk("many row intervals accepted or refused", ("ok" \in DOMAIN o.rows) = ok)
     /\ ok => /\ Chk("a selection for each page", Len(o.select.ok) = Len(first))
              /\ \A k \in 1..Len(first) :
                   LET x == o.select.ok[k] IN
                   /\ Chk("page location", x.start = NumV(in.locs[k][1]) /\ x.len = in.locs[k][2])
                   /\ Chk("page rows", x.n = PageEnd(first, in.rows, k) - first[k])
                   /\ Chk("selected pieces", Canon(x.sel) = Canon(CutAt(in.ivs, first[k], PageEnd(first, in.rows, k))))
                   /\ Chk("a page without chosen rows is skipped", x.sel = <<>> \/ Canon(x.sel) # <<>>)
              /\ Chk("pieces of the pages", Canon(o.rows.ok) = Canon([j \in 1..Len(chosen) |->
                     <<first[chosen[j]], PageEnd(first, in.rows, chosen[j]) - first[chosen[j]]>>]))

------------------------------------------------------------------------------
(* reading filtered pages [start, len, sel] of a chunk that starts at byte `start` of B *)
Limit == [i |-> 1048576]
PageIn(B, at, len, codec) == IF at > Len(B) THEN [ok |-> FALSE] ELSE PageAt(SubSeq(B, 1, Min2(Len(B), at + len)), at + 1, [big |-> <<>>], codec)
Sure(in) ==   \* what each step of reading yields, in order
  LET first == IF in.pages = <<>> THEN <<>>
               ELSE LET gap == in.pages[1].start - in.start IN
                    IF gap = 0 THEN <<>>
                    ELSE IF gap < 0 THEN <<[ok |-> FALSE]>>
                    ELSE LET d == PageIn(in.bytes, in.start, gap, in.codec) IN
                         <<IF d.ok /\ ~d.data THEN d ELSE [ok |-> FALSE]>>
      sel == SelectSeq(in.pages, LAMBDA x : x.sel # <<>>)
  IN first \o [k \in 1..Len(sel) |-> LET p == PageIn(in.bytes, sel[k].start, sel[k].len, in.codec) IN
                 IF p.ok /\ p.data THEN [p EXCEPT !.v = [p.v EXCEPT !.sel = <<sel[k].sel>>]] ELSE p]
\* after an error the reader may stop or go on with the next page
IndexedOk(in, o) ==
  LET S == TLCEval(Sure(in))
      n == Len(o.events)
      upto == IF \E k \in 1..Len(S) : ~S[k].ok THEN (CHOOSE k \in 1..Len(S) : ~S[k].ok /\ \A j \in 1..(k - 1) : S[j].ok) ELSE Len(S)
  IN /\ Chk("pages", n >= upto /\ n <= Len(S))
     /\ \A k \in 1..n : IF S[k].ok THEN Chk("page and selected rows", o.events[k] = S[k].v) ELSE Chk("error", IsErr(o.events[k]))
     /\ Chk("stays ended", o.after = <<>>)
=============================================================================
