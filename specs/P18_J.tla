------------------------------- MODULE P18_J -------------------------------
(* The columns of a field: which they are, their pages one column at a time, and their bytes. *)
EXTENDS Judge, File

Failed(x) == "err" \in DOMAIN x
\* positions (from 0) of the leaves whose path starts with the name
FieldOf(leaves, name) == LET q == SelectSeq([k \in 1..Len(leaves) |-> k], LAMBDA k : leaves[k].path[1] = name)
                         IN [j \in 1..Len(q) |-> q[j] - 1]
\* a scan ends with the last page that holds values; pages with an odd number of values are refused by the filter
Scan(ps, filter) ==
  LET S == {k \in 1..Len(ps) : IsData(ps[k].p) /\ ps[k].p.n > 0}
      q == IF S = {} THEN <<>> ELSE SubSeq(ps, 1, CHOOSE k \in S : \A j \in S : j <= k)
  IN Pages(SelectSeq(q, LAMBDA x : ~IsData(x.p) \/ ~filter \/ x.p.n % 2 = 0))
Max0(x) == IF x > 0 THEN x ELSE 0
\* byte range of a chunk, from its metadata: from its dictionary page or first data page
Start(md) == IF Has(md, 11) THEN IntF(md, 11) ELSE IntF(md, 9)
ChunkBytes(F, md) == Bytes(F, Start(md), IntF(md, 7))
\* pages k..: at most n of them
Upto(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))

\* columns visited with at most takes[j] pages taken of the j-th
VisitsOk(cols, pages(_), takes, o, what) ==
  /\ Chk(what, ~Failed(o))
  /\ Chk(what \o " columns", [j \in 1..Len(o.cols) |-> o.cols[j].i] = cols)
  /\ \A j \in 1..Len(cols) : LET t == takes[((j - 1) % Len(takes)) + 1] IN
       Chk(what \o " pages", o.cols[j].pages = Upto(pages(cols[j]), t))
\* a source cut to its first `cut` bytes gives whole chunks or errors
Fits(md, cut) == IntF(md, 7) = 0 \/ Start(md) + IntF(md, 7) <= cut
RawOk(F, cut, x, md) == IF Fits(md, cut) THEN ~Failed(x) /\ x.b = ChunkBytes(F, md) ELSE Failed(x)
RECURSIVE AllFit(_, _, _)
AllFit(cols, cut, md) == cols = <<>> \/ (Fits(md[cols[1] + 1], cut) /\ AllFit(Tail(cols), cut, md))

LookOk(in, F, leaves, rg, md, q, o) ==
  LET cols == FieldOf(leaves, q.name)
      pages(x) == Scan(rg.cols[x + 1].pages, q.filter)
      whole(x) == Scan(rg.cols[x + 1].pages, FALSE)
      untouched == \A k \in 1..Len(q.takes) : q.takes[k] = 0
  IN /\ Chk("columns of the field", o.field = cols)
     /\ VisitsOk(cols, pages, q.takes, o.file, "iterator")
     /\ Chk("scratch handed back", (cols = <<>> \/ untouched) => o.file.cap >= q.scratch)
     /\ VisitsOk(cols, whole, q.takes, o.mem, "pre-read iterator")
     /\ Chk("read columns", IF AllFit(cols, q.cut, md) THEN "ok" \in DOMAIN o.raw /\ [j \in 1..Len(o.raw.ok) |-> o.raw.ok[j].i] = cols
                                                             /\ \A j \in 1..Len(cols) : o.raw.ok[j].b = ChunkBytes(F, md[cols[j] + 1])
                            ELSE Failed(o.raw))
     /\ Chk("async read columns", o.araw = o.raw)
     /\ Chk("read column", \A j \in 1..Len(cols) : RawOk(F, q.cut, o.one[j], md[cols[j] + 1]))
     /\ Chk("async read column", o.aone = o.one)
RecOk(r) ==
  LET in == r.in w == r.out IN
  /\ Chk("written and opened", "looks" \in DOMAIN w)
  /\ LET leaves == TLCEval(Leaves(in.schema))
         F == w.sink
         ft == TLCEval(Footer(F))
         gs == ListF(ft.v, 4)
     IN \A k \in 1..Len(in.looks) :
          LET q == in.looks[k]
              g == in.ops[q.rg + 1][2]
              md == TLCEval([c \in 1..Len(leaves) |-> ListF(gs[q.rg + 1], 1)[c].f[3]])
          IN LookOk(in, F, leaves, g, md, q, w.looks[k])
JNext == JStep(RecOk)
=============================================================================
