------------------------------- MODULE Index -------------------------------
(* The page indexes of a finished file: what they must say about the pages written, where they lie, and what reading
   them back for a selection of chunks yields. *)
EXTENDS Stats

\* index of the first row of each data page
FirstRows(ps) == [k \in 1..Len(ps) |-> SumOf(SubSeq(ps, 1, k - 1), LAMBDA x : x.rows[1])]
\* locations of the data pages of a chunk: <<position, length, first row>>
LocsOf(col, walked) ==
  LET ix == SelectSeq([k \in 1..Len(col.pages) |-> k], LAMBDA k : IsData(col.pages[k].p))
      fr == FirstRows(DataPages(col.pages))
  IN [k \in 1..Len(ix) |-> <<walked.pg[ix[k]].off, walked.pg[ix[k]].hl + walked.pg[ix[k]].cs, fr[k]>>]
OffsetIndexT(locs) == VL([k \in 1..Len(locs) |-> VF((1 :> VI(locs[k][1])) @@ (2 :> VI(locs[k][2])) @@ (3 :> VI(locs[k][3])))])

\* a claimed order of the bounds must be their order
Ordered(leaf, ps, o) ==
  LET q == SelectSeq(ps, LAMBDA p : p.st[1].min # <<>>)
      le(a, b) == ~ValLt(leaf, b, a)
      up(x, y) == le(x.st[1].min[1], y.st[1].min[1]) /\ le(x.st[1].max[1], y.st[1].max[1])
  IN CASE o = 0 -> TRUE
       [] o = 1 -> \A k \in 1..(Len(q) - 1) : up(q[k], q[k + 1])
       [] o = 2 -> \A k \in 1..(Len(q) - 1) : up(q[k + 1], q[k])
       [] OTHER -> FALSE
\* the column index of data pages ps
ColumnIndexOk(leaf, v, ps) ==
  LET n == Len(ps) nul == ListF(v, 1) mn == ListF(v, 2) mx == ListF(v, 3) nc == ListF(v, 5) IN
  /\ Chk("index length", HasList(v, 1) /\ Len(nul) = n /\ Len(mn) = n /\ Len(mx) = n /\ HasList(v, 5) /\ Len(nc) = n)
  /\ \A k \in 1..n :
       LET s == ps[k].st[1] IN
       /\ Chk("null page", nul[k] = VB(s.min = <<>>))
       /\ Chk("page bounds", s.min # <<>> => mn[k] = VS(s.min[1]) /\ mx[k] = VS(s.max[1]))
       /\ Chk("null count", nc[k] = s.nc[1])
  /\ Chk("boundary order", Ordered(leaf, ps, IntF(v, 4)))

\* what reading back the column index gives
ReadIndex(leaf, ps) == [k \in 1..Len(ps) |-> [min |-> ps[k].st[1].min, max |-> (IF ps[k].st[1].min = <<>> THEN <<>> ELSE ps[k].st[1].max),
                                              nc |-> ps[k].st[1].nc]]
\* indexes read of a column are equal unless they hold a NaN; those equal are of the same type and hold the same
EqualOk(l, m, ps, qs, same, eq) ==
  LET nan(p) == \E b \in {"min", "max"} : p.st[1][b] # <<>> /\ IsNaN(l, p.st[1][b][1]) IN
  /\ same => eq = \A k \in 1..Len(ps) : ~nan(ps[k])
  /\ eq /\ ~same => l.t = m.t /\ (l.t \in {4, 5} \/ ReadIndex(l, ps) = ReadIndex(m, qs))
SelOk(in, leaves, cols, walked, s) ==
  LET C == [k \in 1..Len(s.ix) |-> s.ix[k] + 1] IN
  /\ Chk("locations read", "ok" \in DOMAIN s.loc /\ s.loc.ok = (IF s.stripped THEN <<>> ELSE [k \in 1..Len(C) |-> LocsOf(cols[C[k]], walked[C[k]])]))
  /\ IF s.stripped \/ ~in.ws THEN Chk("no column indexes", "ok" \in DOMAIN s.idx /\ s.idx.ok = <<>>)
     ELSE /\ Chk("column indexes read", "ok" \in DOMAIN s.idx /\ Len(s.idx.ok) = Len(C))
          /\ \A k \in 1..Len(C) :
               LET leaf == leaves[C[k]].leaf ps == Pages(DataPages(cols[C[k]].pages)) IN
               /\ Chk("type", s.idx.ok[k].k = leaf.t /\ s.idx.ok[k].len = leaf.len)
               /\ Chk("order", Ordered(leaf, ps, s.idx.ok[k].order))
               /\ Chk("page indexes", s.idx.ok[k].pages = ReadIndex(leaf, ps))

IndexesOk(in, groups, B, P, reads) ==
  /\ Chk("groups", P.w.ok)
  /\ \A g \in 1..Len(groups) :
       LET ch == ListF(P.metas[g], 1) IN
       /\ \A c \in 1..Len(P.leaves) :
            LET ps == Pages(DataPages(groups[g].cols[c].pages))
                o == Struct(B, IntF(ch[c], 4) + 1)
            IN /\ Chk("offset index present", Has(ch[c], 4) /\ o.ok /\ o.n = IntF(ch[c], 4) + IntF(ch[c], 5) + 1)
               /\ Chk("offset index", Is(o.v, 1, OffsetIndexT(LocsOf(groups[g].cols[c], P.w.rgs[g][c]))))
               /\ Chk("column index iff enabled", Has(ch[c], 6) = in.ws)
               /\ in.ws => LET x == Struct(B, IntF(ch[c], 6) + 1) IN
                           /\ Chk("column index present", x.ok /\ x.n = IntF(ch[c], 6) + IntF(ch[c], 7) + 1)
                           /\ ColumnIndexOk(P.leaves[c].leaf, x.v, ps)
       /\ \A s \in ToSet(reads[g].sels) : SelOk(in, P.leaves, groups[g].cols, P.w.rgs[g], s)
       /\ \A c \in 1..Len(P.leaves) :
            LET ps == groups[g].cols[c].pages
                d == SelectSeq(ps, LAMBDA x : IsData(x.p) /\ x.rows[1] > 0)
            IN Chk("pages through the index",
                   reads[g].cols[c].idx = (IF DataPages(ps) = <<>> THEN <<>> ELSE Pages(SelectSeq(ps, LAMBDA x : ~IsData(x.p)) \o d)))
=============================================================================
