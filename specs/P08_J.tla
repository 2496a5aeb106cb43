------------------------------- MODULE P08_J -------------------------------
EXTENDS Judge, Select, File
\* whole files read through their page indexes with selected rows
ColSel(in, g, col, got) ==
  LET ps == DataPages(col.pages)
      first == [k \in 1..Len(ps) |-> SumOf(SubSeq(ps, 1, k - 1), LAMBDA x : x.rows[1])]
      n == GroupRows(g)
      rows(k) == Chosen(first, n, in.read.ivs, k)
      dict == SelectSeq(col.pages, LAMBDA x : ~IsData(x.p))
      hit == SelectSeq([k \in 1..Len(ps) |-> k], LAMBDA k : rows(k) # <<>>)
      want == IF ps = <<>> THEN <<>> ELSE [k \in 1..Len(dict) |-> [p |-> dict[k].p, rows |-> <<>>]] \o [k \in 1..Len(hit) |-> [p |-> ps[hit[k]].p, rows |-> rows(hit[k])]]
  IN /\ Chk("number of pages", Len(got) = Len(want))
     /\ \A k \in 1..Len(want) : /\ Chk("page", "p" \in DOMAIN got[k] /\ got[k].p = want[k].p)
                                /\ Chk("selection", got[k].sel = <<>> \/ IsData(want[k].p))
                                /\ Chk("selected rows", (IF got[k].sel = <<>> THEN <<>> ELSE RowsOf(got[k].sel[1])) = want[k].rows)
FileSel(in, o) ==
  LET w == o["sync"] gs == OkWrites(in, w, Len(in.ops)) IN
  /\ Chk("readable", "rgs" \in DOMAIN w.read)
  /\ FarOk(w.read)
  /\ \A g \in 1..Len(gs) : \A c \in 1..Len(gs[g].cols) : \A k \in 1..2 : ColSel(in, gs[g], gs[g].cols[c], w.read.rgs[g].cols[c].sel[k])
RecOk(r) == IF "ops" \in DOMAIN r.in THEN FileSel(r.in, r.out)
            ELSE IF "up" \in DOMAIN r.in THEN SelectWideOk(r.in, r.out)
            ELSE IF "locs" \in DOMAIN r.in THEN SelectOk(r.in, r.out)
            ELSE IndexedOk(r.in, r.out)
JNext == JStep(RecOk)
=============================================================================
