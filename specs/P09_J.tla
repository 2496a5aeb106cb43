------------------------------- MODULE P09_J -------------------------------
(* Statistics of column chunks against those of their pages; decoding of statistics. *)
EXTENDS Judge, Stats

ChunkOk(leaf, chunk, col, read) ==
  LET md == Fld(chunk, 3)
      s == IF md = <<>> THEN <<>> ELSE Fld(md[1], 12)
      raw == IF s = <<>> THEN <<>> ELSE
        LET b(id) == IF Has(s[1], id) THEN <<s[1].f[id].s>> ELSE <<>>
        IN <<[min |-> b(6), max |-> b(5), nc |-> Fld(s[1], 3), dc |-> Fld(s[1], 4)]>>
  IN /\ md # <<>>
     /\ ChunkStatsOk(leaf, s, Pages(DataPages(col.pages)))
     /\ Chk("decoded", read = (IF raw = <<>> THEN <<>> ELSE <<Decoded(leaf, raw[1])>>))
ModeOk(in, w) ==
  LET e == Ended(in, w)
      ft == TLCEval(Footer(w.sink))
      leaves == TLCEval(Leaves(in.schema))
      gs == OkWrites(in, w, e)
      metas == ListF(ft.v, 4)
  IN e # 0 =>
     /\ Chk("file", ft.ok /\ Len(metas) = Len(gs) /\ "meta" \in DOMAIN w.read)
     /\ \A g \in 1..Len(gs) : \A c \in 1..Len(leaves) :
          ChunkOk(leaves[c].leaf, ListF(metas[g], 1)[c], gs[g].cols[c], w.read.meta.rgs[g].cols[c].st)
DecOk(in, out) ==
  \A o \in ToSet(out) :
    IF StatsOk(in.leaf, <<in.st>>)
    THEN Chk("decoding", "dec" \in DOMAIN o /\ o.dec = Decoded(in.leaf, in.st)) /\ Chk("encoding", o.enc = Encoded(in.leaf, in.st))
    ELSE Chk("invalid bound accepted", "err" \in DOMAIN o)
\* statistics of the same type with the same bounds and counts are equal, no others; a NaN equals nothing
SameValue(leaf, a, b) == IF leaf.t \in {4, 5} THEN ~IsNaN(leaf, a) /\ ~IsNaN(leaf, b) /\ ~IeeeLt(a, b) /\ ~IeeeLt(b, a) ELSE a = b
SameBound(leaf, x, y) == Len(x) = Len(y) /\ (x # <<>> => SameValue(leaf, x[1], y[1]))
EqOk(in, out) ==
  IF ~StatsOk(in.a.leaf, <<in.a.st>>) \/ ~StatsOk(in.b.leaf, <<in.b.st>>) THEN Chk("invalid bound accepted", "err" \in DOMAIN out)
  ELSE LET same(x, y) == /\ SameBound(x.leaf, x.st.min, y.st.min) /\ SameBound(x.leaf, x.st.max, y.st.max)
                         /\ x.st.nc = y.st.nc /\ x.st.dc = y.st.dc
           \* statistics of a boolean column do not carry the column's type
               eq == in.a.leaf.t = in.b.leaf.t /\ (in.a.leaf.t = 0 \/ in.a.leaf = in.b.leaf) /\ same(in.a, in.b)
       IN Chk("equality", "err" \notin DOMAIN out /\ out.eq = eq /\ out.back = eq /\ out["self"] = same(in.a, in.a))
RecOk(r) == IF "a" \in DOMAIN r.in THEN EqOk(r.in, r.out) ELSE IF "leaf" \in DOMAIN r.in THEN DecOk(r.in, r.out)
            ELSE \A m \in DOMAIN r.out : ModeOk(r.in, r.out[m])
JNext == JStep(RecOk)
=============================================================================
