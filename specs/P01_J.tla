------------------------------- MODULE P01_J -------------------------------
(* What is read back from a finished file, by every interface, is what was written. *)
EXTENDS Judge, Large

\* scanning ends with the last page that holds values
Scanned(ps) == LET S == {k \in 1..Len(ps) : IsData(ps[k].p) /\ ps[k].p.n > 0}
               IN IF S = {} THEN <<>> ELSE SubSeq(ps, 1, CHOOSE k \in S : \A j \in S : j <= k)
\* through the page index: the dictionary page (if there is a page that may need it) and the pages that hold rows
Indexed(ps) == LET d == SelectSeq(ps, LAMBDA x : IsData(x.p) /\ x.rows[1] > 0)
               IN IF DataPages(ps) = <<>> THEN <<>> ELSE SelectSeq(ps, LAMBDA x : ~IsData(x.p)) \o d


MetaOk(in, groups, kv, m) ==
  LET leaves == TLCEval(Leaves(in.schema)) IN
  /\ Chk("version", m.ver = in.ver)
  /\ Chk("rows", m.rows = SumOf(groups, GroupRows))
  /\ Chk("created by", m.by = in.by)
  /\ Chk("key-value metadata", m.kv = kv)
  /\ Chk("schema", m.schema = in.schema)
  /\ Chk("leaves", m.cols = leaves)
  /\ Chk("row groups", Len(m.rgs) = Len(groups))
  /\ \A g \in 1..Len(groups) :
       /\ Chk("group rows", m.rgs[g].rows = GroupRows(groups[g]))
       /\ Chk("columns", Len(m.rgs[g].cols) = Len(leaves))
       /\ \A c \in 1..Len(leaves) :
            LET x == m.rgs[g].cols[c] col == groups[g].cols[c] IN
            /\ Chk("column", x.path = leaves[c].path /\ x.leaf = leaves[c].leaf)
            /\ Chk("codec", x.codec = ChunkCodec(col))
            /\ Chk("values", x.nv = VI(SumOf(DataPages(col.pages), LAMBDA y : y.p.n)))
ReadsOk(groups, rgs) ==
  /\ Len(rgs) = Len(groups)
  /\ \A g \in 1..Len(groups) : \A c \in 1..Len(groups[g].cols) :
       LET x == rgs[g].cols[c]
           ps == Pages(Scanned(groups[g].cols[c].pages))
       IN /\ Chk("page iterator", x.iter = ps)
          /\ Chk("column read", x.col = ps)
          /\ Chk("page stream", x.asy = ps)
          /\ Chk("page stream from start", x.ast = ps)
          /\ Chk("async column read", x.araw)
          /\ Chk("indexed", x.idx = Pages(Indexed(groups[g].cols[c].pages)))
ModeOk(in, w) ==
  LET e == Ended(in, w) IN
  /\ Chk("writing", e # 0)
  /\ Chk("reading", "meta" \in DOMAIN w.read)
  /\ LET gs == OkWrites(in, w, e) IN
     MetaOk(in, gs, in.ops[e][2], w.read.meta) /\ w.read.asame /\ ReadsOk(gs, w.read.rgs) /\ FarOk(w.read)
RecOk(r) == IF "ops" \notin DOMAIN r.in THEN LargeReadOk(r.in, r.out) ELSE \A m \in DOMAIN r.out : ModeOk(r.in, r.out[m])
JNext == JStep(RecOk)
=============================================================================
