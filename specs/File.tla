-------------------------------- MODULE File --------------------------------
(* What a finished file is, as a relation between a history of writer calls and the bytes the sink holds: the leading
   magic, for every row group and column the pages in order followed by a copy of the column's metadata, then column
   and offset indexes, then the footer. All of it is parsed from the bytes (Thrift.tla); nothing of it is taken from
   the implementation. Positions and offsets are from 0. *)
EXTENDS Schema, FiniteSets, FiniteSetsExt

Magic == <<80, 65, 82, 49>>
\* file bytes [at, at + n)
Bytes(B, at, n) == SubSeq(B, at + 1, at + n)

IsData(p) == p.k # 2
DataPages(ps) == SelectSeq(ps, LAMBDA x : IsData(x.p))
Pages(ps) == [k \in 1..Len(ps) |-> ps[k].p]
Codec(col, x) == IF col.mode = "raw" THEN x.codec ELSE col.codec[1]
ChunkCodec(col) == IF col.pages = <<>> THEN 0 ELSE Codec(col, col.pages[1])

StatT(s) == Str(<<Opt(1, s.omax, VS), Opt(2, s.omin, VS), Opt(3, s.nc, LAMBDA x : x), Opt(4, s.dc, LAMBDA x : x),
                  Opt(5, s.max, VS), Opt(6, s.min, VS)>>)
\* the header a page must carry, for given sizes; a page that is not sorted may say so or leave it out
HeaderIs(h, p, us, cs) ==
  /\ Is(h, 1, VI(p.k)) /\ Is(h, 2, VI(us)) /\ Is(h, 3, VI(cs))
  /\ CASE p.k = 0 -> /\ Is(h, 5, Str(<<1 :> VI(p.n), 2 :> VI(p.enc), 3 :> VI(p.de), 4 :> VI(p.re), Opt(5, p.st, StatT)>>))
                     /\ ~Has(h, 7) /\ ~Has(h, 8)
       [] p.k = 3 -> /\ Is(h, 8, Str(<<1 :> VI(p.n), 2 :> VI(p.nulls), 3 :> VI(p.nrows), 4 :> VI(p.enc), 5 :> VI(p.dl),
                                       6 :> VI(p.rl), Opt(7, p.ic, VB), Opt(8, p.st, StatT)>>))
                     /\ ~Has(h, 5) /\ ~Has(h, 7)
       [] p.k = 2 -> /\ Has(h, 7) /\ Is(h.f[7], 1, VI(p.n)) /\ Is(h.f[7], 2, VI(0))
                     /\ Fld(h.f[7], 3) \in (IF p.sorted THEN {<<VB(TRUE)>>} ELSE {<<>>, <<VB(FALSE)>>})
                     /\ ~Has(h, 5) /\ ~Has(h, 8)

\* the written bytes of a page body where they are determined; compressed bytes are only checked by reading back
PayloadIs(col, x, q) ==
  IF col.mode = "raw" \/ col.codec[1] = 0 \/ (x.p.k = 3 /\ x.p.ic = <<FALSE>>) THEN q = x.p.body
  ELSE IF x.p.k = 3 THEN LET l == x.p.rl + x.p.dl IN Len(q) >= l /\ SubSeq(q, 1, l) = SubSeq(x.p.body, 1, l)
  ELSE TRUE

\* the pages of a chunk from position at: [ok, at (position after), pg (sequence of [off, hl, cs, us])]
RECURSIVE WalkPages(_, _, _, _, _)
WalkPages(B, col, k, at, acc) ==
  IF k > Len(col.pages) THEN [ok |-> TRUE, at |-> at, pg |-> acc]
  ELSE LET x == col.pages[k]
           h == Struct(B, at + 1)
           hl == h.n - 1 - at
           cs == IF h.ok THEN IntF(h.v, 3) ELSE -1
           us == IF col.mode = "raw" THEN x.us ELSE Len(x.p.body)
       IN IF ~Chk("page header", h.ok /\ cs >= 0 /\ h.n - 1 + cs <= Len(B)) THEN [ok |-> FALSE, at |-> at, pg |-> acc]
          ELSE IF /\ Chk("header fields", HeaderIs(h.v, x.p, us, cs))
                  /\ Chk("payload", PayloadIs(col, x, Bytes(B, h.n - 1, cs)) /\ (col.mode = "raw" => cs = Len(x.p.body)))
               THEN WalkPages(B, col, k + 1, h.n - 1 + cs,
                              Append(acc, [off |-> at, hl |-> hl, cs |-> cs, us |-> us]))
               ELSE [ok |-> FALSE, at |-> at, pg |-> acc]

SumOf(s, f(_)) == FoldLeft(LAMBDA a, x : a + f(x), 0, s)

\* chunk metadata equals the sums (sets) over its pages
ChunkMetaOk(md, leaf, path, col, w, start) ==
  LET encs == {IF IsData(x.p) THEN x.p.enc ELSE 0 : x \in ToSet(col.pages)}
              \cup (IF DataPages(col.pages) = <<>> THEN {} ELSE {3})
      e == ListF(md, 2)
      cs == SumOf(w.pg, LAMBDA g : g.hl + g.cs)
      us == SumOf(w.pg, LAMBDA g : g.hl + g.us)
      nv == SumOf(col.pages, LAMBDA x : IF IsData(x.p) THEN x.p.n ELSE 0)
      dict == OptInt(md, 11)
      firstData == IF \E k \in 1..Len(col.pages) : IsData(col.pages[k].p)
                   THEN w.pg[CHOOSE k \in 1..Len(col.pages) : IsData(col.pages[k].p) /\ \A j \in 1..(k-1) : ~IsData(col.pages[j].p)].off
                   ELSE start
  IN /\ Chk("chunk type", Is(md, 1, VI(leaf.t)))
     /\ Chk("chunk encodings", Len(e) = Cardinality(encs) /\ ToSet(e) = {VI(x) : x \in encs})
     /\ Chk("chunk path", Is(md, 3, VL([k \in 1..Len(path) |-> VS(path[k])])))
     /\ Chk("chunk codec", Is(md, 4, VI(ChunkCodec(col))))
     /\ Chk("chunk counts", Is(md, 5, VI(nv)) /\ Is(md, 6, VI(us)) /\ Is(md, 7, VI(cs)))
     /\ Chk("chunk offsets", IF dict = <<>> THEN Is(md, 9, VI(start)) ELSE dict = <<start>> /\ Is(md, 9, VI(firstData)))
     /\ Chk("chunk surplus offsets", ~Has(md, 10) /\ ~Has(md, 14))

\* columns of one row group from position at: [ok, at, cols (the walked chunks)]
RECURSIVE WalkCols(_, _, _, _, _, _, _)
WalkCols(B, leaves, rg, chunks, c, at, acc) ==
  IF c > Len(leaves) THEN [ok |-> TRUE, at |-> at, cols |-> acc]
  ELSE LET w == TLCEval(WalkPages(B, rg.cols[c], 1, at, <<>>))
           md == Fld(chunks[c], 3)
           cp == Struct(B, w.at + 1)
       IN IF /\ w.ok
             /\ Chk("metadata copy", md # <<>> /\ cp.ok /\ cp.v = md[1])
             /\ ChunkMetaOk(md[1], leaves[c].leaf, leaves[c].path, rg.cols[c], w, at)
             /\ Chk("chunk file offset", Is(chunks[c], 2, VI(w.at)) /\ ~Has(chunks[c], 1))
          THEN WalkCols(B, leaves, rg, chunks, c + 1, cp.n - 1, Append(acc, [start |-> at, pg |-> w.pg]))
          ELSE [ok |-> FALSE, at |-> at, cols |-> acc]

GroupRows(rg) == IF rg.cols = <<>> THEN 0 ELSE SumOf(DataPages(rg.cols[1].pages), LAMBDA x : x.rows[1])
GroupMetaOk(g, rg, w, start, ord) ==
  LET us == SumOf(w.cols, LAMBDA c : SumOf(c.pg, LAMBDA p : p.hl + p.us))
      cs == SumOf(w.cols, LAMBDA c : SumOf(c.pg, LAMBDA p : p.hl + p.cs))
  IN /\ Chk("group sizes", Is(g, 2, VI(us)) /\ Is(g, 6, VI(cs)))
     /\ Chk("group rows", Is(g, 3, VI(GroupRows(rg))))
     /\ Chk("group offset", Is(g, 5, VI(start)))
     /\ Chk("group ordinal", Is(g, 7, VI(ord - 1)))
     /\ ~Has(g, 4)

RECURSIVE WalkGroups(_, _, _, _, _, _, _)
WalkGroups(B, leaves, groups, metas, g, at, acc) ==
  IF g > Len(groups) THEN [ok |-> TRUE, at |-> at, rgs |-> acc]
  ELSE LET ch == ListF(metas[g], 1)
       IN IF Len(ch) # Len(leaves) \/ Len(groups[g].cols) # Len(leaves) THEN [ok |-> FALSE, at |-> at, rgs |-> acc]
          ELSE LET w == TLCEval(WalkCols(B, leaves, groups[g], ch, 1, at, <<>>))
               IN IF w.ok /\ GroupMetaOk(metas[g], groups[g], w, at, g)
                  THEN WalkGroups(B, leaves, groups, metas, g + 1, w.at, Append(acc, w.cols))
                  ELSE [ok |-> FALSE, at |-> at, rgs |-> acc]

\* the footer: [ok, at (its position), v (the metadata)]
Footer(B) ==
  LET N == Len(B) IN
  IF N < 12 \/ Bytes(B, N - 4, 4) # Magic \/ B[N - 4] >= 128 THEN [ok |-> FALSE, at |-> 0, v |-> 0]
  ELSE LET len == NatOf(Bytes(B, N - 8, 4)) IN
       IF len > N - 8 THEN [ok |-> FALSE, at |-> 0, v |-> 0]
       ELSE LET s == Struct(B, N - 8 - len + 1)
            IN [ok |-> s.ok /\ s.n = N - 8 + 1, at |-> N - 8 - len, v |-> s.v]

\* index structures of the file: set of <<kind, group, column, position, length>>
SegsOf(metas) ==
  UNION {UNION {LET ch == ListF(metas[g], 1)[c] IN
                  (IF Has(ch, 6) THEN {<<"col", g, c, IntF(ch, 6), IntF(ch, 7)>>} ELSE {})
             \cup (IF Has(ch, 4) THEN {<<"off", g, c, IntF(ch, 4), IntF(ch, 5)>>} ELSE {})
                : c \in 1..Len(ListF(metas[g], 1))} : g \in 1..Len(metas)}
\* they cover [from, to) without overlap and each delimits one structure
Tiles(B, segs, from, to) ==
  /\ Chk("index lengths", FoldSet(LAMBDA s, a : a + s[5], 0, segs) = to - from)
  /\ \A s \in segs : /\ s[4] >= from /\ s[5] > 0 /\ s[4] + s[5] <= to
                     /\ LET r == Struct(B, s[4] + 1) IN r.ok /\ r.n = s[4] + s[5] + 1
  /\ \A s, u \in segs : s # u => s[4] + s[5] <= u[4] \/ u[4] + u[5] <= s[4]

KvT(kv) == VL([k \in 1..Len(kv) |-> Str(<<1 :> VS(kv[k][1]), Opt(2, kv[k][2], VS)>>)])
\* B is the finished file of these row groups. in: the case (schema, version, options), kv: as given to end
FileParts(in, groups, kv, B) ==
  LET ft == TLCEval(Footer(B))
      leaves == TLCEval(Leaves(in.schema))
      metas == IF ft.ok THEN ListF(ft.v, 4) ELSE <<>>
      w == IF ft.ok /\ Len(metas) = Len(groups) THEN TLCEval(WalkGroups(B, leaves, groups, metas, 1, 4, <<>>))
           ELSE [ok |-> FALSE, at |-> 0, rgs |-> <<>>]
  IN [ft |-> ft, leaves |-> leaves, metas |-> metas, w |-> w]
FileOkP(in, groups, kv, B, P) ==
  /\ Chk("magic", Bytes(B, 0, 4) = Magic)
  /\ Chk("footer", P.ft.ok)
  /\ Chk("number of row groups", HasList(P.ft.v, 4) /\ Len(P.metas) = Len(groups))
  /\ Chk("row groups", P.w.ok)
  /\ Chk("version", Is(P.ft.v, 1, VI(in.ver)))
  /\ Chk("schema", Is(P.ft.v, 2, VL(FlatSchema(in.schema))))
  /\ Chk("rows", Is(P.ft.v, 3, VI(SumOf(groups, GroupRows))))
  /\ Chk("key-value metadata", IF kv = <<>> THEN ~Has(P.ft.v, 5) ELSE Is(P.ft.v, 5, KvT(kv[1])))
  /\ Chk("created by", IF in.by = <<>> THEN ~Has(P.ft.v, 6) ELSE Is(P.ft.v, 6, VS(in.by[1])))
  /\ LET segs == SegsOf(P.metas) IN
       /\ Chk("index segments", Tiles(B, segs, P.w.at, P.ft.at))
       /\ \A g \in 1..Len(groups) : \A c \in 1..Len(P.leaves) :
            /\ Chk("offset index", Cardinality({s \in segs : s[1] = "off" /\ s[2] = g /\ s[3] = c}) = 1)
            /\ Chk("column index", Cardinality({s \in segs : s[1] = "col" /\ s[2] = g /\ s[3] = c}) = (IF in.ws THEN 1 ELSE 0))
FileOk(in, groups, kv, B) == FileOkP(in, groups, kv, B, TLCEval(FileParts(in, groups, kv, B)))

------------------------------------------------------------------------------
(* which calls must succeed when nothing failed before *)
FixedLen(leaf) == CASE leaf.t = 0 -> 1 [] leaf.t \in {1, 4} -> 4 [] leaf.t \in {2, 5} -> 8 [] leaf.t = 3 -> 12
                    [] leaf.t = 7 -> leaf.len [] OTHER -> -1
BoundOk(leaf, b) == \A k \in 1..Len(b) : FixedLen(leaf) = -1 \/ Len(b[k]) = FixedLen(leaf)
StatsOk(leaf, st) == \A k \in 1..Len(st) : BoundOk(leaf, st[k].min) /\ BoundOk(leaf, st[k].max)
PageOk(leaf, x) == IsData(x.p) => x.rows # <<>> /\ StatsOk(leaf, x.p.st)
ColOk(leaf, col) == /\ col.err = <<>>
                    /\ \A x \in ToSet(col.pages) : PageOk(leaf, x) /\ Codec(col, x) = ChunkCodec(col)
                    /\ col.mode = "comp" => (col.codec[1] \in {0, 1, 2, 4, 6, 7} \/ col.pages = <<>>)
\* a row group whose write must succeed
GroupOk(leaves, rg) == Len(rg.cols) = Len(leaves) /\ \A c \in 1..Len(leaves) : ColOk(leaves[c].leaf, rg.cols[c])
\* a row group whose write must fail
GroupBad(leaves, rg) == \/ Len(rg.cols) # Len(leaves)
                        \/ \E c \in 1..Len(leaves) : rg.cols[c].err # <<>>
\* page statistics from which a column index can be built: known bounds, or nulls only
IndexPageOk(p) == /\ p.st # <<>> /\ p.st[1].nc # <<>>
                  /\ IF p.st[1].min # <<>> THEN p.st[1].max # <<>> ELSE p.st[1].nc = <<VI(p.n)>> /\ p.st[1].max = <<>>
IndexOk(in, groups) == in.ws => \A g \in ToSet(groups) : \A c \in ToSet(g.cols) : \A x \in ToSet(c.pages) :
                                   IsData(x.p) => IndexPageOk(x.p)

\* the writes before op n that succeeded, and the position of the first successful end (0: none)
OkWrites(in, w, n) == LET ix == SelectSeq([j \in 1..n |-> j], LAMBDA j : in.ops[j][1] = "write" /\ "ok" \in DOMAIN w.ops[j])
                      IN [k \in 1..Len(ix) |-> in.ops[ix[k]][2]]
Ended(in, w) == LET S == {j \in 1..Len(in.ops) : in.ops[j][1] = "end" /\ "ok" \in DOMAIN w.ops[j]}
                IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k

\* the same file behind a hole of any size, all its offsets moved accordingly, reads the same (offsets in `far` are given
\* relative to the end of the hole; the stored bytes of chunk metadata are not compared)
Plain(m) == [m EXCEPT !.rgs = [g \in DOMAIN m.rgs |-> [m.rgs[g] EXCEPT !.cols =
               [k \in DOMAIN m.rgs[g].cols |-> [f \in DOMAIN m.rgs[g].cols[k] \ {"thrift"} |-> m.rgs[g].cols[k][f]]]]]]
FarOk(read) == "far" \in DOMAIN read =>
  /\ Chk("far away: opened", "rgs" \in DOMAIN read.far)
  /\ Chk("far away: metadata", read.far.asame /\ Plain(read.far.meta) = Plain(read.meta))
  /\ Chk("far away: pages and indexes", read.far.rgs = read.rgs)
=============================================================================
