------------------------------- MODULE Large -------------------------------
(* Files beyond the range of 32 bits: pages of gigabytes, counts of billions. The sink keeps small writes and counts
   large ones, so a file is a sequence of parts [b |-> bytes, hole |-> length]; all numbers are 8 bytes. Pages have
   bodies that are large. in.groups: for each row group, for each column, pages [k, n, rows, us, body, h (header)]. *)
EXTENDS File

I8(x) == LE(x, 8)
Z8 == I8(0)
\* a value as 8 bytes; not a number: a negative one
V8(v) == IF "i" \in DOMAIN v THEN I8(v.i) ELSE IF "big" \in DOMAIN v THEN v.big ELSE I8(-1)
F8(v, id) == IF Has(v, id) THEN V8(v.f[id]) ELSE I8(-1)
Sum8(s, f(_)) == FoldLeft(LAMBDA a, x : Add64(a, f(x)), Z8, s)
Max31 == <<255, 255, 255, 127, 0, 0, 0, 0>>
Fits31(x) == ~LtS(Max31, x)

PageFits(p) == Fits31(p.body) /\ Fits31(p.us) /\ (p.k = 2 => Fits31(p.n))
GroupFits(g) == \A c \in 1..Len(g) : \A j \in 1..Len(g[c]) : PageFits(g[c][j])
IsD(p) == p.k # 2
Data(ps) == SelectSeq(ps, IsD)

\* st: part k, index p in it, position at (8 bytes)
RECURSIVE LPages(_, _, _, _, _)
LPages(P, pages, j, st, acc) ==
  IF j > Len(pages) THEN [ok |-> TRUE, st |-> st, pg |-> acc]
  ELSE LET x == pages[j]
           h == TLCEval(Struct(P[st.k].b, st.p))
           hl == I8(h.n - st.p)
       IN IF /\ Chk("page header", h.ok /\ h.n = Len(P[st.k].b) + 1 /\ st.k < Len(P))
             /\ Chk("page kind", Is(h.v, 1, VI(x.k)))
             /\ Chk("page sizes", F8(h.v, 2) = x.us /\ F8(h.v, 3) = x.body)
             /\ Chk("page body", P[st.k].hole = x.body)
             /\ Chk("values", F8(h.v.f[CASE x.k = 0 -> 5 [] x.k = 2 -> 7 [] OTHER -> 8], 1) = x.n)
          THEN LPages(P, pages, j + 1, [k |-> st.k + 1, p |-> 1, at |-> TLCEval(Add64(st.at, Add64(hl, x.body)))],
                      Append(acc, [off |-> st.at, cs |-> Add64(hl, x.body), us |-> Add64(hl, x.us), k |-> x.k, rows |-> x.rows]))
          ELSE [ok |-> FALSE, st |-> st, pg |-> acc]

LChunkOk(md, pages, w, start) ==
  /\ Chk("chunk values", F8(md, 5) = Sum8(Data(pages), LAMBDA x : x.n))
  /\ Chk("chunk sizes", F8(md, 6) = Sum8(w.pg, LAMBDA x : x.us) /\ F8(md, 7) = Sum8(w.pg, LAMBDA x : x.cs))
  /\ Chk("chunk offset", F8(md, 9) = start)
  /\ LET st == Fld(md, 12) IN
     Chk("chunk null count", (Data(pages) # <<>> /\ \A j \in 1..Len(Data(pages)) : Data(pages)[j].nulls # <<>>) =>
                             st # <<>> /\ F8(st[1], 3) = Sum8(Data(pages), LAMBDA x : x.nulls[1]))

RECURSIVE LCols(_, _, _, _, _, _)
LCols(P, g, ch, c, st, acc) ==
  IF c > Len(g) THEN [ok |-> TRUE, st |-> st, cols |-> acc]
  ELSE LET w == TLCEval(LPages(P, g[c], 1, st, <<>>))
           md == Fld(ch[c], 3)
           cp == Struct(P[w.st.k].b, w.st.p)
       IN IF /\ w.ok
             /\ Chk("metadata copy", md # <<>> /\ cp.ok /\ cp.v = md[1])
             /\ LChunkOk(md[1], g[c], w, st.at)
             /\ Chk("chunk file offset", F8(ch[c], 2) = w.st.at)
          THEN LCols(P, g, ch, c + 1, [k |-> w.st.k, p |-> cp.n, at |-> TLCEval(Add64(w.st.at, I8(cp.n - w.st.p)))],
                     Append(acc, [pg |-> w.pg, start |-> st.at]))
          ELSE [ok |-> FALSE, st |-> st, cols |-> acc]

RowsOf8(g) == IF g = <<>> THEN Z8 ELSE Sum8(Data(g[1]), LAMBDA x : x.rows)
RECURSIVE LGroups(_, _, _, _, _, _)
LGroups(P, gs, metas, i, st, acc) ==
  IF i > Len(gs) THEN [ok |-> TRUE, st |-> st, gs |-> acc]
  ELSE LET ch == ListF(metas[i], 1) IN
       IF Len(ch) # Len(gs[i]) THEN [ok |-> FALSE, st |-> st, gs |-> acc]
       ELSE LET w == TLCEval(LCols(P, gs[i], ch, 1, st, <<>>))
                all == Concat([c \in 1..Len(w.cols) |-> w.cols[c].pg])
            IN IF /\ w.ok
                  /\ Chk("group sizes", F8(metas[i], 2) = Sum8(all, LAMBDA x : x.us) /\ F8(metas[i], 6) = Sum8(all, LAMBDA x : x.cs))
                  /\ Chk("group rows", F8(metas[i], 3) = RowsOf8(gs[i]))
                  /\ Chk("group offset", F8(metas[i], 5) = st.at)
               THEN LGroups(P, gs, metas, i + 1, w.st, Append(acc, w.cols))
               ELSE [ok |-> FALSE, st |-> st, gs |-> acc]

LFile(P, gs) ==
  LET last == P[Len(P)].b
      ft == TLCEval(Footer(Zeros(4) \o last))
      metas == IF ft.ok THEN ListF(ft.v, 4) ELSE <<>>
      w == IF ft.ok /\ Len(metas) = Len(gs) THEN TLCEval(LGroups(P, gs, metas, 1, [k |-> 1, p |-> 5, at |-> I8(4)], <<>>))
           ELSE [ok |-> FALSE, st |-> 0, gs |-> <<>>]
      size == FoldLeft(LAMBDA a, x : Add64(a, Add64(I8(Len(x.b)), x.hole)), Z8, P)
  IN [ft |-> ft, metas |-> metas, w |-> w, size |-> size,
      base |-> TLCEval(Sub64(size, I8(Len(last))))]      \* where the last part begins
Accepted(in, out) == SelectSeq([k \in 1..Len(in.groups) |-> in.groups[k]], LAMBDA g : GroupFits(g))
\* a page whose size with its header is beyond 32 bits has no entry in an index
Located(L) == \A g \in 1..Len(L.w.gs) : \A c \in 1..Len(L.w.gs[g]) : \A j \in 1..Len(L.w.gs[g][c].pg) :
                L.w.gs[g][c].pg[j].k = 2 \/ Fits31(L.w.gs[g][c].pg[j].cs)
NearLimit(p) == LtS(<<0, 255, 255, 127, 0, 0, 0, 0>>, p.body)

LargeOk(in, out) ==
  LET gs == [k \in 1..Len(in.groups) |-> in.groups[k]]
      ok == SelectSeq(gs, GroupFits)
      near == \E g \in 1..Len(gs) : \E c \in 1..Len(gs[g]) : \E j \in 1..Len(gs[g][c]) : NearLimit(gs[g][c][j])
  IN /\ Chk("writes", \A k \in 1..Len(gs) : IF \A j \in 1..k : GroupFits(gs[j]) THEN "ok" \in DOMAIN out.ops[k]
                                            ELSE GroupFits(gs[k]) \/ "ok" \notin DOMAIN out.ops[k])
     /\ Len(ok) = Len(gs) =>
          IF "ok" \notin DOMAIN out.end THEN Chk("end", near)
          ELSE LET L == TLCEval(LFile(out.parts, gs)) IN
               /\ Chk("footer", L.ft.ok)
               /\ Chk("layout", L.w.ok)
               /\ Chk("rows", F8(L.ft.v, 3) = Sum8(gs, RowsOf8))
               /\ Chk("size", out.end.ok = L.size)
               /\ Chk("pages located", Located(L))

\* the structure an index offset points to, in the last part
AtEnd(out, L, pos) == LET d == TLCEval(Sub64(pos, L.base)) IN
  IF IsNeg(d) \/ ~Fits31(d) \/ NatOf(SubSeq(d, 1, 4)) >= Len(out.parts[Len(out.parts)].b) THEN Bad
  ELSE Struct(out.parts[Len(out.parts)].b, NatOf(SubSeq(d, 1, 4)) + 1)
LocsOf(pg) == LET ds == SelectSeq(pg, IsD) IN
  [j \in 1..Len(ds) |-> <<ds[j].off, ds[j].cs, Sum8(SubSeq(ds, 1, j - 1), LAMBDA x : x.rows)>>]
LargeIndexOk(in, out) ==
  ("ok" \in DOMAIN out.end) =>
    LET gs == [k \in 1..Len(in.groups) |-> in.groups[k]]
        L == TLCEval(LFile(out.parts, gs))
    IN L.w.ok =>
       /\ Chk("read", "rgs" \in DOMAIN out.read /\ Len(out.read.rgs) = Len(gs))
       /\ \A g \in 1..Len(gs) : \A c \in 1..Len(gs[g]) :
            LET ch == ListF(L.metas[g], 1)[c]
                want == TLCEval(LocsOf(L.w.gs[g][c].pg))
                s == TLCEval(AtEnd(out, L, F8(ch, 4)))
                l == out.read.rgs[g].locs
                x == out.read.rgs[g].cols[c]
                ds == Data(gs[g][c])
            IN /\ Chk("offset index", s.ok /\ LET e == ListF(s.v, 1) IN
                        Len(e) = Len(want) /\ \A j \in 1..Len(e) : <<F8(e[j], 1), F8(e[j], 2), F8(e[j], 3)>> = want[j])
               /\ Chk("locations", l # <<>> /\ Len(l[1][c]) = Len(want) /\ \A j \in 1..Len(want) : <<l[1][c][j][1], I8(l[1][c][j][2]), l[1][c][j][3]>> = want[j])
               /\ in.ws => LET s2 == TLCEval(AtEnd(out, L, F8(ch, 6)))
                               ix == out.read.rgs[g].idx IN
                  /\ Chk("null counts", s2.ok /\ LET e == ListF(s2.v, 5) IN Len(e) = Len(ds) /\ \A j \in 1..Len(e) : V8(e[j]) = ds[j].nulls[1])
                  /\ Chk("null counts read", ix # <<>> /\ Len(ix[1][c].pages) = Len(ds) /\ \A j \in 1..Len(ds) :
                           ix[1][c].pages[j].nc # <<>> /\ V8(ix[1][c].pages[j].nc[1]) = ds[j].nulls[1])

LargeReadOk(in, out) ==
  ("ok" \in DOMAIN out.end) =>
    LET gs == [k \in 1..Len(in.groups) |-> in.groups[k]]
        L == TLCEval(LFile(out.parts, gs))
    IN L.w.ok =>
       /\ Chk("read", "rgs" \in DOMAIN out.read /\ Len(out.read.rgs) = Len(gs))
       /\ Chk("rows read", out.read.rows = Sum8(gs, RowsOf8))
       /\ \A g \in 1..Len(gs) :
            LET o == out.read.rgs[g]
                all == Concat([c \in 1..Len(gs[g]) |-> L.w.gs[g][c].pg]) IN
            /\ Chk("group read", o.rows = RowsOf8(gs[g]) /\ o.bytes = Sum8(all, LAMBDA x : x.us) /\ o.csize = Sum8(all, LAMBDA x : x.cs))
            /\ \A c \in 1..Len(gs[g]) : LET pg == L.w.gs[g][c].pg x == o.cols[c] IN
               /\ Chk("chunk read", x.nv = Sum8(Data(gs[g][c]), LAMBDA y : y.n) /\ x.us = Sum8(pg, LAMBDA y : y.us) /\ x.cs = Sum8(pg, LAMBDA y : y.cs))
               /\ Chk("range", x.start = L.w.gs[g][c].start /\ x.len = x.cs)

\* any number of row groups; positions are stored in 16 bits, where they fit
ManyOk(in, out) ==
  /\ Chk("written", "ords" \in DOMAIN out)
  /\ Chk("ordinals", Len(out.ords) = in.groups /\ \A k \in 1..in.groups : out.ords[k] = IF k <= 32768 THEN <<k - 1>> ELSE <<>>)
  /\ Chk("rows", out.rows = VI(in.groups * in.rows) /\ out.back = [n |-> in.groups, rows |-> VI(in.groups * in.rows)])
=============================================================================
