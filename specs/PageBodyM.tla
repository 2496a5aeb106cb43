------------------------------ MODULE PageBodyM ------------------------------
(* Building and reading a page body. A page is built from rows of levels and values - the levels as single-value runs or as
   bit-packed groups, lengths before the sections or in the header, values plain or as indices of a dictionary; a reader goes
   through the rows, taking a value for every row at the maximum definition level. Checked: reading the body's bytes (PageBody)
   gives the rows it was built from, as does the row-by-row reader. Every page of the scope is replayed into the splitting and
   iteration functions. *)
EXTENDS PageBody, Json, IOUtils

CONSTANTS MaxN
VARIABLES pg, i, used, given
vars == <<pg, i, used, given>>
Types == {"i32", "binary", "bool", "fixed"}
Item(ty, k) == CASE ty = "i32" -> <<k, 0, 1, 255>> [] ty = "binary" -> [j \in 1..(k % 3) |-> k + j] [] ty = "bool" -> <<k % 2>> [] ty = "fixed" -> <<k, 7>>
Plain(ty, vs) == IF ty = "bool" THEN Pack([j \in 1..Len(vs) |-> <<vs[j][1], 0, 0, 0>>], 1)
                 ELSE Concat([j \in 1..Len(vs) |-> IF ty = "binary" THEN LE(Len(vs[j]), 4) \o vs[j] ELSE vs[j]])
EncLevels(l, max, how) ==
  IF max = 0 THEN <<>>
  ELSE IF how = "rle" THEN EncRuns([j \in 1..Len(l) |-> [k |-> "rle", v |-> <<l[j], 0, 0, 0>>, n |-> 1, vs |-> <<>>, g |-> 0]], Width(max))
  ELSE EncRuns(<<[k |-> "bp", v |-> <<>>, n |-> 0, g |-> CeilDiv(Len(l), 8), vs |-> [j \in 1..Len(l) |-> <<l[j], 0, 0, 0>>]]>>, Width(max))
CountMax(d, max) == FoldLeft(LAMBDA a, x : a + (IF x = max THEN 1 ELSE 0), 0, d)
\* an abstract page
Abstract(m, mr, md) == {[n |-> m, ty |-> ty, v2 |-> v2, dct |-> dct, how |-> how, maxrep |-> mr, maxdef |-> md, rep |-> r, def |-> d]
                        : ty \in Types, v2 \in BOOLEAN, dct \in BOOLEAN, how \in {"rle", "bp"},
                          r \in {[j \in 1..m |-> IF mr = 1 /\ j % 2 = 0 THEN 1 ELSE 0]}, d \in [1..m -> 0..md]}
Pages == {a \in UNION {Abstract(m, mr, md) : m \in 0..MaxN, mr \in {0, 1}, md \in {0, 1, 2}} : a.ty = "bool" => ~a.dct}
Dict(ty) == <<Item(ty, 5), Item(ty, 9), Item(ty, 13)>>
Index(k) == (k * 2) % 3
Vals(a) == [k \in 1..CountMax(a.def, a.maxdef) |-> IF a.dct THEN Dict(a.ty)[Index(k) + 1] ELSE Item(a.ty, k)]
Rows(a) == [k \in 1..a.n |-> IF a.def[k] = a.maxdef THEN <<Vals(a)[CountMax(SubSeq(a.def, 1, k), a.maxdef)]>> ELSE <<>>]
Build(a) ==
  LET r == EncLevels(a.rep, a.maxrep, a.how)
      d == EncLevels(a.def, a.maxdef, a.how)
      m == CountMax(a.def, a.maxdef)
      v == IF a.dct THEN <<2>> \o (IF m = 0 THEN <<>> ELSE EncRuns(<<[k |-> "bp", v |-> <<>>, n |-> 0, g |-> CeilDiv(m, 8), vs |-> [j \in 1..m |-> <<Index(j), 0, 0, 0>>]]>>, 2))
           ELSE Plain(a.ty, Vals(a))
      pre(s, has) == IF a.v2 THEN s ELSE IF has THEN LE(Len(s), 4) \o s ELSE <<>>
  IN [v2 |-> a.v2, maxrep |-> a.maxrep, maxdef |-> a.maxdef, opt |-> a.maxdef > 0, n |-> a.n, body |-> pre(r, a.maxrep > 0) \o pre(d, a.maxdef > 0) \o v,
      rlen |-> Len(r), dlen |-> Len(d), enc |-> IF a.dct THEN "rle_dict" ELSE "plain", ty |-> a.ty, size |-> 2,
      dict |-> IF a.dct THEN <<Dict(a.ty)>> ELSE <<>>, sel |-> IF a.n >= 2 THEN <<<<1, a.n - 1>>>> ELSE <<>>]
Init == pg \in Pages /\ i = 0 /\ used = 0 /\ given = <<>>
Read == /\ i < pg.n
        /\ i' = i + 1
        /\ IF pg.def[i + 1] = pg.maxdef THEN used' = used + 1 /\ given' = Append(given, <<Vals(pg)[used + 1]>>)
           ELSE used' = used /\ given' = Append(given, <<>>)
        /\ UNCHANGED pg
Spec == Init /\ [][Read]_vars /\ WF_vars(Read)
IsRows == given = SubSeq(Rows(pg), 1, i)
BytesSay == i = 0 => LET p == TLCEval(Build(pg)) s == TLCEval(SplitBody(p)) IN
                     /\ RowsOf(p) = [k |-> "ok", rows |-> Rows(pg)]
                     /\ LevelsOf(s.rep, pg.maxrep, pg.n) = [ok |-> TRUE, l |-> pg.rep]
                     /\ LevelsOf(s.def, pg.maxdef, pg.n) = [ok |-> TRUE, l |-> pg.def]
AllUsed == i = pg.n => used = Len(Vals(pg))
Finishes == <>(i = pg.n)
Cases == {LET p == TLCEval(Build(a)) s == TLCEval(SplitBody(p)) r == TLCEval(Rows(a)) IN
          p @@ [expect |-> [split |-> [rep |-> s.rep, def |-> s.def, vals |-> s.vals], levels |-> [rep |-> a.rep, def |-> a.def],
                            state |-> [rows |-> r, sel |-> IF p.sel = <<>> THEN <<>> ELSE SubSeq(r, 2, a.n)]]] : a \in Pages}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
