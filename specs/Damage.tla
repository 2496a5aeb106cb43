------------------------------ MODULE Damage ------------------------------
(* Reading a file whatever its bytes are: where the opened metadata says a chunk lies, what the bytes there hold is
   yielded, page by page, up to the first page that cannot be read, and each page then goes through its stages -
   decompressed, split, decoded, its statistics read - to a result or an error of its own. `heads` are the positions of
   structures known to have the field types of the format; of others nothing is said (their reader need not notice). *)
EXTENDS Chunk, PageBody

Limit == 1048576
Sat(a, b) == IF a > 2147483647 - b THEN 2147483647 ELSE a + b
Fits(x) == "i" \in DOMAIN x

\* E from j on are the pages of B from position p on (a position of B is h more than one of the file)
RECURSIVE Walk(_, _, _, _, _, _, _, _)
Walk(B, heads, h, c, E, p, seen, j) ==
  IF Done(seen, c.total) THEN Chk("ends with the declared values", j = Len(E) + 1)
  ELSE IF p > Len(B) THEN Chk("the bytes end", j = Len(E) /\ IsErr(E[j]))
  ELSE IF p + h \notin heads.page THEN TRUE
  ELSE LET pg == TLCEval(PageAt(B, p, [i |-> Limit], c.codec)) IN
       IF ~pg.ok THEN Chk("unreadable page", j = Len(E) /\ IsErr(E[j]))
       ELSE Chk("page", j <= Len(E) /\ E[j] = pg.v) /\ Walk(B, heads, h, c, E, pg.n, Sat(seen, pg.nv), j + 1)

Size(c) == CASE c.ty = "bool" -> 1 [] c.ty = "fixed" -> c.len [] OTHER -> Sizes[c.ty]
StatOk(c, st) == c.ty = "binary" \/ \A f \in {"max", "min"} : st[f] # <<>> => Len(st[f][1]) = Size(c)
StatStage(c, st, o) == o = IF st = <<>> THEN "none" ELSE IF StatOk(c, st[1]) THEN "ok" ELSE "err"

\* a page's body in the terms of PageBody; d: number of entries of the dictionary, -1 without one
EncName(e) == CASE e = 0 -> "plain" [] e = 2 -> "dict" [] e = 8 -> "rle_dict" [] e = 3 -> "rle" [] e = 5 -> "delta" [] OTHER -> "other"
BodyOf(c, e, d) ==
  [v2 |-> e.k = 3, maxrep |-> c.maxrep, maxdef |-> c.maxdef, opt |-> c.opt, n |-> e.n, body |-> e.body,
   rlen |-> IF e.k = 3 THEN e.rl ELSE 0, dlen |-> IF e.k = 3 THEN e.dl ELSE 0, enc |-> EncName(e.enc), ty |-> c.ty, size |-> c.len,
   dict |-> IF d < 0 THEN <<>> ELSE <<[x \in 1..d |-> <<>>]>>]
Plain(c, e) == c.codec = 0 \/ (e.k = 3 /\ e.ic = <<FALSE>>)
\* with a codec in place, a page that declares values as they are may be refused when its sizes cannot be right
Refusable(c, e, b) == c.codec # 0 /\ (~SplitBody(b).ok \/ e.us # Len(e.body))
UseOk(c, e, d, u) ==
  IF IsErr(e) THEN u = <<"error">>
  ELSE IF e.us > Limit THEN u = <<"large">>
  ELSE IF e.k = 2 THEN IF c.codec = 0 THEN u = <<"none", "dict">> ELSE u[1] = "none"
  ELSE /\ Chk("statistics of the page", StatStage(c, e.st, u[1]))
       /\ Plain(c, e) =>
            LET b == BodyOf(c, e, d) IN
            IF e.n > 5000 THEN u[2] = "many" \/ (Refusable(c, e, b) /\ u[2] = "undec")
            ELSE LET r == TLCEval(RowsOf(b)) IN
                 /\ Chk("split", u[2] = (IF SplitBody(b).ok THEN "ok" ELSE "err") \/ (Refusable(c, e, b) /\ u[2] = "undec"))
                 /\ Chk("decoded", u[2] = "undec" \/ CASE r.k = "err" -> u[3] = -1 [] r.k = "ok" -> u[3] = e.n [] OTHER -> TRUE)
\* entries of the dictionary before page j (-1: none, or unknown because it was too large or compressed)
DictAt(c, E, j) ==
  LET ds == {x \in 1..(j - 1) : ~IsErr(E[x]) /\ E[x].k = 2} IN
  IF ds = {} THEN -1 ELSE LET e == E[CHOOSE x \in ds : \A y \in ds : y <= x] IN IF e.n > 1000 THEN 1000 ELSE e.n
DictKnown(c, E, j) == \A x \in 1..(j - 1) : IsErr(E[x]) \/ E[x].k # 2 \/ (c.codec = 0 /\ E[x].us <= Limit)
UsesOk(c, E, U) ==
  /\ Chk("stages of every page", Len(U) = Len(E))
  /\ \A j \in 1..Len(E) : DictKnown(c, E, j) => Chk("stages", UseOk(c, E[j], DictAt(c, E, j), U[j]))

\* an index structure: where it is said to be, what reading it gives
Absent(at) == at[1] = <<>>
BadPlace(B, at) ==
  \/ at[2] = <<>>
  \/ at[2][1] < 0
  \/ ~Fits(at[1][1])
  \/ at[1][1].i < 0
  \/ at[1][1].i > Len(B)
  \/ at[2][1] > Len(B) - at[1][1].i
AllInts(l, ids) == \A k \in 1..Len(l) : Ints(l[k], ids)
Loc(v) == <<v.f[1], IntF(v, 2), v.f[3]>>
LocsStage(B, heads, at, o) ==
  IF Absent(at) THEN o = [ok |-> <<>>]
  ELSE IF BadPlace(B, at) THEN IsErr(o)
  ELSE IF at[1][1].i + 1 \notin heads THEN TRUE
  ELSE LET s == TLCEval(Struct(SubSeq(B, 1, at[1][1].i + at[2][1]), at[1][1].i + 1)) IN
       IF ~s.ok \/ ~HasList(s.v, 1) THEN IsErr(o)
       ELSE IF ~AllInts(ListF(s.v, 1), {1, 2, 3}) THEN IsErr(o)
       ELSE ~IsErr(o) /\ o.ok = <<[k \in 1..Len(ListF(s.v, 1)) |-> Loc(ListF(s.v, 1)[k])]>>
\* bounds of page k of a column index
BoundOk(c, x) == c.ty \in {"binary", "fixed"} \/ (c.ty = "bool" /\ Len(x) >= 1) \/ (c.ty # "bool" /\ Len(x) = Sizes[c.ty])
Odd(c, x) == (c.ty = "bool" /\ x \notin {<<0>>, <<1>>}) \/ (c.ty = "fixed" /\ Len(x) # c.len)
IndexStage(B, heads, c, o) ==
  LET at == c.ixat IN
  IF Absent(at) THEN o = [ok |-> <<>>]
  ELSE IF BadPlace(B, at) THEN IsErr(o)
  ELSE IF at[1][1].i + 1 \notin heads THEN TRUE
  ELSE LET s == TLCEval(Struct(SubSeq(B, 1, at[1][1].i + at[2][1]), at[1][1].i + 1)) IN
       IF ~s.ok \/ \E f \in {1, 2, 3} : ~HasList(s.v, f) THEN IsErr(o)
       ELSE IF ~Has(s.v, 4) THEN IsErr(o)
       ELSE LET nul == ListF(s.v, 1) mn == ListF(s.v, 2) mx == ListF(s.v, 3) n == Len(nul) IN
            IF IntF(s.v, 4) \notin 0..2 THEN IsErr(o)
            \* an entry of each list for every page
            ELSE IF Len(mn) # n \/ Len(mx) # n \/ (HasList(s.v, 5) /\ Len(ListF(s.v, 5)) # n) THEN IsErr(o)
            ELSE IF \E k \in 1..n : ~nul[k].b /\ ~(BoundOk(c, mn[k].s) /\ BoundOk(c, mx[k].s)) THEN IsErr(o)
            ELSE \/ \E k \in 1..n : ~nul[k].b /\ (Odd(c, mn[k].s) \/ Odd(c, mx[k].s))
                 \/ /\ ~IsErr(o) /\ Len(o.ok) = 1
                    /\ o.ok[1].order = IntF(s.v, 4)
                    /\ o.ok[1].pages = [k \in 1..n |-> [min |-> IF nul[k].b THEN <<>> ELSE <<mn[k].s>>, max |-> IF nul[k].b THEN <<>> ELSE <<mx[k].s>>,
                                                     nc |-> IF HasList(s.v, 5) THEN <<ListF(s.v, 5)[k]>> ELSE <<>>]]

BF == INSTANCE Bloom
BloomStage(B, heads, c) ==
  IF c.bloomat = <<>> THEN c.bloom = "ok" /\ c.bits = <<>>
  ELSE LET a == c.bloomat[1] far == IF Fits(a) THEN a.i < 0 \/ a.i > Len(B) ELSE TRUE IN
       IF far THEN c.bloom = "err"
       ELSE /\ Len(c.bits) <= Len(B)
            /\ a.i + 1 \in heads =>
                 LET s == TLCEval(BF!StoredFilter(B, a.i)) IN
                 CASE s.k = "std" -> c.bloom = "ok" /\ c.bits = s.bits
                   [] s.k = "bad" -> c.bloom = "err"
                   [] s.k = "other" -> c.bloom = "err" \/ c.bits = <<>>
                   [] OTHER -> TRUE

ChunkOk(B, heads, c) ==
  LET far == IF Fits(c.start) THEN c.start.i > Len(B) ELSE TRUE
      past == \/ far
              \/ ~Fits(c.size)
              \/ c.size.i > Len(B) - c.start.i
  IN /\ IF far THEN Chk("nothing there", Done(0, c.total) \/ (Len(c.direct) = 1 /\ IsErr(c.direct[1])))
        ELSE Chk("pages from the file", Walk(B, heads, 0, c, c.direct, c.start.i + 1, 0, 1))
     /\ Chk("sync and async", c.asame)
     /\ IF past THEN Chk("a range past the end", c.chunk = -1 \/ (c.chunk = 0 /\ c.size = [i |-> 0]))
        ELSE /\ Chk("chunk", c.chunk = c.size.i)
             /\ LET C == SubSeq(B, c.start.i + 1, c.start.i + c.size.i) IN Chk("pages of the chunk read before", Walk(C, heads, c.start.i, c, c.read, 1, 0, 1))
     /\ Chk("statistics of the chunk", StatStage(c, c.st, c.stats))
     /\ UsesOk(c, c.direct, c.use)
     /\ Chk("page locations", LocsStage(B, heads.loc, c.locat, c.locs))
     /\ Chk("column index", IndexStage(B, heads.ix, c, c.ix))
     /\ Chk("bloom filter", BloomStage(B, heads.bloom, c))
=============================================================================
