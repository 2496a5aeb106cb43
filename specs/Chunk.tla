------------------------------- MODULE Chunk -------------------------------
(* Reading the pages of a column chunk from a byte stream: what must be yielded, where an error must appear, what the
   filter sees and where the source stands in the end. Everything is derived from the bytes (Thrift.tla). *)
EXTENDS Thrift

Encs == {0, 2, 3, 4, 5, 6, 7, 8, 9}
Bts(v, id) == IF Has(v, id) THEN <<v.f[id].s>> ELSE <<>>
StatRec(v) == [omax |-> Bts(v, 1), omin |-> Bts(v, 2), nc |-> Fld(v, 3), dc |-> Fld(v, 4), max |-> Bts(v, 5), min |-> Bts(v, 6)]
StatF(h, id) == IF Has(h, id) THEN <<StatRec(h.f[id])>> ELSE <<>>
BoolF(h, id) == IF Has(h, id) THEN <<h.f[id].b>> ELSE <<>>
Ints(h, ids) == \A x \in ids : Has(h, x)

\* the data page header a page header holds, as [ok, v]
V1(h) == IF ~(Has(h, 5) /\ Ints(h.f[5], {1, 2, 3, 4})) THEN [ok |-> FALSE]
         ELSE LET d == h.f[5] IN
              [ok |-> /\ IntF(d, 1) >= 0 /\ {IntF(d, 2), IntF(d, 3), IntF(d, 4)} \subseteq Encs,
               v |-> [k |-> 0, n |-> IntF(d, 1), enc |-> IntF(d, 2), de |-> IntF(d, 3), re |-> IntF(d, 4), st |-> StatF(d, 5)]]
V2(h) == IF ~(Has(h, 8) /\ Ints(h.f[8], 1..6)) THEN [ok |-> FALSE]
         ELSE LET d == h.f[8] IN
              [ok |-> IntF(d, 1) >= 0 /\ IntF(d, 4) \in Encs,
               v |-> [k |-> 3, n |-> IntF(d, 1), nulls |-> IntF(d, 2), nrows |-> IntF(d, 3), enc |-> IntF(d, 4),
                      dl |-> IntF(d, 5), rl |-> IntF(d, 6), ic |-> BoolF(d, 7), st |-> StatF(d, 8)]]
Dict(h) == IF ~(Has(h, 7) /\ Ints(h.f[7], {1, 2})) THEN [ok |-> FALSE]
           ELSE [ok |-> IntF(h.f[7], 1) >= 0,
                 v |-> [k |-> 2, n |-> IntF(h.f[7], 1), sorted |-> BoolF(h.f[7], 3) = <<TRUE>>]]

Cmp(max, x) == IF "i" \in DOMAIN max THEN x <= max.i ELSE TRUE
\* the page at position p of B: [ok, n (position after), data, hd (header as a filter sees it), v (the page)]
PageAt(B, p, max, codec) ==
  LET s == TLCEval(Struct(B, p))
      h == s.v
      bad == [ok |-> FALSE]
  IN IF ~s.ok \/ ~Ints(h, {1, 2, 3}) \/ IntF(h, 1) \notin {0, 2, 3} THEN bad
     ELSE LET k == IntF(h, 1)
              d == CASE k = 0 -> V1(h) [] k = 3 -> V2(h) [] OTHER -> Dict(h)
              us == IntF(h, 2) cs == IntF(h, 3)
          IN IF ~d.ok \/ us < 0 \/ cs < 0 THEN bad
             ELSE IF ~Cmp(max, cs) \/ s.n + cs - 1 > Len(B) THEN bad
             ELSE LET body == Sub(B, s.n, cs)
                      r == [body |-> body, us |-> us, codec |-> codec] @@ d.v
                  IN [ok |-> TRUE, n |-> s.n + cs, hl |-> s.n - p, data |-> k # 2, hd |-> [body |-> <<>>] @@ d.v, nv |-> IF k = 2 THEN 0 ELSE d.v.n,
                      v |-> IF k = 2 THEN r ELSE [sel |-> <<>>] @@ r]

Done(seen, total) == IF "i" \in DOMAIN total THEN seen >= total.i ELSE IsNeg(total.big)
Accepts(f, call) == f = <<>> \/ f[((call - 1) % Len(f)) + 1]
IsErr(e) == "err" \in DOMAIN e
\* a limit so small that the header itself may exceed it
Tight(max, pg) == "i" \in DOMAIN max /\ max.i < 8 * pg.hl + 64

\* ob.events from j on are those of reading B from position p with seen values and c filter calls behind
RECURSIVE Follow(_, _, _, _, _, _)
Follow(in, ob, p, seen, c, j) ==
  LET E == ob.events IN
  IF Done(seen, in.total)
  THEN /\ Chk("ends with the declared values", j = Len(E) + 1)
       /\ Chk("position of the source", ob.pos = p - 1)
       /\ Chk("filter calls", Len(ob.filt) = c)
  ELSE LET pg == TLCEval(PageAt(in.bytes, p, in.max, in.codec)) IN
       IF ~pg.ok THEN /\ Chk("error", j = Len(E) /\ IsErr(E[j]))
                      /\ Chk("filter calls before the error", Len(ob.filt) \in {c, c + 1})
       ELSE IF Tight(in.max, pg) /\ j = Len(E) /\ IsErr(E[j]) THEN TRUE
       ELSE IF pg.data
            THEN /\ Chk("filter call", Len(ob.filt) > c /\ ob.filt[c + 1] = pg.hd)
                 /\ IF Accepts(in.filter, c + 1)
                    THEN Chk("data page", j <= Len(E) /\ E[j] = pg.v) /\ Follow(in, ob, pg.n, seen + pg.nv, c + 1, j + 1)
                    ELSE Follow(in, ob, pg.n, seen + pg.nv, c + 1, j)
            ELSE /\ Chk("dictionary page", j <= Len(E) /\ E[j] = pg.v)
                 /\ Follow(in, ob, pg.n, seen, c, j + 1)
\* no allocation is beyond the limit, but for what small things take
Frugal(in, ob) == "i" \in DOMAIN in.max /\ in.max.i < 2^24 => ob.big <= 2 * in.max.i + 2^21
Reads(in, ob) == Follow(in, ob, in.pos + 1, 0, 0, 1) /\ Chk("allocations", Frugal(in, ob))
=============================================================================
