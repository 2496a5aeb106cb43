------------------------------- MODULE Schema -------------------------------
(* Schema trees, their leaves, and the flat form a file stores. A node is a record with name n, repetition r (0
   required, 1 optional, 2 repeated), field id id, converted type c (<<code>> or <<5, precision, scale>>) and logical
   type l, and either children f (a group) or a physical type t with length len (a leaf). *)
EXTENDS Thrift

IsGroup(x) == "f" \in DOMAIN x

RECURSIVE LeavesIn(_, _, _, _, _)
LeavesIn(x, path, def, rep, base) ==
  LET p == Append(path, x.n)
      d == def + (IF x.r = 0 THEN 0 ELSE 1)
      q == rep + (IF x.r = 2 THEN 1 ELSE 0)
  IN IF IsGroup(x) THEN Concat([k \in 1..Len(x.f) |-> LeavesIn(x.f[k], p, d, q, base)])
     ELSE <<[path |-> p, def |-> d, rep |-> q, leaf |-> x, base |-> base]>>
\* the leaves of a schema in depth-first order
Leaves(s) == Concat([k \in 1..Len(s.f) |-> LeavesIn(s.f[k], <<>>, 0, 0, s.f[k])])
\* the leaves without the top-level nodes they are in
OnlyLeaf(x) == [path |-> x.path, def |-> x.def, rep |-> x.rep, leaf |-> x.leaf]
OnlyLeaves(s) == LET L == Leaves(s) IN [k \in 1..Len(L) |-> OnlyLeaf(L[k])]

------------------------------------------------------------------------------
UnitId == [ms |-> 1, us |-> 2, ns |-> 3]
LogicalId == [STRING |-> 1, MAP |-> 2, LIST |-> 3, ENUM |-> 4, DECIMAL |-> 5, DATE |-> 6, TIME |-> 7, TIMESTAMP |-> 8,
              INTEGER |-> 10, UNKNOWN |-> 11, JSON |-> 12, BSON |-> 13, UUID |-> 14]
Empty == VF(<<>>)
LogicalT(l) ==
  VF(LogicalId[l[1]] :>
     (CASE l[1] = "DECIMAL" -> Str(<<1 :> VI(l[3]), 2 :> VI(l[2])>>)
        [] l[1] \in {"TIME", "TIMESTAMP"} -> Str(<<1 :> VB(l[3]), 2 :> VF(UnitId[l[2]] :> Empty)>>)
        [] l[1] = "INTEGER" -> Str(<<1 :> VI(l[2]), 2 :> VB(l[3])>>)
        [] OTHER -> Empty))
\* the flat form: a node before its children
RECURSIVE Flat(_)
Flat(x) ==
  IF IsGroup(x)
  THEN <<Str(<<3 :> VI(x.r), 4 :> VS(x.n), 5 :> VI(Len(x.f)), Opt(6, x.c, VI), Opt(9, x.id, VI),
               IF x.l = <<>> THEN <<>> ELSE 10 :> LogicalT(x.l)>>)>>
       \o Concat([k \in 1..Len(x.f) |-> Flat(x.f[k])])
  ELSE <<Str(<<1 :> VI(x.t), IF x.t = 7 THEN 2 :> VI(x.len) ELSE <<>>, 3 :> VI(x.r), 4 :> VS(x.n), Opt(6, x.c, VI),
               IF Len(x.c) = 3 THEN (7 :> VI(x.c[3])) @@ (8 :> VI(x.c[2])) ELSE <<>>, Opt(9, x.id, VI),
               IF x.l = <<>> THEN <<>> ELSE 10 :> LogicalT(x.l)>>)>>
FlatSchema(s) == <<Str(<<4 :> VS(s.n), 5 :> VI(Len(s.f))>>)>> \o Concat([k \in 1..Len(s.f) |-> Flat(s.f[k])])

------------------------------------------------------------------------------
(* Which annotations a leaf may have (LogicalTypes.md) *)
INT32 == 1  INT64 == 2  BYTE_ARRAY == 6  FIXED == 7
\* decimal digits that fit n bytes of two's complement: the largest p with 10^p - 1 < 2^(8n-1)
Digits(n) == IF n = 0 THEN 0 ELSE IF n > 120 THEN 2147483647 ELSE ((8 * n - 1) * 30103) \div 100000
DecimalOk(t, len, p, s) ==
  /\ p >= 1 /\ 0 <= s /\ s <= p
  /\ CASE t = INT32 -> p <= 9 [] t = INT64 -> p <= 18 [] t = BYTE_ARRAY -> TRUE
       [] t = FIXED -> len <= 268435455 /\ p <= Digits(len)
       [] OTHER -> FALSE
ConvertedOk(t, len, c) ==
  \/ c = <<>>
  \/ CASE c[1] \in {0, 4, 19, 20} -> t = BYTE_ARRAY
       [] c[1] = 5 -> DecimalOk(t, len, c[2], c[3])
       [] c[1] \in {6, 7, 11, 12, 13, 15, 16, 17} -> t = INT32
       [] c[1] \in {8, 9, 10, 14, 18} -> t = INT64
       [] c[1] = 21 -> t = FIXED /\ len = 12
       [] OTHER -> FALSE
LogicalOk(t, len, l) ==
  \/ l = <<>>
  \/ CASE l[1] \in {"STRING", "ENUM", "JSON", "BSON"} -> t = BYTE_ARRAY
       [] l[1] = "DECIMAL" -> DecimalOk(t, len, l[2], l[3])
       [] l[1] \in {"DATE", "UNKNOWN"} -> t = INT32
       [] l[1] = "TIME" -> t = (IF l[2] = "ms" THEN INT32 ELSE INT64)
       [] l[1] = "TIMESTAMP" -> t = INT64
       [] l[1] = "INTEGER" -> t = (IF l[2] = 64 THEN INT64 ELSE INT32)
       [] l[1] = "UUID" -> t = FIXED /\ len = 16
       [] OTHER -> FALSE
TypeOk(x) == ConvertedOk(x.t, x.len, x.c) /\ LogicalOk(x.t, x.len, x.l)
RECURSIVE AllOk(_)
AllOk(x) == IF IsGroup(x) THEN \A k \in 1..Len(x.f) : AllOk(x.f[k]) ELSE TypeOk(x)

------------------------------------------------------------------------------
(* Reading the flat form. An element has optional type ty, length len, repetition r, number of children nc, converted type c,
   precision prec, scale, field id id, logical type l. *)
NoTree == [ok |-> FALSE]
IsLeafEl(e) == e.nc = <<>> \/ (e.nc[1] = 0 /\ e.ty # <<>>)
LeafOf(e) ==
  IF \/ e.ty = <<>> \/ e.r = <<>> \/ (e.ty # <<>> /\ e.ty[1] \notin 0..7) \/ (e.r # <<>> /\ e.r[1] \notin 0..2) THEN NoTree
  ELSE IF e.ty[1] = FIXED /\ (e.len = <<>> \/ (e.len # <<>> /\ e.len[1] < 0)) THEN NoTree
  ELSE IF e.c # <<>> /\ (e.c[1] \notin {0} \cup 4..21 \/ (e.c[1] = 5 /\ (e.prec = <<>> \/ e.scale = <<>>))) THEN NoTree
  ELSE LET x == [n |-> e.n, r |-> e.r[1], id |-> e.id, l |-> e.l, t |-> e.ty[1], len |-> IF e.ty[1] = FIXED THEN e.len[1] ELSE 0,
                 c |-> IF e.c # <<>> /\ e.c[1] = 5 THEN <<5, e.prec[1], e.scale[1]>> ELSE e.c]
       IN IF TypeOk(x) THEN [ok |-> TRUE, v |-> x] ELSE NoTree
GroupOf(e, f) ==
  IF e.r = <<>> \/ (e.r # <<>> /\ e.r[1] \notin 0..2) \/ (e.c # <<>> /\ e.c[1] \notin 1..3) \/ (e.l # <<>> /\ e.l[1] \notin {"MAP", "LIST"}) THEN NoTree
  ELSE [ok |-> TRUE, v |-> [n |-> e.n, r |-> e.r[1], id |-> e.id, c |-> e.c, l |-> e.l, f |-> f]]
\* the node at position k and the position after it
RECURSIVE NodeAt(_, _), KidsAt(_, _, _, _)
NodeAt(el, k) ==
  IF k > Len(el) THEN NoTree
  ELSE IF IsLeafEl(el[k]) THEN LET x == LeafOf(el[k]) IN IF x.ok THEN [ok |-> TRUE, v |-> x.v, n |-> k + 1] ELSE NoTree
  ELSE IF el[k].nc[1] < 0 THEN NoTree
  ELSE LET q == TLCEval(KidsAt(el, k + 1, el[k].nc[1], <<>>)) IN
       IF ~q.ok THEN NoTree
       ELSE LET x == GroupOf(el[k], q.v) IN IF x.ok THEN [ok |-> TRUE, v |-> x.v, n |-> q.n] ELSE NoTree
KidsAt(el, k, m, acc) ==
  IF m = 0 THEN [ok |-> TRUE, v |-> acc, n |-> k]
  ELSE LET x == TLCEval(NodeAt(el, k)) IN IF x.ok THEN KidsAt(el, x.n, m - 1, Append(acc, x.v)) ELSE NoTree
\* the schema: a root group, of which only the name counts, that takes all elements
SchemaOf(el) ==
  IF el = <<>> \/ (el # <<>> /\ (IsLeafEl(el[1]) \/ (~IsLeafEl(el[1]) /\ el[1].nc[1] < 0))) THEN NoTree
  ELSE LET q == TLCEval(KidsAt(el, 2, el[1].nc[1], <<>>)) IN
       IF ~q.ok \/ (q.ok /\ q.n # Len(el) + 1) THEN NoTree ELSE [ok |-> TRUE, v |-> [n |-> el[1].n, f |-> q.v]]

\* whether a node contains another: leaves alike but for annotations, groups field by field by name (the last of a name counts)
RECURSIVE HoldsIn(_, _)
HoldsIn(a, b) ==
  IF IsGroup(a) # IsGroup(b) THEN FALSE
  ELSE IF ~IsGroup(a) THEN a.n = b.n /\ a.r = b.r /\ a.id = b.id /\ a.t = b.t /\ a.len = b.len
  ELSE \A k \in 1..Len(b.f) :
         LET S == {j \in 1..Len(a.f) : a.f[j].n = b.f[k].n}
         IN S # {} /\ HoldsIn(a.f[CHOOSE j \in S : \A m \in S : m <= j], b.f[k])
=============================================================================
