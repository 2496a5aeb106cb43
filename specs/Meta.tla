-------------------------------- MODULE Meta --------------------------------
(* File metadata as a Thrift value: which values describe a file, what a reader sees in them, and the normal form they are
   stored in again. *)
EXTENDS Schema

Neg(v) == IF "big" \in DOMAIN v THEN IsNeg(v.big) ELSE v.i < 0
\* integers as 8 bytes and back
To8(v) == IF "big" \in DOMAIN v THEN v.big ELSE IF v.i >= 0 THEN LE(v.i, 8) ELSE NotB(LE(-(v.i + 1), 8))
From8(b) == IF b[4] < 128 /\ \A k \in 5..8 : b[k] = 0 THEN VI(NatOf(SubSeq(b, 1, 4)))
            ELSE IF b[4] >= 128 /\ \A k \in 5..8 : b[k] = 255 THEN VI(-NatOf(NotB(SubSeq(b, 1, 4))) - 1)
            ELSE [big |-> b]
NumV(v) == From8(To8(v))
NumF(v, id) == NumV(v.f[id])
OptNum(v, id) == IF Has(v, id) THEN <<NumF(v, id)>> ELSE <<>>
Sum8(vs) == From8(FoldLeft(LAMBDA a, v : Add64(a, To8(v)), Zeros(8), vs))
OptS(v, id) == IF Has(v, id) THEN <<v.f[id].s>> ELSE <<>>

UnitOf(v) == CASE Has(v, 1) -> "ms" [] Has(v, 2) -> "us" [] OTHER -> "ns"
LogicalOf(v) ==
  LET id == CHOOSE k \in DOMAIN v.f : TRUE
      nm == CHOOSE x \in DOMAIN LogicalId : LogicalId[x] = id
      a == v.f[id]
  IN CASE nm = "DECIMAL" -> <<nm, a.f[2].i, a.f[1].i>>
       [] nm \in {"TIME", "TIMESTAMP"} -> <<nm, UnitOf(a.f[2]), a.f[1].b>>
       [] nm = "INTEGER" -> <<nm, a.f[1].i, a.f[2].b>>
       [] OTHER -> <<nm>>
ElementOf(v) == [n |-> v.f[4].s, ty |-> OptInt(v, 1), len |-> OptInt(v, 2), r |-> OptInt(v, 3), nc |-> OptInt(v, 5), c |-> OptInt(v, 6),
                 scale |-> OptInt(v, 7), prec |-> OptInt(v, 8), id |-> OptInt(v, 9), l |-> IF Has(v, 10) THEN LogicalOf(v.f[10]) ELSE <<>>]
SchemaIn(V) == SchemaOf([k \in 1..Len(ListF(V, 2)) |-> ElementOf(ListF(V, 2)[k])])

Groups(V) == ListF(V, 4)
ColumnOk(c) == /\ Has(c, 3)
               /\ LET m == c.f[3] IN ~Neg(m.f[7]) /\ ~Neg(m.f[9]) /\ (Has(m, 11) => ~Neg(m.f[11])) /\ IntF(m, 4) \in 0..7
GroupOk(g, ncols) == /\ Len(ListF(g, 1)) = ncols /\ ~Neg(g.f[2]) /\ ~Neg(g.f[3])
                     /\ \A k \in 1..ncols : ColumnOk(ListF(g, 1)[k])
\* describes a file of this schema
MetaOk(V, s) == /\ ~Neg(V.f[3])
                /\ \A k \in 1..Len(Groups(V)) : GroupOk(Groups(V)[k], Len(Leaves(s)))

Start8(m) == IF Has(m, 11) THEN NumF(m, 11) ELSE NumF(m, 9)
\* the offset of a row group is that of its first column
GroupStart(g) == IF ListF(g, 1) = <<>> THEN <<>>
                 ELSE LET m == ListF(g, 1)[1].f[3] IN
                      <<IF Has(m, 11) /\ NumF(m, 11) # VI(0) THEN NumF(m, 11) ELSE NumF(m, 9)>>
GroupSize(g) == Sum8([k \in 1..Len(ListF(g, 1)) |-> ListF(g, 1)[k].f[3].f[7]])
Id(x) == x
NormalGroup(g) == Str(<<1 :> g.f[1], 2 :> g.f[2], 3 :> g.f[3], Opt(5, GroupStart(g), Id), 6 :> GroupSize(g)>>)
Orders(V, s) == IF Has(V, 7) THEN <<Min2(Len(ListF(V, 7)), Len(Leaves(s)))>> ELSE <<>>
\* the value that is stored again
Normal(V, s) ==
  Str(<<1 :> V.f[1], 2 :> VL(FlatSchema(s)), 3 :> V.f[3],
        4 :> VL([k \in 1..Len(Groups(V)) |-> NormalGroup(Groups(V)[k])]),
        IF Has(V, 5) THEN 5 :> V.f[5] ELSE <<>>, IF Has(V, 6) THEN 6 :> V.f[6] ELSE <<>>,
        IF Has(V, 7) THEN 7 :> VL([k \in 1..Orders(V, s)[1] |-> VF(1 :> Empty)]) ELSE <<>>>>)
Filtered(V, keep(_)) == [V EXCEPT !.f[4] = VL([j \in 1..Len(SelectSeq([k \in 1..Len(Groups(V)) |-> k], keep)) |->
                                                Groups(V)[SelectSeq([k \in 1..Len(Groups(V)) |-> k], keep)[j]]])]

------------------------------------------------------------------------------
(* Enumerations of the format *)
CodecNames == <<"Uncompressed", "Snappy", "Gzip", "Lzo", "Brotli", "Lz4", "Zstd", "Lz4Raw">>                 \* 0..7
EncodingNames == (0 :> "Plain") @@ (2 :> "PlainDictionary") @@ (3 :> "Rle") @@ (4 :> "BitPacked") @@ (5 :> "DeltaBinaryPacked")
                 @@ (6 :> "DeltaLengthByteArray") @@ (7 :> "DeltaByteArray") @@ (8 :> "RleDictionary") @@ (9 :> "ByteStreamSplit")
PageNames == (0 :> "DataPage") @@ (2 :> "DictionaryPage") @@ (3 :> "DataPageV2")
RepetitionNames == <<"Required", "Optional", "Repeated">>                                                       \* 0..2
TypeNames == <<"Boolean", "Int32", "Int64", "Int96", "Float", "Double", "ByteArray", "FixedLenByteArray(9)">>   \* 0..7
ConvertedNames == (0 :> "Utf8") @@ (4 :> "Enum") @@ (5 :> "Decimal(7, 3)") @@ (6 :> "Date") @@ (7 :> "TimeMillis") @@ (8 :> "TimeMicros")
                  @@ (9 :> "TimestampMillis") @@ (10 :> "TimestampMicros") @@ (11 :> "Uint8") @@ (12 :> "Uint16") @@ (13 :> "Uint32") @@ (14 :> "Uint64")
                  @@ (15 :> "Int8") @@ (16 :> "Int16") @@ (17 :> "Int32") @@ (18 :> "Int64") @@ (19 :> "Json") @@ (20 :> "Bson") @@ (21 :> "Interval")
GroupNames == (1 :> "Map") @@ (2 :> "MapKeyValue") @@ (3 :> "List")
From0(s) == [k \in 0..(Len(s) - 1) |-> s[k + 1]]

\* the order of a leaf's values: by its logical type, else its converted type, else its physical type
SortOrder(x) ==
  IF x.l # <<>> THEN CASE x.l[1] \in {"STRING", "ENUM", "JSON", "BSON", "UUID"} -> "Unsigned"
                       [] x.l[1] = "INTEGER" -> IF x.l[3] THEN "Signed" ELSE "Unsigned"
                       [] x.l[1] = "UNKNOWN" -> "Undefined"
                       [] OTHER -> "Signed"
  ELSE IF x.c # <<>> THEN CASE x.c[1] \in {0, 4, 19, 20, 11, 12, 13, 14} -> "Unsigned"
                             [] x.c[1] = 21 -> "Undefined"
                             [] OTHER -> "Signed"
  ELSE CASE x.t \in {0, 6, 7} -> "Unsigned" [] x.t = 3 -> "Undefined" [] OTHER -> "Signed"
=============================================================================
