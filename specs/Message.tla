------------------------------ MODULE Message ------------------------------
(* The message-type language: bytes to tokens, and tokens to a schema by recursive descent. A token is a sequence of bytes:
   one delimiter, or a longest run of bytes that are neither delimiters nor white space. Keywords are read in any letter case,
   but for the leading `message`; names are any token but a delimiter. *)
EXTENDS Schema

White == {9, 10, 11, 12, 13, 32}
Delims == {59, 123, 125, 40, 41, 61, 44}            \* ; { } ( ) = ,
Tokens(B) ==
  LET step(a, b) == IF b \in White THEN (IF a.cur = <<>> THEN a ELSE [out |-> Append(a.out, a.cur), cur |-> <<>>])
                    ELSE IF b \in Delims THEN [out |-> (IF a.cur = <<>> THEN a.out ELSE Append(a.out, a.cur)) \o <<<<b>>>>, cur |-> <<>>]
                    ELSE [a EXCEPT !.cur = Append(@, b)]
      end == FoldLeft(step, [out |-> <<>>, cur |-> <<>>], B)
  IN IF end.cur = <<>> THEN end.out ELSE Append(end.out, end.cur)

\* bytes of letters, digits and underscores as text, in upper case; other bytes as "?"
Letters == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Digits10 == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
CharOf(b) == IF b \in 65..90 THEN Letters[b - 64] ELSE IF b \in 97..122 THEN Letters[b - 96]
             ELSE IF b \in 48..57 THEN Digits10[b - 47] ELSE IF b = 95 THEN "_" ELSE "?"
Key(t) == IF Len(t) > 24 THEN "?" ELSE FoldLeft(LAMBDA a, b : a \o CharOf(b), "", t)
MESSAGE == <<109, 101, 115, 115, 97, 103, 101>>
Semi == <<59>>  Open == <<123>>  Close == <<125>>  LPar == <<40>>  RPar == <<41>>  Equal == <<61>>  Comma == <<44>>
IsName(t) == t # <<>> /\ ~(Len(t) = 1 /\ t[1] \in Delims)
\* decimal integers of 32 bits: an optional sign and digits
RECURSIVE Decimal(_, _, _)
Decimal(ds, acc, sign) ==
  IF ds = <<>> THEN [ok |-> TRUE, v |-> acc]
  ELSE LET d == ds[1] - 48 IN
       IF ds[1] \notin 48..57 THEN [ok |-> FALSE]
       ELSE IF sign > 0 THEN (IF acc > 214748364 \/ (acc = 214748364 /\ d > 7) THEN [ok |-> FALSE] ELSE Decimal(Tail(ds), acc * 10 + d, sign))
       ELSE (IF acc < -214748364 \/ (acc = -214748364 /\ d > 8) THEN [ok |-> FALSE] ELSE Decimal(Tail(ds), acc * 10 - d, sign))
Int10(t) == IF t = <<>> THEN [ok |-> FALSE]
          ELSE IF t[1] \in {43, 45} THEN (IF Len(t) = 1 THEN [ok |-> FALSE] ELSE Decimal(Tail(t), 0, IF t[1] = 43 THEN 1 ELSE -1))
          ELSE Decimal(t, 0, 1)

Reps == [REQUIRED |-> 0, OPTIONAL |-> 1, REPEATED |-> 2]
Types == [BOOLEAN |-> 0, INT32 |-> 1, INT64 |-> 2, INT96 |-> 3, FLOAT |-> 4, DOUBLE |-> 5, BYTE_ARRAY |-> 6, BINARY |-> 6, FIXED_LEN_BYTE_ARRAY |-> 7]
GroupConverted == [MAP |-> 1, MAP_KEY_VALUE |-> 2, LIST |-> 3]
Converted == [UTF8 |-> 0, TIME_MILLIS |-> 7, TIME_MICROS |-> 8, TIMESTAMP_MILLIS |-> 9, TIMESTAMP_MICROS |-> 10, UINT_8 |-> 11, UINT_16 |-> 12,
              UINT_32 |-> 13, UINT_64 |-> 14, INT_8 |-> 15, INT_16 |-> 16, INT_32 |-> 17, INT_64 |-> 18]
Plain == {"STRING", "ENUM", "DATE", "JSON", "BSON", "UUID", "UNKNOWN"}
Units == [MILLIS |-> "ms", MICROS |-> "us", NANOS |-> "ns"]
Bools == [TRUE |-> TRUE, FALSE |-> FALSE]

No == [ok |-> FALSE]
Yes(n, v) == [ok |-> TRUE, n |-> n, v |-> v]
At(T, k) == IF k <= Len(T) THEN T[k] ELSE <<>>
\* ( integer ): the length of fixed-length byte arrays
LengthAt(T, k) == IF At(T, k) = LPar /\ Int10(At(T, k + 1)).ok /\ At(T, k + 2) = RPar THEN Yes(k + 3, Int10(At(T, k + 1)).v) ELSE No
\* ( integer [, integer] )
DecimalArgs(T, k) ==
  IF ~Int10(At(T, k + 1)).ok THEN No
  ELSE LET p == Int10(At(T, k + 1)).v IN
       IF At(T, k + 2) = RPar THEN Yes(k + 3, <<"DECIMAL", p, 0>>)
       ELSE IF At(T, k + 2) = Comma /\ Int10(At(T, k + 3)).ok /\ At(T, k + 4) = RPar THEN Yes(k + 5, <<"DECIMAL", p, Int10(At(T, k + 3)).v>>)
       ELSE No
\* ( unit [, boolean] )
TimeArgs(T, k, name) ==
  LET u == Key(At(T, k + 1)) z == Key(At(T, k + 3)) IN
  IF u \notin DOMAIN Units THEN No
  ELSE IF At(T, k + 2) = RPar THEN Yes(k + 3, <<name, Units[u], FALSE>>)
  ELSE IF At(T, k + 2) = Comma /\ z \in DOMAIN Bools /\ At(T, k + 4) = RPar THEN Yes(k + 5, <<name, Units[u], Bools[z]>>)
  ELSE No
\* ( width , boolean )
IntegerArgs(T, k) ==
  LET w == Int10(At(T, k + 1)) z == Key(At(T, k + 3)) IN
  IF At(T, k) = LPar /\ w.ok /\ At(T, k + 2) = Comma /\ z \in DOMAIN Bools /\ At(T, k + 4) = RPar
  THEN (IF w.v \in {8, 16, 32, 64} THEN Yes(k + 5, <<"INTEGER", w.v, Bools[z]>>) ELSE No)
  ELSE No
\* the annotation of a leaf, after its opening parenthesis: <<converted, logical>>
AnnotationAt(T, k) ==
  LET a == Key(At(T, k)) args == At(T, k + 1) = LPar
      L(q) == IF q.ok THEN Yes(q.n, <<<<>>, q.v>>) ELSE No
      q == IF a \in Plain THEN Yes(k + 1, <<<<>>, <<a>>>>)
           ELSE IF a = "DECIMAL" /\ args THEN L(DecimalArgs(T, k + 1))
           ELSE IF a \in {"TIME", "TIMESTAMP"} THEN (IF args THEN L(TimeArgs(T, k + 1, a)) ELSE Yes(k + 1, <<<<>>, <<a, "ms", FALSE>>>>))
           ELSE IF a = "INTEGER" THEN L(IntegerArgs(T, k + 1))
           ELSE IF a \in DOMAIN Converted THEN Yes(k + 1, <<<<Converted[a]>>, <<>>>>)
           ELSE No
  IN IF q.ok THEN (IF At(T, q.n) = RPar THEN Yes(q.n + 1, q.v) ELSE No) ELSE No
IdAt(T, k) == IF At(T, k) # Equal THEN Yes(k, <<>>) ELSE IF Int10(At(T, k + 1)).ok THEN Yes(k + 2, <<Int10(At(T, k + 1)).v>>) ELSE No
LeafAt(T, k, r, t) ==
  LET l == IF t = FIXED THEN LengthAt(T, k) ELSE Yes(k, 0) IN
  IF ~l.ok THEN No
  ELSE IF l.v < 0 \/ ~IsName(At(T, l.n)) THEN No
  ELSE LET a == IF At(T, l.n + 1) = LPar THEN AnnotationAt(T, l.n + 2) ELSE Yes(l.n + 1, <<<<>>, <<>>>>) IN
       IF ~a.ok THEN No
       ELSE LET i == IdAt(T, a.n) IN
            IF ~i.ok THEN No
            ELSE LET x == [n |-> At(T, l.n), r |-> r, id |-> i.v, c |-> a.v[1], l |-> a.v[2], t |-> t, len |-> l.v]
                 IN IF At(T, i.n) = Semi /\ TypeOk(x) THEN Yes(i.n + 1, x) ELSE No
RECURSIVE FieldAt(_, _), FieldsAt(_, _, _)
FieldAt(T, k) ==
  LET r == Key(At(T, k)) t == Key(At(T, k + 1)) IN
  IF r \notin DOMAIN Reps THEN No
  ELSE IF t \in DOMAIN Types THEN LeafAt(T, k + 2, Reps[r], Types[t])
  ELSE IF t # "GROUP" \/ ~IsName(At(T, k + 2)) THEN No
  ELSE LET a == IF At(T, k + 3) # LPar THEN Yes(k + 3, <<>>)
                ELSE IF Key(At(T, k + 4)) \in DOMAIN GroupConverted /\ At(T, k + 5) = RPar THEN Yes(k + 6, <<GroupConverted[Key(At(T, k + 4))]>>)
                ELSE No
       IN IF ~a.ok THEN No
          ELSE LET i == IdAt(T, a.n) IN
               IF ~i.ok THEN No
               ELSE IF At(T, i.n) # Open THEN No
               ELSE LET f == TLCEval(FieldsAt(T, i.n + 1, <<>>)) IN
                    IF ~f.ok THEN No
                    ELSE Yes(f.n, [n |-> At(T, k + 2), r |-> Reps[r], id |-> i.v, c |-> a.v, l |-> <<>>, f |-> f.v])
\* fields up to the closing brace, which is taken
FieldsAt(T, k, acc) ==
  IF At(T, k) = Close THEN Yes(k + 1, acc)
  ELSE LET x == TLCEval(FieldAt(T, k)) IN IF x.ok THEN FieldsAt(T, x.n, Append(acc, x.v)) ELSE No
Parse(T) ==
  IF At(T, 1) # MESSAGE \/ ~IsName(At(T, 2)) \/ At(T, 3) # Open THEN NoTree
  ELSE LET f == TLCEval(FieldsAt(T, 4, <<>>)) IN
       IF ~f.ok THEN NoTree ELSE IF f.n # Len(T) + 1 THEN NoTree ELSE [ok |-> TRUE, v |-> [n |-> At(T, 2), f |-> f.v]]
=============================================================================
