----------------------------- MODULE MessageM ------------------------------
(* The same language as a machine that reads one token at a time: a control state, the number of open braces, and registers
   for the leaf being read. It accepts what Message's recursive descent accepts - checked over every single-token
   deletion, insertion, replacement, exchange and truncation of a set of texts, all of which are replayed into the parser. *)
EXTENDS Message, Json, IOUtils, SequencesExt

CONSTANT Small
VARIABLES text, pos, ctl, depth, leaf, arg
vars == <<text, pos, ctl, depth, leaf, arg>>

Code == [c \in {SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", k, k) : k \in 1..26} |-> 64 + CHOOSE k \in 1..26 : SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", k, k) = c]
        @@ [c \in {SubSeq("abcdefghijklmnopqrstuvwxyz", k, k) : k \in 1..26} |-> 96 + CHOOSE k \in 1..26 : SubSeq("abcdefghijklmnopqrstuvwxyz", k, k) = c]
        @@ [c \in {SubSeq("0123456789", k, k) : k \in 1..10} |-> 47 + CHOOSE k \in 1..10 : SubSeq("0123456789", k, k) = c]
        @@ ("_" :> 95) @@ (";" :> 59) @@ ("{" :> 123) @@ ("}" :> 125) @@ ("(" :> 40) @@ (")" :> 41) @@ ("=" :> 61) @@ ("," :> 44) @@ ("-" :> 45) @@ ("+" :> 43)
Spell(s) == [k \in 1..Len(s) |-> Code[SubSeq(s, k, k)]]
Texts == <<
  <<"message", "m", "{", "REQUIRED", "INT32", "a", ";", "}">>,
  <<"message", "m", "{", "}">>,
  <<"message", "m", "{", "optional", "group", "g", "(", "LIST", ")", "=", "3", "{", "repeated", "group", "list", "{", "optional", "binary", "e", "(", "UTF8", ")", ";", "}", "}", "}">>,
  <<"message", "m", "{", "required", "fixed_len_byte_array", "(", "16", ")", "u", "(", "uuid", ")", "=", "-7", ";", "optional", "int64", "t", "(", "TIMESTAMP", "(", "micros", ",", "true", ")", ")", ";", "}">>,
  <<"message", "m", "{", "required", "int32", "d", "(", "decimal", "(", "9", ",", "2", ")", ")", "=", "1", ";", "required", "int64", "i", "(", "integer", "(", "64", ",", "false", ")", ")", ";", "}">>,
  <<"message", "m", "{", "required", "int32", "d", "(", "time", "(", "millis", ")", ")", ";", "required", "byte_array", "i", "(", "decimal", "(", "40", ")", ")", "=", "2", ";",
    "repeated", "int32", "x", "(", "time", ")", ";", "}">> >>
Alphabet == {"message", "m", "{", "}", "(", ")", "=", ",", ";", "required", "group", "INT32", "int64", "BINARY", "FIXED_LEN_BYTE_ARRAY", "STRING", "decimal", "TIME",
             "INTEGER", "INT_8", "MAP", "MAP_KEY_VALUE", "nanos", "TRUE", "8", "-1", "2147483648", "12x", "+3"}
Some == IF Small THEN {"m", "{", "}", "(", ")", "=", ",", ";", "required", "group", "INT32", "STRING", "MAP", "8"} ELSE Alphabet
Cut(s, k) == SubSeq(s, 1, k)
From(s, k) == SubSeq(s, k, Len(s))
Edits(s) == {s} \cup {Cut(s, k) : k \in 0..(Len(s) - 1)}
            \cup {Cut(s, k - 1) \o From(s, k + 1) : k \in 1..Len(s)}
            \cup {Cut(s, k) \o <<a>> \o From(s, k + 1) : k \in 0..Len(s), a \in Some}
            \cup {Cut(s, k - 1) \o <<a>> \o From(s, k + 1) : k \in 1..Len(s), a \in Some}
            \cup {[s EXCEPT ![k] = s[k + 1], ![k + 1] = s[k]] : k \in 1..(Len(s) - 1)}
All == TLCEval({[k \in 1..Len(e) |-> Spell(e[k])] : e \in UNION {Edits(Texts[k]) : k \in 1..Len(Texts)}})

------------------------------------------------------------------------------
NoLeaf == [t |-> 0, len |-> 0, c |-> <<>>, l |-> <<>>]
Init == text \in All /\ pos = 1 /\ ctl = "message" /\ depth = 0 /\ leaf = NoLeaf /\ arg = <<>>
\* moves to a control state; the default leaves the registers alone
To(s) == ctl' = s /\ UNCHANGED <<depth, leaf, arg>>
Bad2 == To("bad")
If(b, s) == IF b THEN To(s) ELSE Bad2
\* a token k in state s
Tok == text[pos]
K == Key(Tok)
Val == Int10(Tok)
Enter == IF Tok = Open THEN ctl' = "item" /\ depth' = depth + 1 /\ UNCHANGED <<leaf, arg>> ELSE Bad2
Leave == ctl' = (IF depth = 1 THEN "end" ELSE "item") /\ depth' = depth - 1 /\ UNCHANGED <<leaf, arg>>
Finish == IF Tok = Semi /\ TypeOk(leaf) THEN ctl' = "item" /\ leaf' = NoLeaf /\ UNCHANGED <<depth, arg>> ELSE Bad2
Set(s, x) == ctl' = s /\ leaf' = x /\ UNCHANGED <<depth, arg>>
Args(s, a) == ctl' = s /\ arg' = a /\ UNCHANGED <<depth, leaf>>
\* the annotation is complete, its closing parenthesis is this token or is to come
Ann(l, s) == ctl' = s /\ leaf' = [leaf EXCEPT !.l = l] /\ arg' = <<>> /\ UNCHANGED depth
Read ==
  /\ pos <= Len(text) /\ ctl # "bad" /\ pos' = pos + 1 /\ UNCHANGED text
  /\ CASE ctl = "message" -> If(Tok = MESSAGE, "root")
       [] ctl = "root" -> If(IsName(Tok), "root{")
       [] ctl = "root{" -> Enter
       [] ctl = "item" -> IF Tok = Close THEN Leave ELSE If(K \in DOMAIN Reps, "type")
       [] ctl = "type" -> IF K = "GROUP" THEN To("group")
                          ELSE IF K \in DOMAIN Types THEN Set(IF Types[K] = FIXED THEN "length(" ELSE "leaf", [NoLeaf EXCEPT !.t = Types[K]])
                          ELSE Bad2
       [] ctl = "group" -> If(IsName(Tok), "group+")
       [] ctl = "group+" -> IF Tok = LPar THEN To("group(") ELSE IF Tok = Equal THEN To("group=") ELSE Enter
       [] ctl = "group(" -> If(K \in DOMAIN GroupConverted, "group)")
       [] ctl = "group)" -> If(Tok = RPar, "group+id")
       [] ctl = "group+id" -> IF Tok = Equal THEN To("group=") ELSE Enter
       [] ctl = "group=" -> If(Val.ok, "root{")
       [] ctl = "length(" -> If(Tok = LPar, "length")
       [] ctl = "length" -> IF Val.ok THEN (IF Val.v >= 0 THEN Set("length)", [leaf EXCEPT !.len = Val.v]) ELSE Bad2) ELSE Bad2
       [] ctl = "length)" -> If(Tok = RPar, "leaf")
       [] ctl = "leaf" -> If(IsName(Tok), "leaf+")
       [] ctl = "leaf+" -> IF Tok = LPar THEN To("leaf(") ELSE IF Tok = Equal THEN To("leaf=") ELSE Finish
       [] ctl = "leaf+id" -> IF Tok = Equal THEN To("leaf=") ELSE Finish
       [] ctl = "leaf=" -> If(Val.ok, "leaf;")
       [] ctl = "leaf;" -> Finish
       [] ctl = "leaf(" -> IF K \in Plain THEN Ann(<<K>>, "leaf)")
                           ELSE IF K \in DOMAIN Converted THEN Set("leaf)", [leaf EXCEPT !.c = <<Converted[K]>>])
                           ELSE IF K \in {"DECIMAL", "INTEGER"} THEN Args("args(", <<K>>)
                           ELSE IF K \in {"TIME", "TIMESTAMP"} THEN Args("maybe(", <<K>>)
                           ELSE Bad2
       [] ctl = "leaf)" -> If(Tok = RPar, "leaf+id")
       [] ctl = "maybe(" -> IF Tok = LPar THEN To("arg1") ELSE IF Tok = RPar THEN Ann(<<arg[1], "ms", FALSE>>, "leaf+id") ELSE Bad2
       [] ctl = "args(" -> If(Tok = LPar, "arg1")
       [] ctl = "arg1" -> IF arg[1] \in {"TIME", "TIMESTAMP"} THEN (IF K \in DOMAIN Units THEN Args("arg,", <<arg[1], Units[K]>>) ELSE Bad2)
                          ELSE IF Val.ok THEN Args("arg,", <<arg[1], Val.v>>) ELSE Bad2
       [] ctl = "arg," -> IF Tok = Comma THEN To("arg2")
                          ELSE IF Tok # RPar \/ arg[1] = "INTEGER" THEN Bad2
                          ELSE IF arg[1] = "DECIMAL" THEN Ann(Append(arg, 0), "leaf)") ELSE Ann(Append(arg, FALSE), "leaf)")
       [] ctl = "arg2" -> IF arg[1] = "DECIMAL" THEN (IF Val.ok THEN Args("arg)", Append(arg, Val.v)) ELSE Bad2)
                          ELSE IF K \in DOMAIN Bools THEN Args("arg)", Append(arg, Bools[K])) ELSE Bad2
       [] ctl = "arg)" -> IF Tok = RPar /\ (arg[1] = "INTEGER" => arg[2] \in {8, 16, 32, 64}) THEN Ann(arg, "leaf)") ELSE Bad2
       [] OTHER -> Bad2                                          \* "end": nothing may follow
Spec == Init /\ [][Read]_vars /\ WF_vars(Read)

Stopped == ctl = "bad" \/ pos > Len(text)
Agrees == Stopped => (ctl = "end") = Parse(text).ok
Balanced == depth >= 0 /\ (ctl = "end" => depth = 0)
Halts == <>Stopped
Cases == {LET p == Parse(t) IN [text |-> Concat([k \in 1..Len(t) |-> t[k] \o <<32>>]), expect |-> IF p.ok THEN <<p.v>> ELSE <<>>] : t \in All}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
