------------------------------- MODULE NativeM -------------------------------
(* The orders of the native types on values at their edges: taking values one after the other, in any order, and keeping the least
   and the greatest of them. Checked: what is kept bounds all values taken, whatever the order they came in. Every pair of values
   is replayed. *)
EXTENDS Native, Json, IOUtils

CONSTANTS MaxLen
VARIABLES ty, taken, least, greatest
vars == <<ty, taken, least, greatest>>
Z4 == <<0, 0, 0, 0>>
I4 == {Z4, <<1, 0, 0, 0>>, <<255, 255, 255, 255>>, <<0, 1, 0, 0>>, <<0, 0, 0, 128>>, <<255, 255, 255, 127>>, <<0, 255, 255, 255>>}
F4 == {Z4, <<0, 0, 0, 128>>, <<1, 0, 0, 0>>, <<1, 0, 0, 128>>, <<0, 0, 128, 63>>, <<0, 0, 128, 191>>, <<0, 0, 128, 127>>, <<0, 0, 128, 255>>}
Wide(a) == {Z4 \o a} \cup {<<1, 0, 0, 255>> \o a}
\* ends: 1677-09-21, 2262-04-11; the day before 1970, 1970; day 0; the last day
Days == {Day0, <<139, 61, 37, 0>>, Z4, <<255, 255, 255, 255>>, <<164, 219, 35, 0>>, <<116, 159, 38, 0>>}
Times8 == {Zeros(8), <<1, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 144, 79, 148, 78, 0, 0>>, <<0, 0, 145, 78, 148, 78, 0, 0>>, <<0, 0, 0, 0, 1, 0, 0, 0>>}
Values == [i32 |-> I4, i64 |-> UNION {Wide(a) : a \in I4}, f32 |-> F4,
           f64 |-> {Z4 \o Z4, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 128>>, <<0, 0, 0, 0, 0, 0, 240, 63>>,
                    <<0, 0, 0, 0, 0, 0, 240, 191>>, <<0, 0, 0, 0, 0, 0, 240, 127>>, <<0, 0, 0, 0, 0, 0, 240, 255>>},
           i96 |-> {t \o d : t \in Times8, d \in Days},
           binary |-> {<<>>, <<0>>, <<0, 0>>, <<1>>, <<255>>, <<127, 1>>, <<128>>, <<1, 0>>, <<1, 255>>}]
\* the instants and the orders, once
Inst == TLCEval([v \in Values.i96 |-> Instant(v)])
Before(t, v, w) == IF t = "i96" THEN LtS(Inst[v], Inst[w]) ELSE Lt(t, v, w)
Order(t, v, w) == IF Before(t, v, w) THEN -1 ELSE IF Before(t, w, v) THEN 1 ELSE 0
Rank == TLCEval([t \in DOMAIN Values |-> [v \in Values[t] |-> Cardinality({w \in Values[t] : Before(t, w, v)})]])
Types == DOMAIN Values
Init == ty \in Types /\ taken = {} /\ least = <<>> /\ greatest = <<>>
Take(v) == /\ Cardinality(taken) < MaxLen /\ v \notin taken
           /\ taken' = taken \cup {v}
           /\ least' = IF least = <<>> \/ Before(ty, v, least[1]) THEN <<v>> ELSE least
           /\ greatest' = IF greatest = <<>> \/ Before(ty, greatest[1], v) THEN <<v>> ELSE greatest
           /\ UNCHANGED ty
Next == \E v \in Values[ty] : Take(v)
Spec == Init /\ [][Next]_vars
Bounds == taken # {} => \A v \in taken : Order(ty, least[1], v) <= 0 /\ Order(ty, greatest[1], v) >= 0
\* the order is the order of a number given to every value: it is total, up to values that compare as equal
Total == \A v, w \in taken : Order(ty, v, w) = (IF Rank[ty][v] < Rank[ty][w] THEN -1 ELSE IF Rank[ty][v] > Rank[ty][w] THEN 1 ELSE 0)
Cases == UNION {{[ty |-> t, a |-> v, b |-> w, expect |-> <<Order(t, v, w), Order(t, w, v), 0>>] : v, w \in Values[t]} : t \in Types}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
