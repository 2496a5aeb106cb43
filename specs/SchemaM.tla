------------------------------ MODULE SchemaM ------------------------------
(* Reading a flat schema: elements are taken in order; a group opens with the number of children it announces and closes
   when it has them. The list describes a schema iff its first element is a group and the last element closes it: checked
   against the arithmetic characterisation (prefix sums of children - 1 stay at or above 0 until the last, which is -1).
   Every list up to the bound is replayed into the code. An element is -2 (a negative count), -1 (a leaf), 0.. (a group of
   so many children) or 10 (a leaf that announces 0 children, as some writers do). *)
EXTENDS Integers, Sequences, SequencesExt, TLC, TLCExt, Json, IOUtils

CONSTANTS MaxLen, MaxKids
VARIABLES el, pos, open, depth, state
vars == <<el, pos, open, depth, state>>
Kinds == -2..MaxKids \cup {10}
Lists == UNION {[1..m -> Kinds] : m \in 0..MaxLen}
IsLeaf(k) == k = -1 \/ k = 10
\* closes the groups that have all their children
RECURSIVE Close(_)
Close(s) == IF s = <<>> \/ s[Len(s)] > 0 THEN s
            ELSE LET t == SubSeq(s, 1, Len(s) - 1)
                 IN IF t = <<>> THEN <<>> ELSE Close([t EXCEPT ![Len(t)] = @ - 1])
Took(s) == Close([s EXCEPT ![Len(s)] = @ - 1])

Init == el \in Lists /\ pos = 0 /\ open = <<>> /\ depth = <<>> /\ state = "reading"
Read == /\ state = "reading" /\ pos < Len(el)
        /\ LET k == el[pos + 1] IN
             IF k = -2 \/ (pos = 0 /\ IsLeaf(k)) \/ (pos > 0 /\ open = <<>>)
             THEN state' = "bad" /\ UNCHANGED <<pos, open, depth>>
             ELSE /\ pos' = pos + 1 /\ depth' = Append(depth, Len(open)) /\ UNCHANGED state
                  /\ open' = IF IsLeaf(k) THEN Took(open) ELSE Close(Append(open, k))
        /\ UNCHANGED el
Finish == /\ state = "reading" /\ pos = Len(el)
          /\ state' = IF pos > 0 /\ open = <<>> THEN "schema" ELSE "bad"
          /\ UNCHANGED <<el, pos, open, depth>>
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Kids(k) == IF IsLeaf(k) THEN 0 ELSE k
RECURSIVE Sum(_, _)
Sum(l, m) == IF m = 0 THEN 0 ELSE Kids(l[m]) - 1 + Sum(l, m - 1)
Tree(l) == /\ l # <<>> /\ ~IsLeaf(l[1]) /\ \A k \in 1..Len(l) : l[k] # -2
           /\ Sum(l, Len(l)) = -1 /\ \A m \in 1..(Len(l) - 1) : Sum(l, m) >= 0
Decides == state = "schema" => Tree(el)
Complete == state = "bad" => ~Tree(el)
\* missing elements are those the open groups wait for
RECURSIVE Waiting(_)
Waiting(s) == IF s = <<>> THEN 0 ELSE s[Len(s)] + Waiting(SubSeq(s, 1, Len(s) - 1))
Counts == state = "reading" /\ pos > 0 => LET w == Waiting(open) - (IF open = <<>> THEN 0 ELSE Len(open) - 1) IN
            Sum(el, pos) = w - 1
Ends == <>(state # "reading")

\* depths of the elements, by running the machine
RECURSIVE Run(_, _, _, _)
Run(l, m, s, d) == IF m = Len(l) THEN d
                   ELSE LET k == l[m + 1] IN
                        Run(l, m + 1, IF IsLeaf(k) THEN Took(s) ELSE Close(Append(s, k)), Append(d, Len(s)))
DepthsAgree == state = "schema" => depth = Run(el, 0, <<>>, <<>>)
Cases == {[el |-> l, expect |-> IF Tree(l) THEN <<Run(l, 0, <<>>, <<>>)>> ELSE <<>>] : l \in Lists}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
