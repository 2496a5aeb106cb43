------------------------------- MODULE MetaM -------------------------------
(* Metadata under histories of operations: its row groups are those of the file that every filter so far kept, in order;
   nothing else changes them. Every history up to the bound is replayed into the code. *)
EXTENDS Integers, Sequences, SequencesExt, TLC, TLCExt, Json, IOUtils

CONSTANTS MaxGroups, MaxOps
VARIABLES n, groups, hist
vars == <<n, groups, hist>>
Masks == {<<TRUE>>, <<FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE, FALSE>>}
Ops == {<<"thrift">>, <<"sidecar">>, <<"json">>} \cup {<<"filter", m>> : m \in Masks}
Keep(s, m) == LET q == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : m[((k - 1) % Len(m)) + 1]) IN [j \in 1..Len(q) |-> s[q[j]]]
After(s, op) == IF op[1] = "filter" THEN Keep(s, op[2]) ELSE s
Init == n \in 0..MaxGroups /\ groups = [k \in 1..n |-> k] /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E op \in Ops : hist' = Append(hist, op) /\ groups' = After(groups, op)
        /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
InOrder == \A a, b \in 1..Len(groups) : a < b => groups[a] < groups[b]
OfTheFile == \A a \in 1..Len(groups) : groups[a] \in 1..n
OnlyFilters == (\A k \in 1..Len(hist) : hist[k][1] # "filter") => groups = [k \in 1..n |-> k]
Shrinks == [][Len(groups') <= Len(groups)]_vars
RECURSIVE Run(_, _)
Run(s, h) == IF h = <<>> THEN <<>> ELSE LET t == After(s, h[1]) IN <<t>> \o Run(t, Tail(h))
Cases == {[n |-> m, ops |-> h, expect |-> Run([k \in 1..m |-> k], h)] : m \in 0..MaxGroups, h \in [1..MaxOps -> Ops]}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
