------------------------------ MODULE ColumnM ------------------------------
(* Iterating the columns of a field: a queue of the leaves the field owns, in schema order; advancing abandons the current
   column, however many of its pages were taken, and opens the next; a column gives its own pages from its first. The
   scratch buffer is with the iterator, with the open column, or - once no column is left - handed back. Checked
   exhaustively over small schemas; every run is replayed into ColumnIterator and ReadColumnIterator. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, TLCExt, Json, IOUtils

CONSTANTS MaxLeaves, MaxPages
VARIABLES leaves, takes, left, cur, got, seen, scratch
vars == <<leaves, takes, left, cur, got, seen, scratch>>

\* a leaf: the field it belongs to (1: the one that is iterated) and its number of pages
LeafSets == UNION {[1..m -> [own : {1, 2}, np : 0..MaxPages]] : m \in 0..MaxLeaves}
Mine(ls) == SelectSeq([k \in 1..Len(ls) |-> k], LAMBDA k : ls[k].own = 1)
TakeSets(ls) == [1..Len(Mine(ls)) -> 0..(MaxPages + 1)]
Init == /\ leaves \in LeafSets /\ takes \in TakeSets(leaves)
        /\ left = Mine(leaves) /\ cur = 0 /\ got = [k \in 1..Len(leaves) |-> <<>>] /\ seen = <<>> /\ scratch = "iterator"
\* tries at the open column so far are bounded by the script
Advance == /\ scratch # "back"
           /\ cur # 0 => (Len(got[cur]) = takes[Len(seen)] \/ (Len(got[cur]) = leaves[cur].np /\ takes[Len(seen)] > leaves[cur].np))
           /\ IF left = <<>> THEN cur' = 0 /\ scratch' = "back" /\ UNCHANGED <<left, seen>>
              ELSE cur' = Head(left) /\ left' = Tail(left) /\ seen' = Append(seen, Head(left)) /\ scratch' = "column"
           /\ UNCHANGED <<leaves, takes, got>>
Take == /\ cur # 0 /\ Len(got[cur]) < takes[Len(seen)] /\ Len(got[cur]) < leaves[cur].np
        /\ got' = [got EXCEPT ![cur] = Append(@, Len(@) + 1)]
        /\ UNCHANGED <<leaves, takes, left, cur, seen, scratch>>
Next == Advance \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InOrder == seen \o left = Mine(leaves)
OwnPages == \A k \in 1..Len(leaves) : Len(got[k]) <= leaves[k].np /\ \A j \in 1..Len(got[k]) : got[k][j] = j
OnlyMine == \A k \in 1..Len(leaves) : leaves[k].own # 1 => got[k] = <<>>
OneHolder == (cur # 0) = (scratch = "column")
AllSeen == scratch = "back" => seen = Mine(leaves)
Ends == <>(scratch = "back")
Visits(ls, tk) == [k \in 1..Len(Mine(ls)) |-> LET l == Mine(ls)[k] IN <<l - 1, IF tk[k] < ls[l].np THEN tk[k] ELSE ls[l].np>>]
Agrees == scratch = "back" => [k \in 1..Len(seen) |-> <<seen[k] - 1, Len(got[seen[k]])>>] = Visits(leaves, takes)
Cases == UNION {{[leaves |-> ls, takes |-> tk, expect |-> Visits(ls, tk)] : tk \in TakeSets(ls)} : ls \in LeafSets}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
