------------------------------- MODULE BloomM -------------------------------
(* A filter as a machine: hashes are inserted one after the other into an empty filter of n blocks. Checked: what was inserted is
   answered yes for ever, bits are never lost, no bit is set but those the format prescribes for a hash inserted. Every history up
   to a length is replayed, with the bits and the answers for every hash after each insertion. *)
EXTENDS Bloom, Json, IOUtils

CONSTANTS Blocks, MaxLen
VARIABLES n, bits, hist
vars == <<n, bits, hist>>
\* hashes at the borders of blocks (of 1, 2, 3 blocks) and with shared lower halves
Hashes == << <<0, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>, <<1, 0, 0, 0, 0, 0, 0, 128>>, <<1, 0, 0, 0, 255, 255, 255, 127>>, <<1, 0, 0, 0, 85, 85, 85, 85>>, <<239, 190, 173, 222, 86, 85, 85, 85>>, <<0, 0, 0, 128, 170, 170, 170, 170>> >>
ASSUME XXH64(<<>>) = <<153, 233, 216, 81, 55, 219, 70, 239>>
ASSUME XXH64(<<97>>) = <<91, 110, 140, 169, 241, 196, 78, 210>>
ASSUME XXH64(<<97, 98, 99>>) = <<153, 9, 119, 173, 245, 44, 188, 68>>
Table == TLCEval([m \in Blocks |-> [k \in 1..Len(Hashes) |-> BitsOf(Hashes[k], m)]])
Init == n \in Blocks /\ bits = {} /\ hist = <<>>
Insert(k) == /\ Len(hist) < MaxLen
             /\ bits' = bits \cup Table[n][k]
             /\ hist' = Append(hist, k)
             /\ UNCHANGED n
Next == \E k \in 1..Len(Hashes) : Insert(k)
Spec == Init /\ [][Next]_vars
Inside == bits \subseteq 0..(256 * n - 1)
NoFalseNegative == \A j \in 1..Len(hist) : Table[n][hist[j]] \subseteq bits
OnlyPrescribed == bits = UNION {Table[n][hist[j]] : j \in 1..Len(hist)}
OneBitAWord == \A m \in Blocks, k \in 1..Len(Hashes) : Cardinality(Table[m][k]) = 8 /\ Cardinality({p \div 32 : p \in Table[m][k]}) = 8
                                                      /\ Cardinality({p \div 256 : p \in Table[m][k]}) = 1
OnlyGrows == [][bits \subseteq bits']_vars
\* ---- replay
After(m, h) == UNION {Table[m][h[j]] : j \in 1..Len(h)}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
States(m, h) == [j \in 1..Len(h) |-> LET S == After(m, SubSeq(h, 1, j)) IN
                  [set |-> Sorted(S), yes |-> [k \in 1..Len(Hashes) |-> Table[m][k] \subseteq S]]]
Hists == UNION {[1..l -> 1..Len(Hashes)] : l \in 1..MaxLen}
Cases == {[n |-> m, hashes |-> Hashes, hist |-> h, expect |-> States(m, h)] : m \in Blocks, h \in Hists}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
