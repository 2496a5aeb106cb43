------------------------------- MODULE DeltaM -------------------------------
(* Reading delta bit-packed values as a machine: a value is given, then the delta of the next one is taken from the current
   miniblock, moving to the next miniblock, or the next block, when it is used up. Widths follow a pattern over the miniblocks.
   Checked against the closed form - value k lies in block, miniblock and slot computed from k, and the bytes read are the
   header, and per block its minimum, its widths and the miniblocks that hold values - at a small scale; the same closed form at
   real block sizes is replayed into the decoder (number of values and bytes consumed). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, TLCExt, Json, IOUtils

CONSTANTS MaxCount, MaxMinis, Slots, Real
VARIABLES count, nm, pat, given, blk, mini, slot, bytes, where
vars == <<count, nm, pat, given, blk, mini, slot, bytes, where>>
Pats == {<<0>>, <<1>>, <<0, 8>>, <<8, 0>>, <<3, 0, 5>>}
\* bytes of a miniblock of vpm slots of w bits, at the unit of 8 slots
Size(vpm, w) == (vpm * w) \div 8
WidthOf(p, m, j) == p[((m * 7 + j) % Len(p)) + 1]                  \* block m, miniblock j (from 0)
Init == /\ count \in 0..MaxCount /\ nm \in 1..MaxMinis /\ pat \in Pats
        /\ given = 0 /\ blk = -1 /\ mini = 0 /\ slot = 0 /\ bytes = 0 /\ where = <<>>
\* the machine: the first value needs nothing; for each further one a slot is taken
Give == /\ given < count
        /\ given' = given + 1
        /\ IF given = 0 THEN UNCHANGED <<blk, mini, slot, bytes>> /\ where' = <<<<-1, 0, 0>>>>
           ELSE LET newBlk == blk = -1 \/ (mini = nm - 1 /\ slot = Slots)
                    newMini == newBlk \/ slot = Slots
                    b == IF newBlk THEN blk + 1 ELSE blk
                    j == IF newBlk THEN 0 ELSE IF newMini THEN mini + 1 ELSE mini
                    s == IF newMini THEN 1 ELSE slot + 1
                IN /\ blk' = b /\ mini' = j /\ slot' = s
                   /\ bytes' = bytes + (IF newBlk THEN 1 + nm ELSE 0) + (IF newMini THEN Size(Slots, WidthOf(pat, b, j)) ELSE 0)
                   /\ where' = Append(where, <<b, j, s - 1>>)
        /\ UNCHANGED <<count, nm, pat>>
Spec == Init /\ [][Give]_vars /\ WF_vars(Give)

\* closed form
Place(k, n, vpm) == LET d == k - 2 IN <<d \div (n * vpm), (d % (n * vpm)) \div vpm, d % vpm>>
RECURSIVE BlockBytes(_, _, _, _, _)
Needed(left, vpm, n) == LET q == (left + vpm - 1) \div vpm IN IF q < n THEN q ELSE n
RECURSIVE SumMinis(_, _, _, _)
SumMinis(p, m, vpm, q) == IF q = 0 THEN 0 ELSE Size(vpm, WidthOf(p, m, q - 1)) + SumMinis(p, m, vpm, q - 1)
BlockBytes(p, m, left, n, vpm) ==
  IF left <= 0 THEN 0 ELSE 1 + n + SumMinis(p, m, vpm, Needed(left, vpm, n)) + BlockBytes(p, m + 1, left - n * vpm, n, vpm)
Placed == \A k \in 2..Len(where) : where[k] = Place(k, nm, Slots)
Consumed == bytes = BlockBytes(pat, 0, given - 1, nm, Slots)
All == <>(given = count)

Counts(vpm, n) == {0, 1, 2, vpm, vpm + 1, vpm + 2, n * vpm, n * vpm + 1, n * vpm + 2, n * vpm + vpm + 1, 2 * n * vpm + 1, 2 * n * vpm + 2}
Configs == IF Real = "quick" THEN {<<128, 1>>, <<128, 4>>, <<256, 2>>} ELSE {<<128, 1>>, <<128, 2>>, <<128, 4>>, <<256, 1>>, <<256, 8>>, <<384, 3>>, <<1024, 32>>}
Cases == UNION {{[bs |-> g[1], nm |-> g[2], count |-> c, pat |-> p, expect |-> <<c, BlockBytes(p, 0, c - 1, g[2], g[1] \div g[2])>>]
                 : c \in Counts(g[1] \div g[2], g[2]), p \in Pats} : g \in Configs}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
