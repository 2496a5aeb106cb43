------------------------------ MODULE HybridM ------------------------------
(* The value iterator as a machine: it holds the run being consumed and how many values remain, reads the next run
   when the current one is used up and yields zeros when the data are used up. It is checked against the meaning of
   every run list in a small scope; the same scope, encoded to bytes, is replayed into the code. *)
EXTENDS Hybrid, Iter, FiniteSets, Json, IOUtils, TLCExt

CONSTANTS Widths, MaxRuns, RleCounts, BpGroups, Extra
VARIABLES w, rs, n, at, run, used, out
vars == <<w, rs, n, at, run, used, out>>

\* value number k of width ww: distinguishable, uses the top bit
Val(ww, k) == IF ww = 0 THEN Zeros(4) ELSE BytesFrom(4, LAMBDA p : IF p < ww /\ (p = (k % ww) \/ p = (ww - 1) * (k % 2)) THEN 1 ELSE 0)
RunsW(ww) == {[k |-> "rle", v |-> Val(ww, c + 1), n |-> c, vs |-> <<>>, g |-> 0] : c \in RleCounts}
      \union {[k |-> "bp", v |-> <<>>, n |-> 0, g |-> g, vs |-> [j \in 1..(8 * g) |-> Val(ww, j + g)]] : g \in BpGroups}
\* a last bit-packed run may be cut short to c values
CutW(ww) == {[k |-> "bp", v |-> <<>>, n |-> 0, g |-> 1, vs |-> [j \in 1..c |-> Val(ww, j)]] : c \in {1, 5}}
SeqsUpTo(S, m) == UNION {[1..k -> S] : k \in 0..m}
RunLists(ww) == SeqsUpTo(RunsW(ww), MaxRuns)
                \union {Append(p, c) : p \in SeqsUpTo(RunsW(ww), MaxRuns - 1), c \in CutW(ww)}
Total(l) == FoldLeft(LAMBDA a, r : a + (IF r.k = "rle" THEN r.n ELSE Len(r.vs)), 0, l)
\* requested lengths: around the total. Bit-packed bytes only hold whole values if w*count is a multiple of 8
Lens(l) == {Max2(0, (Total(l) + d) - 1) : d \in Extra} \union {0}
Init == /\ w \in Widths
        /\ rs \in RunLists(w)
        /\ n \in Lens(rs)
        /\ at = 1 /\ run = <<>> /\ used = 0 /\ out = <<>>
RunLen(r) == IF r.k = "rle" THEN r.n ELSE Len(r.vs)
UsedUp == IF run = <<>> THEN TRUE ELSE used = RunLen(run[1])
Take == /\ Len(out) < n /\ ~UsedUp
        /\ out' = Append(out, IF run[1].k = "rle" THEN run[1].v ELSE run[1].vs[used + 1])
        /\ used' = used + 1
        /\ UNCHANGED <<w, rs, n, at, run>>
Advance == /\ Len(out) < n /\ UsedUp
           /\ at <= Len(rs)
           /\ run' = <<rs[at]>> /\ at' = at + 1 /\ used' = 0
           /\ UNCHANGED <<w, rs, n, out>>
Pad == /\ Len(out) < n /\ UsedUp /\ at > Len(rs)
       /\ out' = Append(out, Zeros(4))
       /\ UNCHANGED <<w, rs, n, at, run, used>>
Next == Take \/ Advance \/ Pad
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

IsMeaning == out = SubSeq(Meaning(rs, n), 1, Len(out))
Bounded == Len(out) <= n
\* a cut run at the very end whose bytes hold padding bits denotes zeros there: same as Meaning
BytesAgree == out = <<>> /\ at = 1 => Decode(EncRuns(rs, w), w, n) = Meaning(rs, n)
Finishes == <>(Len(out) = n)

\* replay cases
OpsFor(m) == << <<"hint">>, <<"next">>, <<"nth", m \div 3>>, <<"hint">>, <<"next">>, <<"rest">>, <<"next">>, <<"hint">> >>
CaseOf(ww, l, m) == [w |-> ww, n |-> m, bytes |-> EncRuns(l, ww), ops |-> OpsFor(m),
                     expect |-> Results(Meaning(l, m), OpsFor(m))]
AllCases == UNION {UNION {{CaseOf(ww, l, m) : m \in Lens(l)} : l \in RunLists(ww)} : ww \in Widths}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(AllCases))
=============================================================================
