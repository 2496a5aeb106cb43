------------------------------- MODULE ChunkM -------------------------------
(* The page reader as a state machine over an abstract chunk: pages of a kind with a number of values, at most one of
   them faulty, a declared number of values and the answers of the filter. Checked exhaustively in a small scope; its
   complete runs are written out and replayed against the real readers. "fits" is no fault: a page of exactly the largest
   allowed size. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, TLCExt, Json, IOUtils

CONSTANTS MaxPages, MaxTotal, FaultKinds
VARIABLES chunk, total, filt, i, seen, out, calls, st
vars == <<chunk, total, filt, i, seen, out, calls, st>>

PageKinds == {[k |-> "dict", n |-> 0], [k |-> "v1", n |-> 0], [k |-> "v1", n |-> 1], [k |-> "v1", n |-> 2],
              [k |-> "v2", n |-> 1], [k |-> "v2", n |-> 2]}
Chunks == UNION {[1..m -> PageKinds] : m \in 0..MaxPages}
\* at: index of the faulty page (0: none)
WithFault == {[pages |-> c, at |-> a, f |-> f] : c \in Chunks, a \in 0..MaxPages, f \in FaultKinds \cup {"none"}}
Cases == {x \in WithFault : x.at <= Len(x.pages) /\ (x.at = 0 <=> x.f = "none")}
Filters == UNION {[1..m -> BOOLEAN] : m \in 0..2}
Accept(c) == filt = <<>> \/ filt[((c - 1) % Len(filt)) + 1]

Init == /\ chunk \in Cases /\ total \in 0..MaxTotal /\ filt \in Filters
        /\ i = 0 /\ seen = 0 /\ out = <<>> /\ calls = 0 /\ st = "run"
Bad(x, j) == j > Len(x.pages) \/ (x.at = j /\ x.f # "fits")
Fault(j) == Bad(chunk, j)
End == /\ st = "run" /\ seen >= total /\ st' = "end" /\ UNCHANGED <<chunk, total, filt, i, seen, out, calls>>
Fail == /\ st = "run" /\ seen < total /\ Fault(i + 1)
        /\ st' = "err" /\ UNCHANGED <<chunk, total, filt, i, seen, out, calls>>
Read == /\ st = "run" /\ seen < total /\ ~Fault(i + 1)
        /\ LET p == chunk.pages[i + 1] d == p.k # "dict" IN
             /\ i' = i + 1
             /\ seen' = seen + p.n
             /\ calls' = IF d THEN calls + 1 ELSE calls
             /\ out' = IF ~d \/ Accept(calls + 1) THEN Append(out, i + 1) ELSE out
        /\ UNCHANGED <<chunk, total, filt, st>>
Stay == st # "run" /\ UNCHANGED vars
Next == End \/ Fail \/ Read \/ Stay
Spec == Init /\ [][Next]_vars /\ WF_vars(End \/ Fail \/ Read)

Consumed == SubSeq(chunk.pages, 1, i)
SumN(ps) == FoldLeft(LAMBDA a, p : a + p.n, 0, ps)
DataBefore(j) == Cardinality({x \in 1..j : chunk.pages[x].k # "dict"})
\* every consumed page is yielded exactly when it is a dictionary or accepted, in order
Exact == out = SelectSeq([j \in 1..i |-> j], LAMBDA j : chunk.pages[j].k = "dict" \/ Accept(DataBefore(j)))
FilterOnce == calls = DataBefore(i)
Counts == seen = SumN(Consumed)
\* it ends as soon as, and only when, the declared values were read
EndsRight == /\ st = "end" => seen >= total
             /\ i > 0 => SumN(SubSeq(chunk.pages, 1, i - 1)) < total
ErrRight == st = "err" => Fault(i + 1)
NoFaulty == \A j \in 1..i : ~Bad(chunk, j)
Terminates == <>(st # "run")
Frozen == [][st # "run" => UNCHANGED vars]_vars

\* outcome of a case as a function, for the replay
RECURSIVE Run(_, _, _, _, _, _, _)
Run(x, tot, f, j, s, c, o) ==
  IF s >= tot THEN [out |-> o, st |-> "end", i |-> j, calls |-> c]
  ELSE IF Bad(x, j + 1) THEN [out |-> o, st |-> "err", i |-> j, calls |-> c]
  ELSE LET p == x.pages[j + 1] d == p.k # "dict"
           acc == f = <<>> \/ f[(c % Len(f)) + 1]
       IN Run(x, tot, f, j + 1, s + p.n, IF d THEN c + 1 ELSE c, IF ~d \/ acc THEN Append(o, j + 1) ELSE o)
\* the function agrees with the machine
Same == st # "run" => Run(chunk, total, filt, 0, 0, 0, <<>>) = [out |-> out, st |-> st, i |-> i, calls |-> calls]
AllRuns == {[chunk |-> x, total |-> t, filter |-> f, expect |-> Run(x, t, f, 0, 0, 0, <<>>)] : x \in Cases, t \in 0..MaxTotal, f \in Filters}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(AllRuns))
=============================================================================
