------------------------------- MODULE Writer -------------------------------
(* A file writer as a state machine: the calls made on it, where its sink or a page source fails, and what the sink
   holds. A write appends the magic (first time) and a row group, an end the footer; a fault interrupts either at its
   start, in its middle or at its last byte, once or for good. The sink may buffer: only what it accepted before a flush
   that succeeded is held for good. The writer must never report a finished file other than the magic, the row groups
   of the writes that returned success, and the footer, all of it held. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, TLCExt, Json, IOUtils

CONSTANTS MaxOps, Kinds
VARIABLES phase, sink, held, hist, fault, meta
vars == <<phase, sink, held, hist, fault, meta>>

\* "good": a valid row group; "src": a page source that fails; "few"/"many": a column too few or too many; "end"
Stages == {"start", "mid", "last"}
Faults == {[at |-> 0, stage |-> "none", once |-> FALSE]}
   \union {[at |-> j, stage |-> s, once |-> o] : j \in 1..MaxOps, s \in Stages, o \in BOOLEAN}
   \union {[at |-> j, stage |-> "flush", once |-> o] : j \in 1..MaxOps, o \in BOOLEAN}

Init == /\ phase = "new" /\ sink = <<>> /\ held = <<>> /\ hist = <<>> /\ meta = FALSE
        /\ fault \in Faults

N == Len(hist) + 1
\* does the sink fail in this call? A fault for good strikes every later call
Hit(k) == /\ fault.at # 0
          /\ IF fault.once THEN fault.at = N ELSE fault.at <= N
          /\ fault.stage = "flush" => k = "end"
Magic == IF phase = "new" THEN <<"M">> ELSE <<>>
\* what is left of items after the fault
Broken(items) == CASE fault.at # N -> <<>>                  \* it still fails: nothing is accepted
                   [] fault.stage = "start" -> <<>>
                   [] fault.stage = "mid" -> SubSeq(items, 1, Len(items) - 1) \o <<"part">>
                   [] fault.stage = "last" -> SubSeq(items, 1, Len(items) - 1) \o <<"part">>
                   [] OTHER -> items
Res(k, ok) == hist' = Append(hist, [k |-> k, ok |-> ok])

Refuse(k) == /\ phase \in {"failed", "done"}
             /\ Res(k, FALSE) /\ UNCHANGED <<phase, sink, held, fault, meta>>
Do(k, items, works) ==
  /\ phase \in {"new", "open"}
  /\ IF Hit(k) THEN /\ sink' = sink \o Broken(items) /\ phase' = "failed" /\ meta' = meta /\ Res(k, FALSE)
     ELSE IF ~works THEN /\ sink' = sink \o SubSeq(items, 1, Len(items) - 1) \o <<"part">>
                         /\ phase' = "failed" /\ meta' = meta /\ Res(k, FALSE)
     ELSE /\ sink' = sink \o items /\ phase' = (IF k = "end" THEN "done" ELSE "open")
          /\ meta' = (k = "end") /\ Res(k, TRUE)
  /\ held' = (IF phase' = "done" THEN sink' ELSE held)
  /\ UNCHANGED fault
Call(k) == Refuse(k) \/ Do(k, Magic \o (IF k = "end" THEN <<"F">> ELSE <<N>>), k \in {"good", "end"})
Next == Len(hist) < MaxOps /\ \E k \in Kinds : Call(k)
Spec == Init /\ [][Next]_vars

OkGroups == SelectSeq([j \in 1..Len(hist) |-> j], LAMBDA j : hist[j].k # "end" /\ hist[j].ok)
EndedOk == \E j \in 1..Len(hist) : hist[j].k = "end" /\ hist[j].ok
\* the guarantee
Complete == EndedOk => sink = <<"M">> \o OkGroups \o <<"F">> /\ held = sink
MetaIff == meta = EndedOk
EndsOnce == Cardinality({j \in 1..Len(hist) : hist[j].k = "end" /\ hist[j].ok}) <= 1
Untouched == [][phase = "done" => sink' = sink /\ phase' = "done" /\ ~hist'[Len(hist')].ok]_vars

\* histories to replay: every sequence of calls with every fault
Scripts == {[ops |-> s, fault |-> f] : s \in UNION {[1..n -> Kinds] : n \in 1..MaxOps}, f \in Faults}
Useful(x) == /\ x.fault.at <= Len(x.ops)
             /\ x.fault.stage = "flush" => x.ops[x.fault.at] = "end"
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({x \in Scripts : Useful(x)}))
=============================================================================
