----------------------------- MODULE PipelineM -----------------------------
(* The stages a chunk's pages go through - read, decompressed, split, decoded, statistics - as a state machine over an
   abstract chunk of which one page is damaged, or bytes are missing at its end. Damage is contained: a page that cannot be
   read ends the reading; one that cannot be decompressed, split or decoded, or whose statistics are unreadable, affects
   that stage of that page only - except that a dictionary that is lost is missing from the pages that need it. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, TLCExt, Json, IOUtils

CONSTANTS MaxPages
VARIABLES chunk, i, dict, log, st
vars == <<chunk, i, dict, log, st>>

Kinds == {"dict", "v1", "v2", "coded1", "coded2"}
Data(k) == k # "dict"
Coded(k) == k \in {"coded1", "coded2"}
Faults(k) == IF Data(k) THEN {"head", "stats", "levels", "garbled", "values"} ELSE {"head", "garbled"}
Seqs == UNION {[1..m -> Kinds] : m \in 1..MaxPages}
\* short: the chunk declares more values than its pages hold
Cases == {[pages |-> s, at |-> 0, f |-> "none", short |-> h] : s \in Seqs, h \in BOOLEAN}
         \cup {[pages |-> s, at |-> a, f |-> f, short |-> FALSE] : s \in Seqs, a \in 1..MaxPages, f \in {"head", "stats", "levels", "garbled", "values"}}
Good == {x \in Cases : x.at <= Len(x.pages) /\ (x.at > 0 => x.f \in Faults(x.pages[x.at])) /\ \E k \in 1..Len(x.pages) : Data(x.pages[k])}
\* only as many pages are read as there are declared values: dictionaries at the end are not
LastData(x) == CHOOSE k \in 1..Len(x.pages) : Data(x.pages[k]) /\ \A j \in (k + 1)..Len(x.pages) : ~Data(x.pages[j])

Stages(k, f, d) ==
  IF ~Data(k) THEN (IF f = "garbled" THEN <<"none", "undec">> ELSE <<"none", "dict">>)
  ELSE LET s == IF f = "stats" THEN "err" ELSE "ok" IN
       CASE f = "garbled" -> <<s, "undec">>
         [] f = "levels" -> <<s, "err", -1>>
         [] f = "values" -> <<s, "ok", -1>>
         [] Coded(k) /\ ~d -> <<s, "ok", -1>>
         [] OTHER -> <<s, "ok", 3>>

FaultAt(x, j) == IF x.at = j THEN x.f ELSE "none"
Init == chunk \in Good /\ i = 0 /\ dict = FALSE /\ log = <<>> /\ st = "run"
Enough(x, j) == ~x.short /\ j >= LastData(x)
Read == /\ st = "run" /\ ~Enough(chunk, i) /\ i < Len(chunk.pages) /\ FaultAt(chunk, i + 1) # "head"
        /\ LET k == chunk.pages[i + 1] f == FaultAt(chunk, i + 1) IN
             /\ log' = Append(log, Stages(k, f, dict))
             /\ dict' = IF Data(k) THEN dict ELSE dict \/ f # "garbled"
        /\ i' = i + 1 /\ UNCHANGED <<chunk, st>>
Fail == /\ st = "run" /\ ~Enough(chunk, i) /\ (i = Len(chunk.pages) \/ FaultAt(chunk, i + 1) = "head")
        /\ log' = Append(log, <<"error">>) /\ st' = "fail" /\ UNCHANGED <<chunk, i, dict>>
End == st = "run" /\ Enough(chunk, i) /\ st' = "end" /\ UNCHANGED <<chunk, i, dict, log>>
Stay == st # "run" /\ UNCHANGED vars
Next == Read \/ Fail \/ End \/ Stay
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ Fail \/ End)

RECURSIVE Run(_, _, _, _)
Run(x, j, d, l) ==
  IF Enough(x, j) THEN l
  ELSE IF j = Len(x.pages) \/ FaultAt(x, j + 1) = "head" THEN Append(l, <<"error">>)
  ELSE LET k == x.pages[j + 1] f == FaultAt(x, j + 1)
       IN Run(x, j + 1, IF Data(k) THEN d ELSE d \/ f # "garbled", Append(l, Stages(k, f, d)))
Same == st # "run" => log = Run(chunk, 0, FALSE, <<>>)
\* a page that has no damage of its own, nor needs a lost dictionary, gets through every stage
Contained == \A j \in 1..i : (FaultAt(chunk, j) = "none" /\ ~Coded(chunk.pages[j]) /\ Data(chunk.pages[j])) => log[j] = <<"ok", "ok", 3>>
OneError == st = "end" => \A j \in 1..Len(log) : log[j] # <<"error">>
LogLen == Len(log) = i + IF st = "fail" THEN 1 ELSE 0
Terminates == <>(st # "run")
Frozen == [][st # "run" => UNCHANGED vars]_vars
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({[chunk |-> x, expect |-> Run(x, 0, FALSE, <<>>)] : x \in Good}))
=============================================================================
