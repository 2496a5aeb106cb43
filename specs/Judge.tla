------------------------------- MODULE Judge -------------------------------
(* Walks the records of $TRACE, one per state, and reports those a predicate rejects. Extended by the *_J modules,
   which define JOk(record) from their specification. *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils

VARIABLE i
Recs == ndJsonDeserialize(IOEnv.TRACE)
JInit == i = 1
JStep(Ok(_)) == /\ i <= Len(Recs)
                /\ i' = i + 1
                /\ IF Ok(Recs[i]) THEN TRUE ELSE PrintT(<<"REJECT", i>>)
JDone == TLCGet("stats").diameter = Len(Recs) + 1
=============================================================================
