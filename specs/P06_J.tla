------------------------------- MODULE P06_J -------------------------------
EXTENDS Judge, Chunk
RecOk(r) == /\ Reads(r.in, r.out["sync"])
            /\ Chk("stays ended", r.out["sync"].after = <<<<>>, <<>>>>)
JNext == JStep(RecOk)
=============================================================================
