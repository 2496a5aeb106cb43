------------------------------- MODULE P22_J -------------------------------
EXTENDS Judge, Damage
RecOk(r) == /\ Chk("sync and async open", r.out.agree)
            /\ r.out.open => LET hs == [w \in DOMAIN r.in.heads |-> {r.in.heads[w][k] + 1 : k \in 1..Len(r.in.heads[w])}] IN
                             \A k \in 1..Len(r.out.cols) : ChunkOk(r.in.bytes, hs, r.out.cols[k])
JNext == JStep(RecOk)
=============================================================================
