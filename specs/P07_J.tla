------------------------------- MODULE P07_J -------------------------------
EXTENDS Judge, Index, Large

\* an end succeeds exactly when the indexes can be built; then they are right
ModeOk(in, w) ==
  LET e == Ended(in, w)
      n == Len(in.ops)
      gs == OkWrites(in, w, n)
  IN IF e = 0 THEN Chk("refused", ~IndexOk(in, gs))
     ELSE /\ Chk("pages without statistics or bounds accepted", IndexOk(in, gs))
          /\ Chk("readable", "rgs" \in DOMAIN w.read)
          /\ IndexesOk(in, gs, w.sink, TLCEval(FileParts(in, gs, in.ops[e][2], w.sink)), w.read.rgs)
          /\ FarOk(w.read)
RecOk(r) == IF "ops" \notin DOMAIN r.in THEN LargeIndexOk(r.in, r.out) ELSE \A m \in DOMAIN r.out : ModeOk(r.in, r.out[m])
JNext == JStep(RecOk)
=============================================================================
