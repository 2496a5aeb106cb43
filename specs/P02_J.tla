------------------------------- MODULE P02_J -------------------------------
(* Fault-free histories: the footer describes the file exactly, and end returns the file's size. *)
EXTENDS Judge, Large

ModeOk(in, w) ==
  LET e == Ended(in, w) IN
  e # 0 => /\ FileOk(in, OkWrites(in, w, e), in.ops[e][2], w.sink)
           /\ w.ops[e].ok = Len(w.sink)
RecOk(r) == IF "ops" \notin DOMAIN r.in THEN (IF "rows" \in DOMAIN r.in THEN ManyOk(r.in, r.out) ELSE LargeOk(r.in, r.out)) ELSE \A m \in DOMAIN r.out : ModeOk(r.in, r.out[m])
JNext == JStep(RecOk)
=============================================================================
