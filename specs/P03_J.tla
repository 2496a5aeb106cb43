------------------------------- MODULE P03_J -------------------------------
(* Histories of writer calls with failing sinks and sources. *)
EXTENDS Judge, File

\* did the sink accept everything so far? Without a fault in play, valid calls succeed until one fails.
Faulty(in) == in.sink.fail # <<>> \/ in.sink.flush
OkAt(w, j) == "ok" \in DOMAIN w.ops[j]
Cleanly(w, j) == \A k \in 1..(j - 1) : OkAt(w, k)
ValidOps(in, w, leaves) ==
  \A j \in 1..Len(in.ops) :
    IF in.ops[j][1] = "write"
    THEN /\ GroupBad(leaves, in.ops[j][2]) => Chk("invalid row group accepted", ~OkAt(w, j))
         /\ ~Faulty(in) /\ Cleanly(w, j) /\ Ended(in, w) \notin 1..(j - 1) /\ GroupOk(leaves, in.ops[j][2])
            => Chk("valid row group refused", OkAt(w, j))
    ELSE ~Faulty(in) /\ Cleanly(w, j) /\ Ended(in, w) \notin 1..(j - 1) /\ IndexOk(in, OkWrites(in, w, j - 1))
            => Chk("valid end refused", OkAt(w, j))
ModeOk(in, w) ==
  LET e == Ended(in, w)
      leaves == TLCEval(Leaves(in.schema))
  IN /\ ValidOps(in, w, leaves)
     /\ e # 0 =>
          /\ Chk("complete", FileOk(in, OkWrites(in, w, e), in.ops[e][2], Bytes(w.sink, 0, w.lens[e])))
          /\ Chk("size", w.ops[e].ok = w.lens[e])
          /\ Chk("refuses after end", \A j \in (e + 1)..Len(in.ops) : ~OkAt(w, j))
          /\ Chk("held: flushed to the end", w.held = w.lens[e])
          /\ Chk("untouched", Len(w.sink) = w.lens[e])
     /\ Len(w.metas) > 0 =>
          \A j \in 1..Len(in.ops) :
            IF e # 0 /\ j >= e
            THEN /\ Chk("metadata offered", w.metas[j] # <<>>)
                 /\ LET p == Struct(w.metas[j][1], 1) IN Chk("metadata", p.ok /\ p.v = Footer(w.sink).v)
            ELSE Chk("metadata offered early", w.metas[j] = <<>>)
     /\ "fin" \in DOMAIN w => Chk("metadata given up", w.fin = IF e = 0 THEN <<>> ELSE w.metas[Len(w.metas)])
RecOk(r) == \A m \in DOMAIN r.out : ModeOk(r.in, r.out[m])
JNext == JStep(RecOk)
=============================================================================
