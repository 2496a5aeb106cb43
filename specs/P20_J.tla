------------------------------- MODULE P20_J -------------------------------
(* Texts and the schemas they denote. *)
EXTENDS Judge, Message

RecOk(r) ==
  LET T == TLCEval(Tokens(r.in.text))
      p == TLCEval(Parse(T))
  IN IF p.ok /\ "only" \in DOMAIN r.in THEN Chk("leaves only", "cols" \in DOMAIN r.out /\ r.out.cols = OnlyLeaves(p.v) /\ r.out.n = p.v.n)
     ELSE IF p.ok THEN /\ Chk("denotes a schema", "schema" \in DOMAIN r.out)
                       /\ Chk("schema", r.out.schema = p.v)
                       /\ Chk("leaves", r.out.cols = Leaves(p.v))
     ELSE Chk("denotes nothing", "err" \in DOMAIN r.out)
JNext == JStep(RecOk)
=============================================================================
