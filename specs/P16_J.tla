------------------------------- MODULE P16_J -------------------------------
(* {codec 5 or 7, body, n}: out is the outcome of the legacy codec, raw that of the plain one on the same input. *)
EXTENDS Judge, Codec
Is_(o, r) == "ok" \in DOMAIN o /\ o.ok = r.out
RecOk(r) ==
  LET B == r.in.body n == r.in.n o == r.out
      h == Hadoop(B, n)
      p == Lz4N(B, n)
  IN /\ Chk("plain block", CASE p.st = "ok" -> Is_(o.raw, p) [] p.st = "bad" -> "ok" \notin DOMAIN o.raw [] OTHER -> TRUE)
     /\ CASE h.st = "ok" -> Chk("frames", Is_(o.legacy, h))
          [] h.st = "bad" -> Chk("not framed: one plain block, or an error", o.legacy = o.raw)
          [] OTHER -> TRUE
     /\ "ok" \in DOMAIN o.legacy => Chk("length", Len(o.legacy.ok) = n)
JNext == JStep(RecOk)
=============================================================================
