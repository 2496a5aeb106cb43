------------------------------- MODULE P23_J -------------------------------
EXTENDS Judge, Native

TypeNames23 == [i32 |-> "i32", i64 |-> "i64", f32 |-> "f32", f64 |-> "f64", i96 |-> "i96"]
NativeOk(in, out) ==
  /\ NoOrder(in.ty, in.a) \/ NoOrder(in.ty, in.b) \/ Chk("order", out.ord = <<Ord(in.ty, in.a, in.b), Ord(in.ty, in.b, in.a), 0>>)
  /\ in.ty # "binary" => /\ Chk("bytes", out.back = in.a /\ out.decoded = in.a)
                         /\ Chk("type", out.type = in.ty)
  /\ in.ty = "i96" => LET t == TLCEval(Instant(in.a)) IN Holds64(t) => Chk("instant", out.ns = SubSeq(t, 1, 8))
SmallOk(in, out) ==
  /\ Chk("eighths", out.eighths = CeilDiv(in.n, 8))
  /\ in.n < 32768 => Chk("bits", out.bits = BitsFor(in.n))
  /\ Chk("length", out.length = (IF Len(in.bytes) < 4 THEN <<>> ELSE PadTo(SubSeq(in.bytes, 1, 4), 8)))
RecOk(r) == IF "ty" \in DOMAIN r.in THEN NativeOk(r.in, r.out) ELSE SmallOk(r.in, r.out)
JNext == JStep(RecOk)
=============================================================================
