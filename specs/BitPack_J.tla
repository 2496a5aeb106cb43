----------------------------- MODULE BitPack_J -----------------------------
(* Judges records of the real packer, unpacking iterator and bitmap iterator against Bytes!Pack / Unpack and Iter. *)
EXTENDS Judge, Bytes, Iter

TB(ty) == ty \div 8
PackOk(in, out) ==
  /\ out.packed = Pack(in.vals, in.w)
  /\ out.tail_zero
UnpackOk(in, out) ==
  IF in.w = 0 \/ Len(in.bytes) * 8 < in.n * in.w THEN "err" \in DOMAIN out
  ELSE /\ "ops" \in DOMAIN out
       /\ out.ops = Results(TLCEval(Unpack(in.bytes, in.w, in.n, TB(in.ty))), in.ops)
\* a bitmap shorter than the requested length: only the bits it holds are defined
BitmapOk(in, out) == out.ops = Results([k \in 1..in.n |-> BitAt(in.bytes, in.off + k - 1)], in.ops)
RecOk(r) == CASE r.in.k = "pack" -> PackOk(r.in, r.out)
              [] r.in.k = "unpack" -> UnpackOk(r.in, r.out)
              [] r.in.k = "bitmap" -> BitmapOk(r.in, r.out)
JNext == JStep(RecOk)
=============================================================================
