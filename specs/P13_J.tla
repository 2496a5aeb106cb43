------------------------------- MODULE P13_J -------------------------------
EXTENDS Judge, Bloom

SetOf(s) == {s[k] : k \in 1..Len(s)}
\* ops: <<"in", hash>> answers with the bits that came and went, <<"has", hash>> with the filter's answer
OpOk(bits, n, op, res) ==
  LET B == TLCEval(BitsOf(op[2], n)) IN
  IF op[1] = "in" THEN res.lost = <<>> /\ SetOf(res.new) = B \ bits
  ELSE res.yes = (B \subseteq bits)
UseOk(in, out) ==
  FoldLeft(LAMBDA a, k : IF ~a.ok THEN a
                         ELSE [ok |-> Chk(k, OpOk(a.bits, in.n, in.ops[k], out.res[k])),
                               bits |-> IF in.ops[k][1] = "in" THEN Inserted(a.bits, in.ops[k][2], in.n) ELSE a.bits],
           [ok |-> TRUE, bits |-> SetOf(in.pre)], [k \in 1..Len(in.ops) |-> k]).ok
HashOk(in, out) == out.h = XXH64(in.v)
ReadOk(in, out) ==
  IF in.at = <<>> THEN "err" \notin DOMAIN out /\ out.bits = <<>>
  ELSE LET s == TLCEval(StoredFilter(in.file, in.at[1])) IN
       CASE s.k = "std" -> "err" \notin DOMAIN out /\ out.bits = s.bits
         [] s.k = "bad" -> "err" \in DOMAIN out
         [] s.k = "other" -> "err" \in DOMAIN out \/ out.bits = <<>>
         [] OTHER -> TRUE
RecOk(r) == CASE r.in.k = "use" -> UseOk(r.in, r.out)
              [] r.in.k = "hash" -> HashOk(r.in, r.out)
              [] r.in.k = "read" -> ReadOk(r.in, r.out)
JNext == JStep(RecOk)
=============================================================================
