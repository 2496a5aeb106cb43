------------------------------ MODULE Hybrid_J ------------------------------
EXTENDS Judge, Hybrid, Iter

RunsMatch(spec, got) ==
  LET m == Len(spec) - 1
      bad == spec[Len(spec)].k = "err"
  IN /\ Len(got) = m + (IF bad THEN 1 ELSE 0)
     /\ \A j \in 1..m : IF spec[j].k = "bp" THEN "bp" \in DOMAIN got[j] /\ got[j].bp = spec[j].b
                        ELSE "rle" \in DOMAIN got[j] /\ got[j].rle = spec[j].b /\ got[j].n = spec[j].n
     /\ bad => "err" \in DOMAIN got[m + 1]
DecOk(in, out) ==
  LET runs == TLCEval(RunsOf(in.bytes, in.w))
      full == TLCEval(DenoteRuns(runs, in.w, in.n))
  IN /\ RunsMatch(runs, out.runs)
     /\ IF "err" \in DOMAIN out.vals THEN runs[1].k = "err"
        ELSE \/ out.vals.ops = Results(full, in.ops)
             \/ in.n = 0 /\ runs[1].k = "err"
\* runs of up to billions of values
LongOk(in, out) ==
  LET runs == TLCEval(RunsOf(in.bytes, in.w))
  IN RunsMatch(runs, out.runs) /\ "ops" \in DOMAIN out.vals /\ out.vals.ops = LongResults(in.n, LAMBDA j : ValueAt(runs, in.w, j), in.ops)
\* an encoding is right if it decodes to the values and nothing else is in it
EncOk(in, out) ==
  LET n == Len(in.vals)
      runs == TLCEval(RunsOf(out.bytes, in.w))
      held == FoldLeft(LAMBDA a, r : a + (IF r.k = "bp" THEN (Len(r.b) * 8) \div in.w ELSE r.n), 0, SubSeq(runs, 1, Len(runs) - 1))
  IN CASE in.f = "bitmap" -> out.bytes = Pack(in.vals, 1)
       [] OTHER -> /\ runs[Len(runs)].k = "end"
                   /\ in.w > 0 => held >= n       \* no value is left to the reader's padding
                   /\ DenoteRuns(runs, in.w, n) = in.vals
\* n values in periods
PeriodOk(in, out) ==
  LET runs == TLCEval(IF in.f = "bitmap" THEN <<[k |-> "bp", b |-> out.bytes, n |-> 0, nx |-> 0], [k |-> "end"]>> ELSE RunsOf(out.bytes, in.w))
      held == FoldLeft(LAMBDA a, r : a + (IF r.k = "bp" THEN (Len(r.b) * 8) \div in.w ELSE r.n), 0, SubSeq(runs, 1, Len(runs) - 1))
  IN /\ runs[Len(runs)].k = "end"
     /\ in.w > 0 => held >= in.n
     /\ in.f = "bitmap" => Len(out.bytes) = CeilDiv(in.n, 8)
     /\ \A j \in 1..Len(in.at) : ValueAt(runs, in.w, in.at[j]) = in.vals[(in.at[j] % Len(in.vals)) + 1]
RecOk(r) == CASE r.in.k = "period" -> PeriodOk(r.in, r.out)
              [] r.in.k = "dec" -> DecOk(r.in, r.out)
              [] r.in.k = "long" -> LongOk(r.in, r.out)
              [] r.in.k = "enc" -> EncOk(r.in, r.out)
JNext == JStep(RecOk)
=============================================================================
