------------------------------- MODULE P11_J -------------------------------
EXTENDS Judge, Validity

FirstBytes(vs) == [k \in 1..Len(vs) |-> vs[k][1]]
\* runs denote fewer than n rows or are cut: nothing is required of the rows beyond
Held(runs, n) == FoldLeft(LAMBDA a, r : a + (IF r.k = "bp" THEN Len(r.b) * 8 ELSE Min2(r.n, n)), 0, SubSeq(runs, 1, Len(runs) - 1))
LensOk(lens, total) == \A j \in 1..Len(lens) : lens[j][1] + lens[j][2] = total
\* pairs of a length and whether it is said to be none
Empties(out) == \A j \in 1..Len(out.empties) : out.empties[j][2] = (out.empties[j][1] = 0)
ValidOk(in, out) ==
  LET runs == TLCEval(RunsOf(in.bytes, 1))
      b == TLCEval(FirstBytes(DenoteRuns(runs, 1, in.n)))
  IN IF Held(runs, in.n) < in.n THEN TRUE
     ELSE /\ Chk("runs", out.runs = b)
          /\ Chk("runs left", LensOk(out.left, in.n))
          /\ Chk("bits", out.bits = Results(b, in.ops))
          /\ Chk("paired", out.paired = Results(TLCEval(Paired(b)), in.ops))
          /\ Chk("rows", out.rows = Selected(b, in.ivs))
          /\ Chk("rows left", LensOk(out.rleft, RowsIn(in.ivs)))
          /\ Chk("empty or not", Empties(out))
          /\ Chk("rows of the filtered runs", out.flen = RowsIn(in.ivs))
          /\ Chk("slice", out.slice = Results(TLCEval(Positions(in.ivs)), in.ops))
\* runs given one by one, each bitmap with the number of its bits that count
Bits8(b) == [k \in 1..(8 * Len(b)) |-> (b[((k - 1) \div 8) + 1] \div (2 ^ ((k - 1) % 8))) % 2]
BitsOf(q) == IF q[1] = "b" THEN SubSeq(Bits8(q[2]), 1, q[3]) ELSE [k \in 1..q[3] |-> q[2]]
RunsOk(in, out) ==
  LET b == TLCEval(FoldLeft(LAMBDA a, q : a \o BitsOf(q), <<>>, in.runs))
  IN /\ Chk("bits of given runs", out.bits = Results(b, in.ops))
     /\ Chk("rows of given runs", out.rows = Selected(b, in.ivs))
     /\ Chk("empty or not", Empties(out))
     /\ Chk("rows of the given filtered runs", out.flen = RowsIn(in.ivs))
     /\ Chk("rows left of given runs", LensOk(out.rleft, RowsIn(in.ivs)))
\* rows too many to list
LongOk(in, out) ==
  LET ps == TLCEval(PiecesOf(TLCEval(RunsOf(in.bytes, 1)), in.n))
  IN /\ Chk("runs", out.runs = [k \in 1..Len(ps) |-> <<ps[k][1], 0, ps[k][3] - ps[k][2]>>])
     /\ Chk("runs left", LensOk(out.left, in.n))
     /\ Chk("bits", out.bits = LongResults(in.n, LAMBDA k : ValidAt(ps, k), in.ops))
     /\ Chk("paired", out.paired = LongResults(in.n, LAMBDA k : PairAt(ps, k), in.ops))
     /\ Chk("rows", out.rows = SelectedPieces(ps, in.ivs))
     /\ Chk("rows left", LensOk(out.rleft, RowsIn(in.ivs)))
     /\ Chk("slice", out.slice = LongResults(RowsIn(in.ivs), LAMBDA k : PositionAt(in.ivs, k), in.ops))
RecOk(r) == IF "long" \in DOMAIN r.in THEN LongOk(r.in, r.out) ELSE IF "runs" \in DOMAIN r.in THEN RunsOk(r.in, r.out) ELSE ValidOk(r.in, r.out)
JNext == JStep(RecOk)
=============================================================================
