------------------------------- MODULE P04_J -------------------------------
(* Opening byte strings: the file is `pieces`, cut at each of `cuts`; cuts listed in `good` end in a footer whose
   metadata must be accepted. *)
EXTENDS Judge, File
Piece(p) == IF "rep" \in DOMAIN p THEN [k \in 1..p.rep[2] |-> p.rep[1]] ELSE p.b
\* a structure at the start of the metadata; bytes after it are nobody's business, and no writer leaves any
Lax(B) ==
  LET f == Footer(B) N == Len(B) IN
  IF f.ok \/ N < 12 \/ Bytes(B, N - 4, 4) # Magic \/ B[N - 4] >= 128 THEN f
  ELSE LET len == NatOf(Bytes(B, N - 8, 4)) IN
       IF len > N - 8 THEN f
       ELSE LET s == Struct(SubSeq(B, N - 8 - len + 1, N - 8), 1) IN [ok |-> s.ok, at |-> 0, v |-> s.v]
\* the metadata that is kept: row groups without position, ordinal and sorting columns
Kept(v) == [v EXCEPT !.f = [id \in DOMAIN v.f |-> IF id # 4 THEN v.f[id]
             ELSE VL([k \in 1..Len(v.f[4].l) |-> LET g == v.f[4].l[k] IN [id2 \in {1, 2, 3} |-> Fld(g, id2)]])]]
Framed(B) == LET N == Len(B) IN N >= 12 /\ Bytes(B, N - 4, 4) = Magic /\ B[N - 4] < 128 /\ NatOf(Bytes(B, N - 8, 4)) <= N - 8
\* damaged: the metadata has fields of other types than the format's, which its reader need not notice
OpenOk(B, good, damaged, o) ==
  LET f == TLCEval(Lax(B)) IN
  /\ Chk("sync and sized", o.sized)
  /\ Chk("sync and async", o.asy)
  /\ Chk("far away", "far" \in DOMAIN o => \A k \in 1..3 : o.far[k])
  /\ Chk("opened without a footer", ~(IF damaged THEN Framed(B) ELSE f.ok) => o.open = <<>>)
  /\ Chk("did not open", good => f.ok /\ o.open # <<>>)
  /\ (o.open # <<>> /\ f.ok /\ ~damaged) =>
       LET b == Concat([k \in 1..Len(o.open[1]) |-> Piece(o.open[1][k])])
           s == TLCEval(Struct(b, 1))
       IN /\ Chk("metadata decodes", s.ok)
          \* of metadata the crate did not write, the parts it keeps
          /\ Chk("metadata", IF good THEN Kept(s.v) = Kept(f.v) ELSE \A id \in {1, 3, 6} : Fld(s.v, id) = Fld(f.v, id))
RecOk(r) ==
  LET B == TLCEval(Concat([k \in 1..Len(r.in.pieces) |-> Piece(r.in.pieces[k])]))
  IN \A k \in 1..Len(r.in.cuts) : OpenOk(SubSeq(B, 1, r.in.cuts[k]), \E j \in 1..Len(r.in.good) : r.in.good[j] = r.in.cuts[k], r.in.dmg, r.out[k])
JNext == JStep(RecOk)
=============================================================================
