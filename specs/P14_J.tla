------------------------------- MODULE P14_J -------------------------------
(* Schema trees and their flat form, leaves, type constraints, and containment. *)
EXTENDS Judge, Schema

Failed(x) == "err" \in DOMAIN x
FlatOk(r) ==
  LET q == TLCEval(SchemaOf(r.in.el)) IN
  IF ~q.ok THEN Chk("not a schema", Failed(r.out))
  ELSE IF "only" \in DOMAIN r.in THEN Chk("leaves only", "cols" \in DOMAIN r.out /\ r.out.cols = OnlyLeaves(q.v) /\ r.out.n = q.v.n)
  ELSE /\ Chk("is a schema", "schema" \in DOMAIN r.out)
       /\ Chk("schema", r.out.schema = q.v)
       /\ Chk("leaves", r.out.cols = Leaves(q.v))
TreeOk(r) ==
  LET s == r.in.schema
      S == Struct(r.out.thrift, 1)
  IN /\ Chk("built", "tree" \in DOMAIN r.out)
     /\ Chk("tree", r.out.tree = s)
     /\ Chk("leaves", r.out.cols = Leaves(s))
     /\ Chk("stored", S.ok /\ ListF(S.v, 2) = FlatSchema(s))
     /\ IF \A k \in 1..Len(s.f) : AllOk(s.f[k])
        THEN /\ Chk("read back", "schema" \in DOMAIN r.out.back)
             /\ Chk("schema read back", r.out.back.schema = s)
             /\ Chk("leaves read back", r.out.back.cols = Leaves(s))
        ELSE Chk("invalid annotation", Failed(r.out.back))
PrimOk(r) ==
  \A k \in 1..Len(r.in.of) :
    LET x == r.in.of[k] o == r.out[k] IN
    IF TypeOk(x) THEN Chk(<<"valid", x>>, o = x) ELSE Chk(<<"invalid", x>>, Failed(o))
RecOk(r) == CASE "el" \in DOMAIN r.in -> FlatOk(r)
              [] "schema" \in DOMAIN r.in -> TreeOk(r)
              [] "of" \in DOMAIN r.in -> PrimOk(r)
              [] OTHER -> "c" \in DOMAIN r.out /\ r.out.c = HoldsIn(r.in.a, r.in.b)
JNext == JStep(RecOk)
=============================================================================
