------------------------------- MODULE P17_J -------------------------------
(* File metadata through histories of conversions, side-cars and filters; enumerations and sort orders. *)
EXTENDS Judge, Meta

Failed(x) == "err" \in DOMAIN x
ViewOk(V, s, o) ==
  LET ls == TLCEval(Leaves(s)) IN
  /\ Chk("version", o.ver = IntF(V, 1)) /\ Chk("rows", o.rows = NumF(V, 3)) /\ Chk("created by", o.by = OptS(V, 6))
  /\ Chk("key values", o.kv = IF Has(V, 5) THEN <<[k \in 1..Len(ListF(V, 5)) |-> <<ListF(V, 5)[k].f[1].s, OptS(ListF(V, 5)[k], 2)>>]>> ELSE <<>>)
  /\ Chk("schema", o.schema = s)
  /\ Chk("orders", \A k \in 1..Len(o.orders) :
           o.orders[k] = IF Orders(V, s) # <<>> /\ k <= (IF Orders(V, s) = <<>> THEN 0 ELSE Orders(V, s)[1]) THEN <<TRUE, SortOrder(ls[k].leaf)>> ELSE <<FALSE, "Signed">>)
  /\ Chk("number of row groups", Len(o.rgs) = Len(Groups(V)))
  /\ \A k \in 1..Len(o.rgs) :
       LET g == Groups(V)[k] q == o.rgs[k] IN
       /\ Chk("row group", q.rows = NumF(g, 3) /\ q.bytes = NumF(g, 2) /\ q.csize = GroupSize(g) /\ Len(q.cols) = Len(ls))
       /\ \A j \in 1..Len(ls) :
            LET c == ListF(g, 1)[j] m == c.f[3] x == q.cols[j] IN
            /\ Chk("file of a column", x.file = OptS(c, 1) /\ x.fo = NumF(c, 2))
            /\ Chk("sizes", x.nv = NumF(m, 5) /\ x.us = NumF(m, 6) /\ x.cs = NumF(m, 7))
            /\ Chk("offsets", x.dpo = NumF(m, 9) /\ x.dict = OptNum(m, 11) /\ x.ipo = OptNum(m, 10) /\ x.ip = Has(m, 10)
                              /\ x.range = <<Start8(m), NumF(m, 7)>>)
            /\ Chk("codec", x.codec = CodecNames[IntF(m, 4) + 1])
            /\ Chk("encodings", x.encs = [e \in 1..Len(ListF(m, 2)) |-> ListF(m, 2)[e].i])
            /\ Chk("leaf", x.ty = ls[j].leaf.t /\ x.path = ls[j].path)
StateOk(V, s, o, what) ==
  LET S == TLCEval(Struct(o.thrift, 1)) IN
  /\ Chk(<<what, "stored">>, S.ok /\ S.n = Len(o.thrift) + 1 /\ S.v = Normal(V, s))
  /\ ViewOk(V, s, o.view)
MAGIC == <<80, 65, 82, 49>>
RECURSIVE OpsOk(_, _, _, _)
OpsOk(V, s, ops, states) ==
  IF ops = <<>> THEN TRUE
  ELSE LET op == ops[1]
           keep(k) == op[2][((k - 1) % Len(op[2])) + 1]
           W == TLCEval(IF op[1] = "filter" THEN Filtered(V, keep) ELSE V)
           o == states[1]
       IN /\ StateOk(W, s, o, op[1])
          /\ op[1] = "filter" => Chk("predicate calls", o.side = [k \in 1..Len(Groups(V)) |-> <<k - 1, NumF(Groups(V)[k], 3)>>])
          /\ op[1] = "sidecar" => Chk("side-car", /\ o.side[1] = Len(o.side[2])
                                                 /\ o.side[2] = MAGIC \o o.thrift \o LE(Len(o.thrift), 4) \o MAGIC)
          /\ OpsOk(W, s, Tail(ops), Tail(states))
RemetaOk(r) ==
  LET S == TLCEval(Struct(r.in.meta, 1))
      q == TLCEval(SchemaIn(S.v))
  IN /\ Chk("test input", S.ok)
     /\ IF ~q.ok THEN Chk("no schema", Failed(r.out))
        ELSE IF ~MetaOk(S.v, q.v) THEN Chk("no metadata", Failed(r.out))
        ELSE /\ Chk("read", "states" \in DOMAIN r.out)
             /\ Chk("all operations succeed", Len(r.out.states) = Len(r.in.ops) + 1)
             /\ StateOk(S.v, q.v, r.out.states[1], "converted")
             /\ OpsOk(S.v, q.v, r.in.ops, Tail(r.out.states))
\* one to one to and from stored codes
CodeOk(names, x, o) == o = IF x \in DOMAIN names THEN <<names[x], x>> ELSE <<>>
CodesOk(r) ==
  LET x == r.in.code o == r.out IN
  /\ Chk("codec", CodeOk(From0(CodecNames), x, o.codec)) /\ Chk("encoding", CodeOk(EncodingNames, x, o.encoding))
  /\ Chk("page type", CodeOk(PageNames, x, o.page)) /\ Chk("repetition", CodeOk(From0(RepetitionNames), x, o.repetition))
  /\ Chk("type", CodeOk(From0(TypeNames), x, o.type)) /\ Chk("converted type", CodeOk(ConvertedNames, x, o.converted))
  /\ Chk("group type", CodeOk(GroupNames, x, o.group))
SortOk(r) == \A k \in 1..Len(r.in.of) : Chk(<<"sort order", r.in.of[k]>>, r.out[k] = SortOrder(r.in.of[k]))
RecOk(r) == CASE "code" \in DOMAIN r.in -> CodesOk(r) [] "of" \in DOMAIN r.in -> SortOk(r) [] OTHER -> RemetaOk(r)
JNext == JStep(RecOk)
=============================================================================
