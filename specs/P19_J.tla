------------------------------- MODULE P19_J -------------------------------
EXTENDS Judge, PageBody

SplitOk(in, out) ==
  LET s == TLCEval(SplitBody(in)) IN
  IF ~s.ok THEN "err" \in DOMAIN out
  ELSE "err" \notin DOMAIN out /\ out.rep = s.rep /\ out.def = s.def /\ out.vals = s.vals
LevelOk(s, max, n, out) == LET l == TLCEval(LevelsOf(s, max, n)) IN l.ok => out = l.l
\* levels are compared where they are meant to be read
LevelsOk(in, out) ==
  LET s == TLCEval(SplitBody(in)) IN
  s.ok => LevelOk(s.rep, in.maxrep, in.n, out.rep) /\ LevelOk(s.def, in.maxdef, in.n, out.def)
StateOk(in, out) ==
  LET r == TLCEval(RowsOf(in)) IN
  CASE r.k = "err" -> "err" \in DOMAIN out
    [] r.k = "ok" -> /\ "err" \notin DOMAIN out
                     /\ Chk("rows", out.rows = r.rows)
                     /\ in.sel # <<>> => Chk("selected", out.sel = [k \in 1..Len(Positions(in.sel)) |-> r.rows[Positions(in.sel)[k] + 1]])
    [] OTHER -> TRUE
\* what iterators announce is what they hold: n at first, n - j after j items
Told(n, j) == <<<<n, n>>, <<n - j, n - j>>>>
LensOk19(in, out) ==
  LET r == TLCEval(RowsOf(in))
      m == Cardinality({k \in 1..in.n : r.rows[k] # <<>>})
      jm == Min2(in.j, m)
      jn == Min2(in.j, in.n)
      js == Min2(in.js, RowsIn(in.sel))
  IN r.k = "ok" =>
       /\ Chk("lengths", "err" \notin DOMAIN out)
       /\ Chk("values announced",
             IF in.ty = "bool" \/ (in.ty = "binary" /\ in.opt /\ ~IsDict(in)) THEN out.vals = <<>>
             ELSE IF IsDict(in) THEN out.vals = << <<in.n, in.n, in.n = 0>>, <<in.n - jn, in.n - jn, in.n - jn = 0>> >>
             ELSE out.vals = Told(m, jm))
       /\ Chk("validity announced", in.opt => out.valid = <<in.n, Told(in.n, jn)>>)
       /\ Chk("rows announced", in.opt => out.rows = Told(in.n, jn))
       /\ Chk("selected rows announced", in.sel # <<>> => out.sel = <<Told(RowsIn(in.sel), js)>>)
\* of very many rows, those at positions
One(rows) == LET v == TLCEval(rows) IN [k \in 1..Len(v) |-> <<v[k]>>]
LongOk(in, out) ==
  LET s == TLCEval(SplitBody(in))
      some(sec, max) == LET runs == TLCEval(IF max = 0 THEN <<>> ELSE RunsOf(sec, Width(max))) IN <<in.n, [k \in 1..Len(in.at) |-> LevelAt(runs, max, in.at[k])]>>
  IN /\ Chk("split", SplitOk(in, out.split))
     /\ Chk("repetition levels", out.levels.rep = some(s.rep, in.maxrep))
     /\ Chk("definition levels", out.levels.def = (IF in.opt \/ s.def # <<>> THEN some(s.def, in.maxdef) ELSE out.levels.def))
     /\ Chk("rows", out.state.rows = <<in.n, One(RowsAt(in, s, in.at))>>)
     /\ Chk("selected", in.sel # <<>> => out.state.sel = <<RowsIn(in.sel), One(RowsAt(in, s, [k \in 1..Len(in.sat) |-> PositionAt(in.sel, in.sat[k])]))>>)
RecOk(r) == IF "at" \in DOMAIN r.in THEN LongOk(r.in, r.out) ELSE /\ Chk("split", SplitOk(r.in, r.out.split))
            /\ Chk("levels", "err" \notin DOMAIN r.out.split => LevelsOk(r.in, r.out.levels))
            /\ Chk("state", StateOk(r.in, r.out.state))
            /\ Chk("lens", "j" \in DOMAIN r.in => LensOk19(r.in, r.out.lens))
JNext == JStep(RecOk)
=============================================================================
