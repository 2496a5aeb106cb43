------------------------------ MODULE ValidityM ------------------------------
(* Filtered iteration of validity runs as a machine: position in the runs, position in the intervals; parts of runs are skipped
   up to the next interval, or taken up to the end of the interval or of the run. Checked against the closed form of Validity for
   every run list and interval list of a small scope; all of them are replayed, encoded as bytes, into the iterators. *)
EXTENDS Validity, FiniteSets, Json, IOUtils, TLCExt

CONSTANTS MaxRuns, Counts, MaxIvs, Ends
VARIABLES rs, n, ivs, run, off, row, k, got, pend, given
vars == <<rs, n, ivs, run, off, row, k, got, pend, given>>
Rle(v, c) == [k |-> "rle", v |-> <<v, 0, 0, 0>>, n |-> c, vs |-> <<>>, g |-> 0]
Bp(vs) == [k |-> "bp", v |-> <<>>, n |-> 0, g |-> CeilDiv(Len(vs), 8), vs |-> [j \in 1..Len(vs) |-> <<vs[j], 0, 0, 0>>]]
Runs == {Rle(v, c) : v \in {0, 1}, c \in Counts} \cup {Bp(<<1, 0, 0, 1, 1, 1, 0, 1>>)}
Final == Runs \cup {Bp(<<0, 1, 1>>), Bp(<<1, 0, 1, 0, 0, 0, 0, 0, 0, 1>>)}
RLen(r) == IF r.k = "rle" THEN r.n ELSE Len(r.vs)
RBits(r) == IF r.k = "rle" THEN [j \in 1..r.n |-> r.v[1]] ELSE [j \in 1..Len(r.vs) |-> r.vs[j][1]]
Bits(l) == Concat([j \in 1..Len(l) |-> RBits(l[j])])
Lists == {<<x>> : x \in Final} \cup UNION {{Append(p, x) : p \in [1..m -> Runs], x \in Final} : m \in 1..(MaxRuns - 1)}
\* interval lists over m rows, borders among Ends and the last rows
Borders(m) == {e \in Ends \cup {m - 1, m} : e >= 0 /\ e <= m}
One(m) == {<<a, b - a>> : a, b \in Borders(m)}
Ivs(m) == {<<>>} \cup {<<q>> : q \in {x \in One(m) : x[2] >= 0}}
          \cup (IF MaxIvs < 2 THEN {} ELSE {s \in {<<p, q>> : p, q \in {x \in One(m) : x[2] >= 0}} : s[1][1] + s[1][2] <= s[2][1]})
Rows(l) == {m \in {Len(Bits(l)), Len(Bits(l)) - 2} : m >= 0}
Init == /\ rs \in Lists /\ n \in Rows(rs) /\ ivs \in Ivs(n)
        /\ run = 1 /\ off = 0 /\ row = 0 /\ k = 1 /\ got = 0 /\ pend = 0 /\ given = <<>>
Left == Min2(RLen(rs[run]) - off, n - row)
Part(t) == SubSeq(RBits(rs[run]), off + 1, off + t)
NextInterval == k <= Len(ivs) /\ got = ivs[k][2] /\ k' = k + 1 /\ got' = 0 /\ UNCHANGED <<rs, n, ivs, run, off, row, pend, given>>
Busy == k <= Len(ivs) /\ got < ivs[k][2]
NextRun == /\ Busy /\ off = RLen(rs[run]) /\ run < Len(rs)
           /\ run' = run + 1 /\ off' = 0 /\ UNCHANGED <<rs, n, ivs, row, k, got, pend, given>>
Skip == /\ Busy /\ got = 0 /\ row < ivs[k][1] /\ Left > 0
        /\ LET t == Min2(Left, ivs[k][1] - row) IN
           /\ off' = off + t /\ row' = row + t /\ pend' = pend + CountSet(Part(t), 0, t)
        /\ UNCHANGED <<rs, n, ivs, run, k, got, given>>
Take == /\ Busy /\ row = ivs[k][1] + got /\ Left > 0
        /\ LET t == Min2(Left, ivs[k][2] - got) p == Part(t) IN
           /\ off' = off + t /\ row' = row + t /\ got' = got + t /\ pend' = 0
           /\ given' = given \o [j \in 1..t |-> <<p[j], IF j = 1 THEN pend ELSE 0>>]
        /\ UNCHANGED <<rs, n, ivs, run, k>>
Next == NextInterval \/ NextRun \/ Skip \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Want == Selected(SubSeq(Bits(rs), 1, n), ivs)
IsPart == Len(given) <= Len(Want) /\ given = SubSeq(Want, 1, Len(given))
Remaining == RowsIn(ivs) - Len(given) >= 0
Finishes == <>(Len(given) = RowsIn(ivs))

Ops == << <<"hint">>, <<"next">>, <<"nth", 1>>, <<"hint">>, <<"rest">>, <<"next">>, <<"hint">> >>
CaseOf(l, m, s) ==
  LET b == SubSeq(Bits(l), 1, m) IN
  [bytes |-> EncRuns(l, 1), n |-> m, ivs |-> s, ops |-> Ops,
   expect |-> [runs |-> b, bits |-> Results(b, Ops), paired |-> Results(Paired(b), Ops), rows |-> Selected(b, s), slice |-> Results(Positions(s), Ops)]]
Cases == UNION {UNION {{CaseOf(l, m, s) : s \in Ivs(m)} : m \in Rows(l)} : l \in Lists}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
