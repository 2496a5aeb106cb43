------------------------------ MODULE SelectM ------------------------------
(* Selection as a walk over the rows of a chunk: the walk stands at a row, within a page and before or in an interval;
   it closes pages and intervals it leaves and takes the chosen rows, extending the last interval of the page when the
   previous row was taken for the same interval. In the end every page holds the intersections with the intervals.
   Checked exhaustively in a small scope against the row sets; every case is replayed against select_pages. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, TLCExt, Json, IOUtils

CONSTANTS MaxRows, MaxPages, MaxIvs
VARIABLES n, first, ivs, row, page, iv, out, fresh
vars == <<n, first, ivs, row, page, iv, out, fresh>>

\* nondecreasing first rows starting at 0, and sorted disjoint intervals (touching and empty ones included)
Firsts(N) == UNION {{f \in [1..m -> 0..N] : (m > 0 => f[1] = 0) /\ \A k \in 1..(m - 1) : f[k] <= f[k + 1]} : m \in 0..MaxPages}
IvSets(N) == UNION {{s \in [1..m -> (0..N) \X (0..N)] : /\ \A k \in 1..m : s[k][1] + s[k][2] <= N
                                                       /\ \A k \in 1..(m - 1) : s[k][1] + s[k][2] <= s[k + 1][1]} : m \in 0..MaxIvs}
Init == /\ n \in 0..MaxRows /\ first \in Firsts(n) /\ ivs \in IvSets(n)
        /\ row = 0 /\ page = 1 /\ iv = 1 /\ out = [k \in 1..Len(first) |-> <<>>] /\ fresh = TRUE

PEnd(f, N, k) == IF k = Len(f) THEN N ELSE f[k + 1]
Done == page > Len(first)
\* leave a page whose rows are all behind
ClosePage == /\ ~Done /\ row >= PEnd(first, n, page) /\ page' = page + 1 /\ fresh' = TRUE /\ UNCHANGED <<n, first, ivs, row, iv, out>>
InPage == ~Done /\ row < PEnd(first, n, page)
CloseIv == /\ InPage /\ iv <= Len(ivs) /\ row >= ivs[iv][1] + ivs[iv][2]
           /\ iv' = iv + 1 /\ fresh' = TRUE /\ UNCHANGED <<n, first, ivs, row, page, out>>
InIv == iv <= Len(ivs) /\ row < ivs[iv][1] + ivs[iv][2]
Skip == /\ InPage /\ (iv > Len(ivs) \/ (InIv /\ row < ivs[iv][1]))
        /\ row' = row + 1 /\ fresh' = TRUE /\ UNCHANGED <<n, first, ivs, page, iv, out>>
Take == /\ InPage /\ InIv /\ row >= ivs[iv][1]
        /\ LET o == out[page] l == Len(o) IN
           out' = [out EXCEPT ![page] = IF fresh THEN Append(o, <<row - first[page], 1>>) ELSE [o EXCEPT ![l] = <<o[l][1], o[l][2] + 1>>]]
        /\ row' = row + 1 /\ fresh' = FALSE /\ UNCHANGED <<n, first, ivs, page, iv>>
Next == ClosePage \/ CloseIv \/ Skip \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Rows(is, base) == UNION {{base + is[k][1] + j : j \in 0..(is[k][2] - 1)} : k \in 1..Len(is)}
Size(is) == LET s[k \in 0..Len(is)] == IF k = 0 THEN 0 ELSE s[k - 1] + is[k][2] IN s[Len(is)]
\* at any time the rows taken are the chosen rows behind the walk
Taken == UNION {Rows(out[k], first[k]) : k \in 1..Len(first)}
Exact == Taken = {r \in Rows(ivs, 0) : r < row /\ (Len(first) > 0)}
Once == LET s[k \in 0..Len(first)] == IF k = 0 THEN 0 ELSE s[k - 1] + Size(out[k]) IN s[Len(first)] = Cardinality(Taken)
Within == \A k \in 1..Len(first) : \A j \in 1..Len(out[k]) : out[k][j][2] > 0 /\ first[k] + out[k][j][1] + out[k][j][2] <= PEnd(first, n, k)
\* the intersections of a page with the intervals, as a function
Cut(f, N, is, k) == LET a == f[k] b == PEnd(f, N, k)
                        c(v) == LET s == IF v[1] > a THEN v[1] ELSE a
                                    e == IF v[1] + v[2] < b THEN v[1] + v[2] ELSE b IN <<s - a, e - s>>
                        q == [j \in 1..Len(is) |-> c(is[j])]
                    IN SelectSeq(q, LAMBDA v : v[2] > 0)
Same == Done => \A k \in 1..Len(first) : out[k] = Cut(first, n, ivs, k)
Ends == <>Done
Cases == UNION {{[rows |-> N, first |-> f, ivs |-> s, expect |-> [k \in 1..Len(f) |-> Cut(f, N, s, k)]] : f \in Firsts(N), s \in IvSets(N)} : N \in 0..MaxRows}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
