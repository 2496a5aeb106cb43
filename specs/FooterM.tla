------------------------------ MODULE FooterM ------------------------------
(* A file on disk as a sequence of tokens appended by writers, possibly torn in the middle of the last one by a crash.
   Two metadata blocks (one counting 1 row, the other 2), length fields, magics and other bytes. The file opens exactly
   when it ends in block, its length, magic; the specification of footers on bytes (File.tla) is checked against that
   token-level definition in every reachable state, and all the states are replayed against the real readers. *)
EXTENDS File, TLCExt, Json, IOUtils

CONSTANT MaxTokens
VARIABLES toks, torn

\* metadata with a schema of one column, n rows and no row groups; the second carries a creator as well, so is longer
\* (by five bytes: the tail of a block before two blocks is not by accident the start of a longer one)
Leaf == <<21, 2, 37, 0, 24, 1, 97, 0>>
Meta(n) == <<21, 2, 25, 44, 72, 1, 114, 21, 2, 0>> \o Leaf \o <<22, 2 * n, 25, 12>>
           \o (IF n = 2 THEN <<40, 3, 15, 15, 15, 0>> ELSE <<0>>)
Tok == [A |-> Meta(1), B |-> Meta(2), M |-> Magic, a |-> LE(Len(Meta(1)), 4), b |-> LE(Len(Meta(2)), 4),
        ab |-> LE(Len(Meta(1)) + Len(Meta(2)), 4), z |-> LE(0, 4), n |-> <<255, 255, 255, 255>>, h |-> LE(2147483000, 4), J |-> <<7>>]
Names == DOMAIN Tok
Whole(ts) == Concat([k \in 1..Len(ts) |-> Tok[ts[k]]])
\* the bytes on disk: the last `torn` bytes of the last token are missing
Disk == LET w == Whole(toks) IN SubSeq(w, 1, Len(w) - torn)

Init == toks = <<>> /\ torn = 0
Append_ == torn = 0 /\ Len(toks) < MaxTokens /\ \E t \in Names : toks' = Append(toks, t) /\ torn' = 0
Crash == toks # <<>> /\ torn = 0 /\ \E k \in 1..(Len(Tok[toks[Len(toks)]]) - 1) : torn' = k /\ UNCHANGED toks
Next == Append_ \/ Crash
Spec == Init /\ [][Next]_<<toks, torn>>

\* what the tokens say: 0 (not a file), 1 or 2 (rows of the block it opens with)
Opens == IF torn # 0 \/ Len(toks) < 3 \/ toks[Len(toks)] # "M" THEN 0
         ELSE LET x == toks[Len(toks) - 2] l == toks[Len(toks) - 1] IN
              IF x = "A" /\ l = "a" THEN 1 ELSE IF x = "B" /\ l = "b" THEN 2 ELSE 0
Rows(v) == IntF(v, 3)
BytesSay == LET f == Footer(Disk) IN IF f.ok THEN Rows(f.v) ELSE 0
Agree == BytesSay = Opens
\* a crash leaves a file that opens only if it did before (a torn last token never opens)
Torn == torn # 0 => BytesSay = 0

RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE LET S == Strings(n - 1) IN S \cup {Append(s, t) : s \in {x \in S : Len(x) = n - 1}, t \in Names}
CaseOf(ts, k) == LET w == Whole(ts) IN [bytes |-> SubSeq(w, 1, Len(w) - k), toks |-> ts, torn |-> k]
ASSUME "OUT" \in DOMAIN IOEnv =>
  ndJsonSerialize(IOEnv.OUT,
    SetToSeq({[CaseOf(ts, 0) EXCEPT !.bytes = @] : ts \in Strings(MaxTokens)}
             \cup UNION {{CaseOf(ts, k) : k \in 1..(Len(Tok[ts[Len(ts)]]) - 1)} : ts \in Strings(MaxTokens - 1) \ {<<>>}}))
=============================================================================
