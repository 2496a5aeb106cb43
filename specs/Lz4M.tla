-------------------------------- MODULE Lz4M --------------------------------
(* An LZ4 block grown sequence by sequence together with what it denotes. In every finished state the decoder of
   Codec.tla returns that, and every proper prefix of the block denotes something shorter or nothing. The finished
   blocks are written out, framed, damaged and replayed against the real decompressor. *)
EXTENDS Codec, FiniteSets, TLCExt, Json, IOUtils
CONSTANTS MaxSeqs, Lits, Mlens, Ends
VARIABLES enc, out, ms, done
vars == <<enc, out, ms, done>>

\* literals are told apart by their position, so that a wrong copy shows
Lit(o, l) == [k \in 1..l |-> (7 * (Len(o) + k)) % 251]
RECURSIVE More(_)
More(x) == IF x < 255 THEN <<x>> ELSE <<255>> \o More(x - 255)
Nib(x) == IF x < 15 THEN x ELSE 15
Tail_(x) == IF x < 15 THEN <<>> ELSE More(x - 15)
Seq_(o, l, off, m) == <<16 * Nib(l) + Nib(m - 4)>> \o Tail_(l) \o Lit(o, l) \o <<off % 256, off \div 256>> \o Tail_(m - 4)
Fin(o, l) == <<16 * Nib(l)>> \o Tail_(l) \o Lit(o, l)

Init == enc = <<>> /\ out = <<>> /\ ms = 0 /\ done = FALSE
Add == /\ ~done /\ ms < MaxSeqs
       /\ \E l \in Lits : \E off \in {1, 2, 3, Len(out) + l} : \E m \in Mlens :
            LET o1 == out \o Lit(out, l) IN
            /\ off >= 1 /\ off <= Len(o1)
            /\ enc' = enc \o Seq_(out, l, off, m)
            /\ out' = CopyBack(o1, off, m)
            /\ ms' = ms + 1 /\ UNCHANGED done
Finish == ~done /\ \E l \in Ends : enc' = enc \o Fin(out, l) /\ out' = out \o Lit(out, l) /\ done' = TRUE /\ UNCHANGED ms
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars
Decodes == done => Lz4(enc) = [st |-> "ok", out |-> out]
Shorter == done => \A k \in 0..(Len(enc) - 1) : LET r == Lz4(SubSeq(enc, 1, k)) IN r.st = "bad" \/ Len(r.out) < Len(out)

RECURSIVE Grown(_)
Grown(k) == IF k = 0 THEN {<<<<>>, <<>>, 0>>}
            ELSE LET S == Grown(k - 1) IN
                 S \cup UNION {{<<s[1] \o Seq_(s[2], x[1], x[2], x[3]), CopyBack(s[2] \o Lit(s[2], x[1]), x[2], x[3]), k>> :
                                 x \in {y \in Lits \X {1, 2, 3, 4, 5, 40} \X Mlens : y[2] <= Len(s[2]) + y[1]}} : s \in {y \in S : y[3] = k - 1}}
Blocks == UNION {{[enc |-> s[1] \o Fin(s[2], l), out |-> s[2] \o Lit(s[2], l)] : l \in Ends \cup (IF s[3] = 0 THEN {0, 1, 5, 15, 270} ELSE {})} : s \in Grown(MaxSeqs)}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Blocks))
=============================================================================
