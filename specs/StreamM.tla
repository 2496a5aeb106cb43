------------------------------ MODULE StreamM ------------------------------
(* A stream of pages decompressed with reused buffers, as documented by Decompressor: the source moves its buffer into
   a compressed page; a compressed page is decompressed into the decompressor's buffer, and its own buffer goes back to
   the source; an uncompressed page's buffer becomes the page's and goes back to the source when the next page is asked
   for. Buffers have an identity, a length and contents (the number of a page, or junk). In every state the page on
   view is that of the isolated page, no buffer is at two places, and no contents but the page's are in view. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, TLCExt, Json, IOUtils
CONSTANT MaxPages
VARIABLES pages, k, src, dec, cur, wasc, st
vars == <<pages, k, src, dec, cur, wasc, st>>
\* kind of page: compressed or not, its uncompressed size, whether its body is broken
Kinds == [c : BOOLEAN, n : {0, 1, 3}, bad : BOOLEAN]
Good == {x \in Kinds : x.bad => x.c}
Runs == UNION {[1..m -> Good] : m \in 0..MaxPages}
Buf(id, n) == [id |-> id, c |-> [j \in 1..n |-> 99]]
None == [id |-> 0, c |-> <<>>]
Init == /\ pages \in Runs /\ k = 0 /\ src \in {Buf(1, 0), Buf(1, 2)} /\ dec \in {Buf(2, 0), Buf(2, 2), Buf(2, 4)}
        /\ cur = <<>> /\ wasc = FALSE /\ st = "view"
Content(j) == [x \in 1..pages[j].n |-> j]
\* the buffer of the page on view goes back to where it came from
Back == IF cur = <<>> THEN <<src, dec>> ELSE IF wasc THEN <<src, cur[1]>> ELSE <<cur[1], dec>>
Advance ==
  /\ st = "view" /\ k < Len(pages) /\ k' = k + 1 /\ UNCHANGED <<pages, st>>
  /\ LET b == Back p == pages[k + 1]
         body == [id |-> b[1].id, c |-> IF p.c THEN [x \in 1..(p.n + 1) |-> 50 + k] ELSE Content(k + 1)]
     IN IF p.c
        THEN \* decompressed into the decompressor's buffer, resized to the declared size
             LET into == [id |-> b[2].id, c |-> [x \in 1..p.n |-> IF x <= Len(b[2].c) THEN b[2].c[x] ELSE 0]] IN
             IF p.bad THEN cur' = <<>> /\ src' = None /\ dec' = into /\ wasc' = FALSE
             ELSE cur' = <<[id |-> into.id, c |-> Content(k + 1)]>> /\ src' = body /\ dec' = None /\ wasc' = TRUE
        ELSE cur' = <<body>> /\ src' = None /\ dec' = b[2] /\ wasc' = FALSE
Stop == /\ st = "view" /\ k = Len(pages) /\ st' = "end" /\ cur' = <<>> /\ src' = Back[1] /\ dec' = Back[2] /\ wasc' = FALSE /\ UNCHANGED <<pages, k>>
Next == Advance \/ Stop
Spec == Init /\ [][Next]_vars
Isolated == st = "view" /\ k > 0 => IF pages[k].bad THEN cur = <<>> ELSE cur # <<>> /\ cur[1].c = Content(k)
Ids == (IF cur = <<>> THEN <<>> ELSE <<cur[1].id>>) \o <<src.id, dec.id>>
OnePlace == \A i, j \in 1..Len(Ids) : i # j /\ Ids[i] # 0 => Ids[i] # Ids[j]
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({[pages |-> r, inner |-> i, outer |-> o] : r \in Runs, i \in {0, 2}, o \in {0, 2, 4}}))
=============================================================================
