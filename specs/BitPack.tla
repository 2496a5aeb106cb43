------------------------------ MODULE BitPack ------------------------------
(* Bit packing as the implementation does it: LANES values of LANES bits are packed, one value per step, into words
   of LANES bits; a value that straddles two words is split. The invariant states that this word-level machine
   produces the bit-level layout of the format (value k occupies bits k*w .. k*w+w-1), and that unpacking the words
   gives the values back. Inputs are the single-bit and all-ones values (the machine is OR-linear, so these decide
   it for every input). *)
EXTENDS Bytes, FiniteSets

CONSTANT LANES
VARIABLES w, src, k, words, back
vars == <<w, src, k, words, back>>

Mask(n, b) == n % Pow2(b)
Shl(n, b) == Mask(n * Pow2(b), LANES)
Shr(n, b) == n \div Pow2(b)
RECURSIVE OrN(_, _, _)
OrN(a, b, n) == IF n = 0 THEN 0 ELSE (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0) + 2 * OrN(a \div 2, b \div 2, n - 1)
Or(a, b) == OrN(a, b, LANES)

Lane == 0..LANES-1
Inputs(ww) == {[x \in Lane |-> 0], [x \in Lane |-> Pow2(ww) - 1]}
              \union {[x \in Lane |-> IF x = p THEN Pow2(b) ELSE 0] : p \in Lane, b \in 0..(IF ww = 0 THEN 0 ELSE ww-1)}

Init == /\ w \in 0..LANES
        /\ src \in {s \in Inputs(w) : w > 0 \/ \A x \in Lane : s[x] = 0}
        /\ k = 0
        /\ words = [x \in Lane |-> 0]
        /\ back = [x \in Lane |-> 0]

PackStraddling == LET s == k * w  e == s + w IN
  /\ k < LANES /\ w > 0
  /\ s \div LANES # e \div LANES /\ e % LANES # 0
  /\ words' = [words EXCEPT ![s \div LANES] = Or(@, Shl(src[k], s % LANES)),
                            ![e \div LANES] = Or(@, Shr(src[k], w - (e % LANES)))]
  /\ k' = k + 1 /\ UNCHANGED <<w, src, back>>
PackWithin == LET s == k * w  e == s + w IN
  /\ k < LANES /\ w > 0
  /\ ~(s \div LANES # e \div LANES /\ e % LANES # 0)
  /\ words' = [words EXCEPT ![s \div LANES] = Or(@, Shl(src[k], s % LANES))]
  /\ k' = k + 1 /\ UNCHANGED <<w, src, back>>
PackZeroWidth == w = 0 /\ k < LANES /\ k' = LANES /\ UNCHANGED <<w, src, words, back>>
\* unpacking, one value per step
UnpackNext == LET j == k - LANES  s == j * w  e == s + w IN
  /\ k >= LANES /\ k < 2 * LANES
  /\ back' = [back EXCEPT ![j] =
       IF w = 0 THEN 0
       ELSE IF s \div LANES # e \div LANES /\ e % LANES # 0
       THEN Or(Shr(words[s \div LANES], s % LANES), Mask(Shl(words[e \div LANES], w - (e % LANES)), w))
       ELSE Mask(Shr(words[s \div LANES], s % LANES), w)]
  /\ k' = k + 1 /\ UNCHANGED <<w, src, words>>
Next == PackStraddling \/ PackWithin \/ PackZeroWidth \/ UnpackNext
Spec == Init /\ [][Next]_vars

WordBit(p) == (words[p \div LANES] \div Pow2(p % LANES)) % 2
SrcBit(j, b) == (src[j] \div Pow2(b)) % 2
Layout == \A p \in 0..(LANES * LANES - 1) :
            WordBit(p) = IF w > 0 /\ p < Min2(k, LANES) * w THEN SrcBit(p \div w, p % w) ELSE 0
RoundTrip == \A j \in Lane : j < k - LANES => back[j] = src[j]
\* the byte-level operators used to judge the code agree with the machine
ByteLevel == (k = LANES /\ w > 0) =>
  LET nb == CeilDiv(LANES * w, 8)
      vals == [j \in 1..LANES |-> LE(src[j - 1], 8)]
      pk == Pack(vals, w)
  IN /\ \A p \in 0..(8 * nb - 1) : BitAt(pk, p) = WordBit(p)
     /\ Unpack(pk, w, LANES, 8) = vals
=============================================================================
