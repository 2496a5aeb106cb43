------------------------------- MODULE P12_J -------------------------------
EXTENDS Judge, Delta, Iter

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* at the end of valid data the values and the bytes used; at a defect an error, after no more than the values before it
DecOk(bytes, out) ==
  LET h == TLCEval(DeltaHeader(bytes, 1))
      d == TLCEval(DeltaAt(bytes, 1))
  IN IF h.odd THEN TRUE
     ELSE IF d.ok THEN "err" \notin DOMAIN out /\ out.vals = d.vals /\ out.n = d.n - 1
     ELSE "err" \in DOMAIN out /\ IsPrefixOf(out.vals, d.vals)
OpsOk(in, out) == "ops" \in DOMAIN out /\ out.ops = Results(DeltaAt(in.bytes, 1).vals, in.ops)
\* an encoding is right when it decodes to the values and nothing follows it
EncOk(in, out) ==
  LET d == TLCEval(DeltaAt(out.bytes, 1))
  IN /\ out.kept
     /\ d.ok /\ d.vals = in.vals /\ d.n = Len(out.bytes) + 1
     /\ "err" \notin DOMAIN out.back /\ out.back.vals = in.vals /\ out.back.n = Len(out.bytes)
\* sequences in constant steps, too long to list: value k is the first plus k steps
RECURSIVE Times(_, _)
Times(d, k) == IF k = 0 THEN Zeros(8) ELSE LET h == TLCEval(Times(Add64(d, d), k \div 2)) IN IF k % 2 = 1 THEN Add64(h, d) ELSE h
LongOk(in, out) ==
  IF "bytes" \in DOMAIN in THEN "ops" \in DOMAIN out /\ out.ops = LongResults(in.n, LAMBDA k : Add64(in.first, Times(in.step, k)), in.ops)
  ELSE LET h == TLCEval(DeltaHeader(out.bytes, 1)) IN
       /\ out.kept /\ h.ok /\ h.count = Len(in.vals)
       /\ "err" \notin DOMAIN out.back /\ out.back.vals = in.vals /\ out.back.n = Len(out.bytes)
DeltaOk(in, out) == IF "n" \in DOMAIN in THEN LongOk(in, out) ELSE IF "vals" \in DOMAIN in THEN EncOk(in, out)
                    ELSE IF "ops" \in DOMAIN in THEN OpsOk(in, out)
                    ELSE DecOk(in.bytes, out)

Flat(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)
LengthReadOk(s, out) ==
  s.ok => /\ "err" \notin DOMAIN out
          /\ out.lens = s.lens /\ out.values = Flat(s.items) /\ out.into = out.values
\* suffixes, concatenated, with the prefixes, are the items
BytesReadOk(B, s, out) ==
  s.ok => /\ "err" \notin DOMAIN out
          /\ out.prefixes = s.prefixes /\ out.lens = s.suffixes
          /\ out.values = SubSeq(B, s.n - Total(s.suffixes), s.n - 1)
PlainReadOk(s, out) == IF s.ok THEN "err" \notin DOMAIN out /\ out.items = s.items ELSE "err" \in DOMAIN out
ReadOk(f, B, out) ==
  CASE f = "length" -> LengthReadOk(TLCEval(DeltaLengthAt(B, 1)), out)
    [] f = "prefix" -> BytesReadOk(B, TLCEval(DeltaBytesAt(B, 1)), out)
    [] f = "plain" -> PlainReadOk(TLCEval(PlainAt(B, 1, <<>>)), out)
ItemsOk(in, out) ==
  IF "bytes" \in DOMAIN in THEN ReadOk(in.f, in.bytes, out)
  ELSE LET s == TLCEval(IF in.f = "length" THEN DeltaLengthAt(out.bytes, 1) ELSE DeltaBytesAt(out.bytes, 1))
       IN s.ok /\ s.items = in.items /\ s.n = Len(out.bytes) + 1 /\ ReadOk(in.f, out.bytes, out.back)

VarintOk(in, out) ==
  IF "v" \in DOMAIN in
  THEN LET k == TLCEval(UlebEnd(out.bytes, 1))
           u == TLCEval(UlebVal64(out.bytes, 1, k))
       IN /\ k = Len(out.bytes) /\ k > 0 /\ UlebFits64(out.bytes, 1, k)
          /\ (IF in.f = "zigzag" THEN UnZigZag64(u) ELSE u) = in.v
          /\ k > 1 => out.bytes[k] # 0                     \* no longer than needed
          /\ in.f = "uleb" => out.kept
  ELSE LET k == TLCEval(UlebEnd(in.bytes, 1)) IN
       IF k = 0 \/ ~UlebFits64(in.bytes, 1, k) THEN "err" \in DOMAIN out
       ELSE /\ "err" \notin DOMAIN out /\ out.n = k
            /\ out.v = (IF in.f = "zigzag" THEN UnZigZag64(TLCEval(UlebVal64(in.bytes, 1, k))) ELSE UlebVal64(in.bytes, 1, k))
RecOk(r) == CASE r.in.k = "delta" -> DeltaOk(r.in, r.out)
              [] r.in.k = "items" -> ItemsOk(r.in, r.out)
              [] r.in.k = "varint" -> VarintOk(r.in, r.out)
JNext == JStep(RecOk)
=============================================================================
