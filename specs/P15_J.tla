------------------------------- MODULE P15_J -------------------------------
(* Pages compressed and decompressed alone and in streams with reused buffers. *)
EXTENDS Judge, Codec

Failed(x) == "err" \in DOMAIN x
Levels(p) == IF p.k = 3 THEN p.dl + p.rl ELSE 0
\* kept as they are: no codec, or a v2 page that says so
AsIs(p, codec) == codec = 0 \/ (p.k = 3 /\ p.ic = <<FALSE>>)
LevelsOk(p) == p.k = 3 => /\ p.dl >= 0 /\ p.rl >= 0
                          /\ p.dl <= Len(p.body) /\ p.rl <= Len(p.body) - p.dl
\* the codecs the library was built with
Supported(in, codec) == codec = 0 \/ codec \in {in.sup[j] : j \in 1..Len(in.sup)}
\* a codec whose format is specified decodes the section to the values
Decodes(codec, q, v) == CASE codec = 1 -> SnappyN(q, Len(v)).st = "ok" /\ Snappy(q).out = v
                          [] codec = 7 -> Lz4N(q, Len(v)).st \in {"ok", "lax"} /\ Lz4(q).out = v
                          [] OTHER -> TRUE
\* the page x compressed on its own is s
Compressed(in, x, s) ==
  LET p == x.p c == x.codec[1] IN
  IF ~AsIs(p, c) /\ (~Supported(in, c) \/ ~LevelsOk(p)) THEN Chk("must not compress", Failed(s))
  ELSE /\ Chk("compresses", ~Failed(s))
       /\ Chk("codec", s.codec = c)
       /\ Chk("uncompressed size", s.us = Len(p.body))
       /\ Chk("header", \A f \in DOMAIN p \ {"body"} : s[f] = p[f])
       /\ IF AsIs(p, c) THEN Chk("body kept", s.body = p.body)
          ELSE LET l == Levels(p) IN
               /\ Chk("levels first", Len(s.body) >= l /\ SubSeq(s.body, 1, l) = SubSeq(p.body, 1, l))
               /\ Chk("compressed values", Decodes(c, SubSeq(s.body, l + 1, Len(s.body)), SubSeq(p.body, l + 1, Len(p.body))))
\* the rows selected of a page: all of the one it has, or those it was told to
Sel(x) == IF x.sel = <<>> THEN <<<<<<0, 1>>>>>> ELSE x.sel
\* the page a compressed one must give: its damage decides
Given(x, s, d) ==
  LET p == IF x.p.k = 2 THEN x.p ELSE x.p @@ [sel |-> Sel(x)] c == x.codec[1] IN
  CASE c # 0 /\ ~LevelsOk(p) -> Chk("invalid levels", Failed(d) \/ Len(d.body) = Len(p.body))
    [] (c = 0 \/ LevelsOk(p)) /\ x.damage = <<>> -> Chk("restored", d = p)
    [] (c = 0 \/ LevelsOk(p)) /\ x.damage # <<>> /\ x.damage[1] = "size" -> IF AsIs(p, c) /\ c = 0 THEN Chk("body", Failed(d) \/ d = p) ELSE Chk("wrong size", Failed(d))
    [] (c = 0 \/ LevelsOk(p)) /\ x.damage # <<>> /\ x.damage[1] = "cut" -> IF c = 0 THEN Chk("cut body", Failed(d) \/ d.body = SubSeq(p.body, 1, Max2(0, Len(p.body) - x.damage[2])))
                                                ELSE IF Len(p.body) = (IF AsIs(p, c) THEN 0 ELSE Levels(p)) THEN Chk("cut empty body", Failed(d) \/ d = p)
                                                ELSE Chk("cut body", Failed(d))
    [] OTHER -> IF c = 2 /\ ~AsIs(p, c)
                THEN Chk("checksum", Failed(d) \/ d = p \/ (x.damage[2] % Len(s.body)) < Levels(p))
                ELSE Chk("length of a damaged page", Failed(d) \/ Len(d.body) = Len(p.body))
\* the levels codecs have, each of which keeps what is compressed
LevelRange == [x \in {2, 4, 6} |-> CASE x = 2 -> 0..10 [] x = 4 -> 0..11 [] x = 6 -> 1..22]
LevelOk(in, o) ==
  IF in.n \notin LevelRange[in.codec] THEN Chk("not a level", Failed(o))
  ELSE /\ Chk("a level", ~Failed(o) /\ o.level = in.n)
       /\ Chk("restored at this level", o.back = in.body)
StreamOk(r) ==
  LET ps == r.in.pages o == r.out n == Len(ps) IN
  /\ Chk("selected rows", \A k \in 1..n : "sel" \in DOMAIN o.alone[k] => o.alone[k].sel = Sel(ps[k]))
  /\ \A k \in 1..n : IF Failed(ps[k]) THEN Failed(o.alone[k])
                     ELSE /\ Compressed(r.in, ps[k], o.single[k])
                          /\ IF Failed(o.single[k]) THEN TRUE ELSE Given(ps[k], o.single[k], o.alone[k])
  /\ Chk("streaming decompression", o.dec = o.alone)
  /\ Chk("basic streaming decompression", o.basic = o.alone)
  /\ r.in.one # <<>> =>
       LET good == SelectSeq([k \in 1..n |-> k], LAMBDA k : ~Failed(o.single[k])) IN
       /\ Chk("stream written", o.comp.wrote /\ o.comp.errors = n - Len(good) /\ Len(o.comp.pages) = Len(good))
       /\ \A j \in 1..Len(good) : Chk("streaming compression", LET a == o.comp.pages[j] b == o.single[good[j]] IN a.body = b.body /\ a.us = b.us /\ a.k = b.k)
RecOk(r) == IF "pages" \in DOMAIN r.in THEN StreamOk(r) ELSE LevelOk(r.in, r.out)
JNext == JStep(RecOk)
=============================================================================
