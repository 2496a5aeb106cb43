------------------------------- MODULE P05_J -------------------------------
(* The async interfaces against the sync ones. *)
EXTENDS Judge, File

WriteOk(in, o) ==
  LET s == o["sync"] a == o["async"] IN
  /\ Chk("results", s.ops = a.ops)
  /\ Ended(in, s) # 0 => Chk("bytes", s.sink = a.sink)
  /\ (Ended(in, s) # 0 /\ "rgs" \in DOMAIN s.read) =>
       /\ Chk("metadata", s.read.asame)
       /\ \A g \in ToSet(s.read.rgs) : \A c \in ToSet(g.cols) :
            /\ Chk("page stream", c.asy = c.iter)
            /\ Chk("page stream from start", c.ast = c.iter)
            /\ Chk("column read", c.araw)
\* streams of the pages of raw bytes: same pages, same end or failure, same pages offered to the filter
Agrees(s, a) == /\ Chk("events", s.events = a.events)
                /\ (s.events = <<>> \/ "err" \notin DOMAIN s.events[Len(s.events)]) =>
                     Chk("filtered", s.filt = a.filt) /\ Chk("position", s.pos = a.pos)
RecOk(r) == IF "ops" \in DOMAIN r.in THEN WriteOk(r.in, r.out)
            \* limits below any header's size are left to the Thrift readers, which account for them differently
            ELSE /\ \A x \in {r.out.seek, r.out.here} : ("i" \in DOMAIN r.in.max /\ r.in.max.i < 2^24) => Chk("allocations", x.big <= 2 * r.in.max.i + 2^21)
                 /\ ("i" \in DOMAIN r.in.max /\ r.in.max.i < 1000) \/ (Agrees(r.out["sync"], r.out.seek) /\ Agrees(r.out["sync"], r.out.here))
JNext == JStep(RecOk)
=============================================================================
