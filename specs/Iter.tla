-------------------------------- MODULE Iter --------------------------------
(* The contract of an exact-size iterator over a fixed sequence, as a machine whose only state is the position.
   A history of calls is a sequence of <<"next">>, <<"nth", k>>, <<"hint">>, <<"rest">>; Results gives what each call
   must return: [] or [item] for next/nth, [remaining, remaining] for a size hint, the remaining items for rest. *)
EXTENDS Integers, Sequences, SequencesExt

IterNext(full, pos) == IF pos < Len(full) THEN [r |-> <<full[pos + 1]>>, pos |-> pos + 1]
                       ELSE [r |-> <<>>, pos |-> pos]
IterNth(full, pos, k) == IF pos + k < Len(full) THEN [r |-> <<full[pos + k + 1]>>, pos |-> pos + k + 1]
                         ELSE [r |-> <<>>, pos |-> Len(full)]
IterHint(full, pos) == [r |-> <<Len(full) - pos, Len(full) - pos>>, pos |-> pos]
IterRest(full, pos) == [r |-> SubSeq(full, pos + 1, Len(full)), pos |-> Len(full)]

IterCall(full, pos, op) ==
  CASE op[1] = "next" -> IterNext(full, pos)
    [] op[1] = "nth"  -> IterNth(full, pos, op[2])
    [] op[1] = "hint" -> IterHint(full, pos)
    [] op[1] = "rest" -> IterRest(full, pos)

\* results of a whole history of calls on an iterator over full
Results(full, ops) ==
  FoldLeft(LAMBDA acc, op : LET s == IterCall(full, acc.pos, op) IN [res |-> Append(acc.res, s.r), pos |-> s.pos],
           [res |-> <<>>, pos |-> 0], ops).res
\* the same for a sequence of n items that is too long to list (at(k): item k from 0); no rest
LongResults(n, at(_), ops) ==
  LET take(pos, k) == IF k < n - pos THEN [r |-> <<at(pos + k)>>, pos |-> pos + k + 1] ELSE [r |-> <<>>, pos |-> n]
      call(pos, op) == CASE op[1] = "next" -> take(pos, 0)
                         [] op[1] = "nth" -> take(pos, op[2])
                         [] op[1] = "hint" -> [r |-> <<n - pos, n - pos>>, pos |-> pos]
  IN FoldLeft(LAMBDA acc, op : LET s == call(acc.pos, op) IN [res |-> Append(acc.res, s.r), pos |-> s.pos],
              [res |-> <<>>, pos |-> 0], ops).res
=============================================================================
