----------------------------- MODULE TraceMany -----------------------------
(***************************************************************************)
(* Documents of tens of thousands of lines, as [keep, levels, words,       *)
(* labels]: the level (0: not a heading) and the text of each line, and    *)
(* the labels of the entries.  ExactlyVisible of TocBuilder (checked by    *)
(* MCDoc), in a form TLC evaluates at this size.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils

Many == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, done
Init == tid \in 1..Len(Many) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ tid' = tid
Spec == Init /\ [][Next]_<<tid, done>>

M == Many[tid]
Visible == SelectSeq([k \in 1..Len(M.levels) |-> k],
                     LAMBDA k : M.levels[k] >= 1 /\ M.levels[k] <= M.keep)
\* The first entry which is not the one it must be; 0: none.
FirstWrong ==
  LET V == Visible
      bad == SelectInSeq([i \in 1..Len(V) |-> i],
                         LAMBDA i : IF i > Len(M.labels) THEN TRUE
                                    ELSE M.labels[i] # M.words[V[i]])
  IN IF bad # 0 THEN bad
     ELSE IF Len(M.labels) > Len(V) THEN Len(V) + 1 ELSE 0

Emit == done => PrintT(ToJson(<<tid, FirstWrong>>))
=============================================================================
