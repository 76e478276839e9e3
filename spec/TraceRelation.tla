--------------------------- MODULE TraceRelation ---------------------------
(***************************************************************************)
(* Validation of recorded pairs [a, b] of runs against Relation.           *)
(***************************************************************************)
EXTENDS Relation, TLC, Json, IOUtils

Pairs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, done
Init == tid \in 1..Len(Pairs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ tid' = tid
Spec == Init /\ [][Next]_<<tid, done>>

A == Pairs[tid].a
B == Pairs[tid].b
\* The pairs are made to be comparable.
InvComparable == Comparable(A, B)
Emit == done => PrintT(ToJson(<<tid, Related(A, B)>>))
=============================================================================
