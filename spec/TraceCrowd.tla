----------------------------- MODULE TraceCrowd -----------------------------
(***************************************************************************)
(* Documents with thousands of different headings, as [slugs, anchors].    *)
(*                                                                         *)
(* By TocBuilder the suffix of an anchor is the number of the earlier      *)
(* headings with the same slug: where the slugs are all different no       *)
(* anchor has one.  (The counters of TocBuilder are too slow at this size; *)
(* this follows from NumberedAnchors, which MCDoc checks.)                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Crowds == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, done
Init == tid \in 1..Len(Crowds) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ tid' = tid
Spec == Init /\ [][Next]_<<tid, done>>

C == Crowds[tid]
\* The traces are made of different slugs.
Different == done => Cardinality(ToSet(C.slugs)) = Len(C.slugs)
Wrong == {i \in 1..Len(C.slugs) : C.anchors[i] # C.slugs[i]}
Emit == done => PrintT(ToJson(<<tid, SetToSeq(Wrong)>>))
=============================================================================
