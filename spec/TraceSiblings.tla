--------------------------- MODULE TraceSiblings ---------------------------
(***************************************************************************)
(* Ordered lists of thousands of entries, some with a sublist of one level.*)
(*                                                                         *)
(* A trace is [fam, mark, groups]: for each entry of the outer list its    *)
(* marker, its indentation and the <<indentation, marker>> of the entries  *)
(* of its sublist.  This is what Nested and Marked of TocBuilder (checked  *)
(* by MCDoc) say of such a list; TocBuilder itself is too slow for it.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils

Lists == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, done
Init == tid \in 1..Len(Lists) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ tid' = tid
Spec == Init /\ [][Next]_<<tid, done>>

L == Lists[tid]
Marker(n) == ToString(n) \o L.mark
Digits(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3
             ELSE IF n < 10000 THEN 4 ELSE 5

\* C08: the numbers, outside and inside.
BadMarkers ==
  {i \in 1..Len(L.groups) :
     \/ L.groups[i].marker # Marker(i)
     \/ \E j \in 1..Len(L.groups[i].inner) : L.groups[i].inner[j][2] # Marker(j)}

\* C07: a sublist is indented past the marker of its parent, where that is right.
Indent(i) == IF L.fam = "rc" THEN 4 ELSE Digits(i) + 2
BadIndents ==
  {i \in 1..Len(L.groups) :
     /\ L.groups[i].marker = Marker(i)
     /\ \/ L.groups[i].ind # 0
        \/ \E j \in 1..Len(L.groups[i].inner) : L.groups[i].inner[j][1] # Indent(i)}

Emit == done => PrintT(ToJson(<<tid, SetToSeq(BadMarkers), SetToSeq(BadIndents)>>))
=============================================================================
