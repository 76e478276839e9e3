----------------------------- MODULE TraceRun -----------------------------
(***************************************************************************)
(* Convergence: recorded histories of in-place runs and edits of a file.   *)
(*                                                                         *)
(* A history is a sequence of [kind, after, equal, fresh]: for a run, the  *)
(* content of the file after it, the verdict it gave and the content a     *)
(* first run gives to the file with the same lines and no table of         *)
(* contents yet; for an edit, the content after it.                        *)
(***************************************************************************)
EXTENDS Text, TLC, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, pos, content, clean, bad
tvars == <<tid, pos, content, clean, bad>>

H == Histories[tid]

Init == /\ tid \in 1..Len(Histories)
        /\ pos = 0 /\ content = <<>> /\ clean = FALSE /\ bad = {}

Event == H[pos + 1]

Edit == /\ Event.kind = "edit"
        /\ clean' = FALSE /\ bad' = bad

Run ==
  /\ Event.kind = "run"
  /\ clean' = TRUE
  /\ bad' = bad
       \* A run on a file which is up to date changes nothing, and says so.
       \cup (IF clean /\ Event.after # content THEN {"stable"} ELSE {})
       \cup (IF clean /\ ~Event.equal THEN {"verdict"} ELSE {})
       \* Any run gives what a first run would give.
       \cup (IF Event.after # Event.fresh THEN {"fresh"} ELSE {})

Next == /\ pos < Len(H)
        /\ Edit \/ Run
        /\ pos' = pos + 1 /\ content' = Event.after /\ tid' = tid
Spec == Init /\ [][Next]_tvars

Emit == pos = Len(H) => PrintT(ToJson(IF bad = {} THEN <<tid>> ELSE <<tid, bad>>))
=============================================================================
