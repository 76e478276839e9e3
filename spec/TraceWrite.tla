----------------------------- MODULE TraceWrite -----------------------------
(***************************************************************************)
(* Validation of recorded in-place writes against AtomicWrite.             *)
(*                                                                         *)
(* A record is a sequence of snapshots of the file system taken while the  *)
(* implementation runs, [target, mode, link, work, others, phase]: what    *)
(* the path gives, whether the permission bits and the link are those of   *)
(* before, the number of other files made so far, whether the files which  *)
(* were there are as before, and whether the write is running, has ended,  *)
(* has failed or has crashed.  A snapshot follows another one if it is     *)
(* reached by some steps of AtomicWrite.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, pos, target, bad
tvars == <<tid, pos, target, bad>>

R == Records[tid]
S == R.snaps[pos + 1]

Init == tid \in 1..Len(Records) /\ pos = 0 /\ target = "old" /\ bad = {}

\* The steps of AtomicWrite, seen from outside: the target stays as it is or
\* goes from old to new; the rest is what Preserved and Tidy say.
Observed ==
  (IF S.target \notin {"old", "new"} THEN {"torn"} ELSE {})
  \cup (IF target = "new" /\ S.target = "old" THEN {"undone"} ELSE {})
  \cup (IF S.phase \in {"ended", "failed"}
        THEN (IF ~S.mode THEN {"mode"} ELSE {})
             \cup (IF ~S.link THEN {"link"} ELSE {})
             \cup (IF ~S.others THEN {"others"} ELSE {})
             \cup (IF S.work > 0 THEN {"left"} ELSE {})
        ELSE {})
  \cup (IF S.phase = "ended" /\ S.target # "new" THEN {"lost"} ELSE {})

Next == /\ pos < Len(R.snaps)
        /\ bad' = bad \cup Observed
        /\ target' = IF S.target = "new" THEN "new" ELSE target
        /\ pos' = pos + 1 /\ tid' = tid
Spec == Init /\ [][Next]_tvars

Emit == pos = Len(R.snaps) => PrintT(ToJson(IF bad = {} THEN <<tid>> ELSE <<tid, bad>>))
=============================================================================
