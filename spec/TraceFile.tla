----------------------------- MODULE TraceFile -----------------------------
(***************************************************************************)
(* Validation of recorded operations on a file against MarkerFile.         *)
(*                                                                         *)
(* A record is [raw, toc, marker, nl, same, touched, equal, after]: the    *)
(* content of the file, a table of contents, the marker, the newline       *)
(* string, what the comparison gave and whether it modified the file, what *)
(* writing gave and the content of the file after it.                      *)
(***************************************************************************)
EXTENDS MarkerFile, TLC, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, done
Init == tid \in 1..Len(Records) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ tid' = tid
Spec == Init /\ [][Next]_<<tid, done>>

R == Records[tid]
Expected == WrittenRaw(R.raw, R.toc, R.marker, R.nl)
ExpectedSame == SameRaw(R.raw, R.toc, R.marker)

Differences ==
  (IF Normalised(R.after) # Normalised(Expected) THEN {"written"}
   ELSE IF R.after # Expected THEN {"newlines"} ELSE {})
  \cup (IF R.equal # ExpectedSame THEN {"equal"} ELSE {})
  \cup (IF R.same # ExpectedSame THEN {"same"} ELSE {})
  \cup (IF R.touched THEN {"touched"} ELSE {})

Emit == done => PrintT(ToJson(
          IF Differences = {} THEN <<tid>>
          ELSE <<tid, Differences, Expected, ExpectedSame>>))

\* C10 and C11 on the recorded files: only the block changes, and a file with
\* markers holds the block which has just been written.
InvBlock == OnlyTheBlock(Normalised(R.raw), Normalised(R.toc), R.marker)
=============================================================================
