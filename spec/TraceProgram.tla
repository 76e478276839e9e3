--------------------------- MODULE TraceProgram ---------------------------
(***************************************************************************)
(* Validation of recorded runs against Program.                            *)
(*                                                                         *)
(* A record is a command (see Program) and what was seen: the exit status, *)
(* the text printed and, for each file, whether its content is the first   *)
(* one and whether it is the one the library gives.  The text of each      *)
(* table of contents is in the command, so what must be printed is their   *)
(* concatenation.                                                          *)
(***************************************************************************)
EXTENDS Program, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid
tvars == <<pvars, tid>>

R == Records[tid]

TraceInit == /\ tid \in 1..Len(Records)
             /\ cmd = Records[tid].cmd
             /\ ProgramInit
TraceNext == ProgramNext /\ tid' = tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* A trace has one behaviour: its position tells its states apart.
TraceView == <<tid, phase, k>>

\* What the run must leave in the i-th file.
Right(i) == IF content[cmd.files[i]] = 0 THEN R.seen.kept[i] ELSE R.seen.written[i]

Differences ==
  (IF R.seen.code # code THEN {"code"} ELSE {})
  \cup (IF code \in {0, 128} /\ R.seen.out # FlattenSeq(out) THEN {"out"} ELSE {})
  \cup (IF \E i \in 1..N : ~Right(i) THEN {"files"} ELSE {})
  \cup (IF R.seen.others THEN {} ELSE {"others"})

Emit == phase = "done" => PrintT(ToJson(
          IF Differences = {} THEN <<tid>> ELSE <<tid, Differences, code>>))

\* ---- several files: the library builds, the program writes -----------------
FirstFailure == LET F == {i \in 1..N : Lib(i).status # "ok"}
                IN IF F = {} THEN ""
                   ELSE Lib(CHOOSE i \in F : \A j \in F : i <= j).status
MultiDifferences ==
  (IF (R.seen.code = 0) # (code = 0) THEN {"failure"} ELSE {})
  \cup (IF ~cmd.inplace /\ code = 0 /\ R.seen.tocs # tocs THEN {"independent"} ELSE {})
  \cup (IF ~cmd.inplace /\ code = 1 /\ R.seen.failure # FirstFailure
        THEN {"failure"} ELSE {})
  \cup (IF \E i \in 1..N : ~Right(i) THEN {"files"} ELSE {})
  \cup (IF R.seen.others THEN {} ELSE {"others"})

EmitMulti == phase = "done" => PrintT(ToJson(
               IF MultiDifferences = {} THEN <<tid>>
               ELSE <<tid, MultiDifferences, code>>))
=============================================================================
