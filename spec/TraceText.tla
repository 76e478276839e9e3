----------------------------- MODULE TraceText -----------------------------
(***************************************************************************)
(* Validation of recorded calls [f, fam, in, out] of the functions of one  *)
(* line or text.                                                           *)
(***************************************************************************)
EXTENDS Texts, TLC, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, done
Init == tid \in 1..Len(Records) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ tid' = tid
Spec == Init /\ [][Next]_<<tid, done>>

Rec == Records[tid]
Applies == IF Rec.f = "lines" THEN TRUE ELSE InDomain(Rec.f, Rec.fam, Rec.in)
Expected == IF Rec.f = "lines" THEN MultiLine(Rec.in, Rec.fam, Rec.keep)
            ELSE Result(Rec.f, Rec.fam, Rec.in)
Emit == done => PrintT(ToJson(
          IF ~Applies THEN <<tid, "out">>
          ELSE IF Expected = Rec.out THEN <<tid>> ELSE <<tid, Expected>>))
=============================================================================
