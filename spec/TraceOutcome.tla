---------------------------- MODULE TraceOutcome ----------------------------
(***************************************************************************)
(* Validation of recorded outcomes [bytes, good, opt, name, status, out]   *)
(* against Outcome; long files have no bytes and good says whether they    *)
(* can be decoded.                                                         *)
(***************************************************************************)
EXTENDS Outcome, TLC, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, done
Init == tid \in 1..Len(Records) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ tid' = tid
Spec == Init /\ [][Next]_<<tid, done>>

R == Records[tid]
Good == IF R.bytes = <<>> THEN R.good ELSE Decodable(R.bytes)
Emit == done => PrintT(ToJson(
          <<tid, Allowed(Good, R.opt, R.name, R.status, R.out), Good>>))
=============================================================================
