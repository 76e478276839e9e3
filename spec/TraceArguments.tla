-------------------------- MODULE TraceArguments ---------------------------
(***************************************************************************)
(* Validation of recorded histories of calls [call, outcome, changed]      *)
(* against Arguments.                                                      *)
(***************************************************************************)
EXTENDS Arguments, TLC, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, pos, bad
tvars == <<obj, tid, pos, bad>>
H == Records[tid]
S == H[pos + 1]
Init == ArgumentsInit /\ tid \in 1..Len(Records) /\ pos = 0 /\ bad = <<>>
Next == /\ pos < Len(H)
        /\ Called(S.call)
        /\ LET d == Agrees(S.call, S.outcome, {S.changed[k] : k \in 1..Len(S.changed)})
           IN bad' = IF d = {} THEN bad ELSE Append(bad, <<pos + 1, d>>)
        /\ pos' = pos + 1 /\ tid' = tid
Spec == Init /\ [][Next]_tvars

Emit == pos = Len(H) => PrintT(ToJson(<<tid, bad>>))
=============================================================================
