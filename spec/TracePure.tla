----------------------------- MODULE TracePure -----------------------------
(***************************************************************************)
(* Validation of recorded histories against History.                       *)
(*                                                                         *)
(* A step is [op, writes, before, after, result, kept, fresh, freshafter]: *)
(* the operation with its arguments, whether it is one that writes, the    *)
(* files before and after it, its result, whether the arguments are as     *)
(* they were, and what the same operation on the same files gives and      *)
(* leaves in a process which did nothing before.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, pos, bad
tvars == <<tid, pos, bad>>

H == Records[tid]
S == H[pos + 1]

Init == tid \in 1..Len(Records) /\ pos = 0 /\ bad = {}

Differences ==
  (IF S.result # S.fresh THEN {"result"} ELSE {})
  \cup (IF S.after # S.freshafter THEN {"effect"} ELSE {})
  \cup (IF ~S.writes /\ S.after # S.before THEN {"touched"} ELSE {})
  \cup (IF ~S.kept THEN {"arguments"} ELSE {})
  \* The same operation on the same files gave something else before.
  \cup (IF \E i \in 1..pos : /\ H[i].op = S.op /\ H[i].before = S.before
                             /\ H[i].result # S.result
        THEN {"result"} ELSE {})

Next == /\ pos < Len(H)
        /\ bad' = bad \cup {<<pos + 1, d>> : d \in Differences}
        /\ pos' = pos + 1 /\ tid' = tid
Spec == Init /\ [][Next]_tvars

Emit == pos = Len(H) => PrintT(ToJson(IF bad = {} THEN <<tid>> ELSE <<tid, bad>>))
=============================================================================
