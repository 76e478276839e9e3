----------------------------- MODULE MCOutcome -----------------------------
(***************************************************************************)
(* Every sequence of at most Depth pieces of bytes, and whether it can be  *)
(* decoded.  Printed for replay.                                           *)
(***************************************************************************)
EXTENDS Outcome, TLC, Json, IOUtils

Config == JsonDeserialize(IOEnv.MC_CONFIG)
Tokens == Config.tokens
Depth  == Config.depth

VARIABLES h, st
Init == h = <<>> /\ st = Ready
Next == /\ Len(h) < Depth
        /\ \E k \in 1..Len(Tokens) :
             h' = Append(h, k) /\ st' = FoldLeft(Utf8Step, st, Tokens[k])
Spec == Init /\ [][Next]_<<h, st>>

Bytes == Cat([k \in 1..Len(h) |-> Tokens[h[k]]])
Emit == PrintT(ToJson(<<h, st = Ready>>))

\* Reading the bytes piece by piece is reading them at once, and what is ill
\* formed stays so.
InvPieces == (st = Ready) = Decodable(Bytes)
InvAscii == (\A k \in 1..Len(Bytes) : Bytes[k] < 128) => st = Ready
StaysIll == [][st = Ill => st' = Ill]_<<h, st>>
=============================================================================
