------------------------------ MODULE MCInput ------------------------------
(***************************************************************************)
(* Every text made of at most Depth tokens (pieces of lines and line       *)
(* endings), with its lines in canonical form: a line feed after each.     *)
(***************************************************************************)
EXTENDS Relation, TLC, Json, IOUtils

Config == JsonDeserialize(IOEnv.MC_CONFIG)
Tokens == Config.tokens
Depth  == Config.depth

VARIABLES body
Init == body = <<>>
Next == /\ Len(body) < Depth
        /\ \E k \in 1..Len(Tokens) : body' = Append(body, k)
Spec == Init /\ [][Next]_body

Raw == Cat([k \in 1..Len(body) |-> Tokens[body[k]]])
Lines == LinesOf(Raw)
Canonical == Cat([k \in 1..Len(Lines) |-> Append(Lines[k], LF)])

Emit == PrintT(ToJson(<<Raw, Canonical>>))

\* The canonical form has the same lines, and so has any newline style.
InvCanonical == LinesOf(Canonical) = Lines
InvStyles == \A nl \in NewlineStrings :
               /\ LinesOf(WithNewline(Canonical, nl)) = Lines
               /\ LinesOf(WithNewline(Join(Lines, <<LF>>), nl)) =
                    (IF Lines # <<>> /\ Lines[Len(Lines)] = <<>>
                     THEN SubSeq(Lines, 1, Len(Lines) - 1) ELSE Lines)
\* No line holds a line ending, and nothing else is lost.
InvLines == /\ \A k \in 1..Len(Lines) : \A j \in 1..Len(Lines[k]) :
                 Lines[k][j] \notin {CR, LF}
            /\ Cat(Lines) = SelectSeq(Raw, LAMBDA c : c \notin {CR, LF})
InvOutput == \A nl \in NewlineStrings : OnlyNewline(WithNewline(Canonical, nl), nl)
=============================================================================
