------------------------------ MODULE MCFile ------------------------------
(***************************************************************************)
(* Every file of at most Depth lines taken from Lines, with and without    *)
(* the last line ending; for each the result of comparing it with, and of  *)
(* writing in it, each table of contents of Tocs.  Printed for replay.     *)
(***************************************************************************)
EXTENDS MarkerFile, TLC, Json, IOUtils

Config == JsonDeserialize(IOEnv.MC_CONFIG)
Lines  == Config.lines
Tocs   == Config.tocs
Marker == Config.marker
Depth  == Config.depth

VARIABLES body
Init == body = <<>>
Next == /\ Len(body) < Depth
        /\ \E k \in 1..Len(Lines) : body' = Append(body, k)
Spec == Init /\ [][Next]_body

Content == Join([k \in 1..Len(body) |-> Lines[body[k]]], <<LF>>)
\* The contents having these lines.
Contents == IF body = <<>> THEN <<<<>>>>
            ELSE IF Lines[body[Len(body)]] = <<>> THEN <<Append(Content, LF)>>
            ELSE <<Append(Content, LF), Content>>

Emit == PrintT(ToJson([c \in 1..Len(Contents) |->
          <<Contents[c],
            [t \in 1..Len(Tocs) |-> <<Written(Contents[c], Tocs[t], Marker),
                                      Same(Contents[c], Tocs[t], Marker)>>]>>]))

Each(P(_, _)) == \A c \in 1..Len(Contents) : \A t \in 1..Len(Tocs) :
                   P(Contents[c], Tocs[t])

\* C10
InvOnlyTheBlock == LET P(s, t) == OnlyTheBlock(s, t, Marker) IN Each(P)
\* C10: the markers of the file are never lost.
InvMarkers == LET P(s, t) ==
                    LET a == Len(Markers(LinesOfNorm(s), Marker))
                        b == Len(Markers(LinesOfNorm(Written(s, t, Marker)), Marker))
                    IN Markers(Pieces(t), Marker) = <<>> =>
                       (a = 0 => b = 0) /\ (a = 1 => b = 2) /\ (a >= 2 => b >= a)
              IN Each(P)
\* C11: if the file has one marker or one block, and the table of contents is
\* a list, writing twice is writing once, and then nothing differs.
IsToc(t) == Strip(t) = <<>> \/ LooksLikeList(Cat(Pieces(RStrip(t))))
InvConverges ==
  LET P(s, t) == LET w == Written(s, t, Marker)
                 IN IsToc(t) /\ Len(Markers(LinesOfNorm(s), Marker)) > 0 =>
                      (Len(Markers(LinesOfNorm(s), Marker)) <= 2
                         => Written(w, t, Marker) = w /\ Same(w, t, Marker))
  IN Each(P)
\* C12: the verdict does not depend on blanks around the table of contents.
InvSame == LET P(s, t) == Same(s, t, Marker) = Same(s, Strip(t), Marker) IN Each(P)
\* C16
InvRaw == LET P(s, t) ==
                \A a \in NewlineStrings : \A b \in NewlineStrings :
                  /\ Normalised(WrittenRaw(WithNewline(s, a), WithNewline(t, b), Marker, b))
                       = Written(s, t, Marker)
                  /\ SameRaw(WithNewline(s, a), WithNewline(t, b), Marker)
                       = Same(s, t, Marker)
          IN Each(P)
=============================================================================
