------------------------------- MODULE Input -------------------------------
(***************************************************************************)
(* How a text becomes lines.  The line endings LF, CRLF and CR, also mixed *)
(* in the same text, are equivalent; a text may lack the last one.         *)
(***************************************************************************)
EXTENDS Text

\* The same sequence, evaluated once by TLC.
Tuple(f) == SubSeq(f, 1, Len(f))

\* The text with every line ending replaced by LF.
Normalised(s) ==
  LET kept == SelectSeq([k \in 1..Len(s) |-> k],
                        LAMBDA k : ~(k > 1 /\ s[k] = LF /\ s[k - 1] = CR))
  IN Tuple([k \in 1..Len(kept) |-> IF s[kept[k]] = CR THEN LF ELSE s[kept[k]]])

\* The pieces of a normalised text separated by LF (at least one piece).
Pieces(s) ==
  LET ends == Append(SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : s[k] = LF), Len(s) + 1)
  IN Tuple([k \in 1..Len(ends) |-> SubSeq(s, IF k = 1 THEN 1 ELSE ends[k - 1] + 1, ends[k] - 1)])

\* The lines of a normalised text: what follows the last LF is a line only
\* if it is not empty.
LinesOfNorm(s) == LET p == Pieces(s)
                  IN IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
LinesOf(s) == LinesOfNorm(Normalised(s))

\* Whether the last line has its line ending.
Terminated(s) == Len(s) > 0 /\ s[Len(s)] = LF

Join(lines, sep) ==
  IF lines = <<>> THEN <<>>
  ELSE Cat([k \in 1..Len(lines) |-> IF k = 1 THEN lines[k] ELSE sep \o lines[k]])

\* Replace LF by a newline string.
WithNewline(s, nl) == Join(Pieces(s), nl)

NewlineStrings == {<<LF>>, <<CR>>, <<CR, LF>>}
=============================================================================
