------------------------------- MODULE Marks -------------------------------
(***************************************************************************)
(* The characters which start the entries of a list.                       *)
(***************************************************************************)
EXTENDS Text

Bullets == {DASH, PLUS, STAR}
\* The characters which close the number of an ordered entry.
Closers(fam) == IF fam = "rc" THEN {DOT} ELSE {DOT, RPAR}

\* The character used, given the requested one.
EffectiveMark(fam, ordered, mark) ==
  IF ordered THEN (IF mark \in Closers(fam) THEN mark ELSE DOT) ELSE mark
=============================================================================
