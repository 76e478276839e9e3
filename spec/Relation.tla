----------------------------- MODULE Relation -----------------------------
(***************************************************************************)
(* How the results of two runs on related inputs are related.              *)
(*                                                                         *)
(* A run is [raw, skip, nl, status, out]: the text read, the number of     *)
(* lines skipped, the newline string, how it ended and what it gave.  Two  *)
(* runs on the same lines, once the skipped ones are gone, end in the same *)
(* way and give the same table of contents, each with its newline string.  *)
(* It does not matter where the lines come from (a file or the standard    *)
(* input), how they end, or by which name the same flavour is selected.    *)
(***************************************************************************)
EXTENDS Input

\* The lines a run takes into account.
Seen(r) == LET L == LinesOf(r.raw) IN SubSeq(L, r.skip + 1, Len(L))

Comparable(a, b) == Seen(a) = Seen(b)

\* The output with line feeds only, if it is made of lines ended by nl.
Ended(s, nl) ==
  s = <<>> \/ (Len(s) >= Len(nl) /\ SubSeq(s, Len(s) - Len(nl) + 1, Len(s)) = nl)
OnlyNewline(s, nl) ==
  LET n == Normalised(s) IN Ended(s, nl) /\ WithNewline(n, nl) = s

Related(a, b) ==
  /\ a.status = b.status
  /\ a.status = "ok" =>
       /\ OnlyNewline(a.out, a.nl)
       /\ OnlyNewline(b.out, b.nl)
       /\ Normalised(a.out) = Normalised(b.out)
=============================================================================
