---------------------------- MODULE MarkerFile ----------------------------
(***************************************************************************)
(* A file with TOC markers: what the block is, what comparing gives and    *)
(* what writing makes of the file.  Texts are normalised (LF only) here;   *)
(* see Input.                                                              *)
(***************************************************************************)
EXTENDS Input

Strip(s)  == Trim(s, TrimSet)
RStrip(s) == RTrim(s, TrimSet)

\* The numbers of the lines holding the marker, in order.
Markers(L, marker) ==
  SelectSeq([k \in 1..Len(L) |-> k], LAMBDA k : Strip(L[k]) = Strip(marker))

BlankChars == {SP, TAB, VT}
AllBlank(s) == \A k \in 1..Len(s) : s[k] \in BlankChars

DigitRun(s, i) ==
  IF i > Len(s) THEN i
  ELSE CHOOSE j \in i..(Len(s) + 1) : /\ j = Len(s) + 1 \/ ~IsDigit(s[j])
                                      /\ \A k \in i..(j - 1) : IsDigit(s[k])

\* Up to three spaces, a bullet or a number with its closer, one space and
\* something which does not begin with a blank.
LooksLikeList(s) ==
  LET i == RunEnd(s, 1, {SP})
      d == DigitRun(s, i)
      \* position after the list marker, 0 if there is none
      m == IF i > Len(s) THEN 0
           ELSE IF s[i] \in {DASH, PLUS, STAR} THEN i + 1
           ELSE IF d > i /\ d <= Len(s) /\ s[d] \in {DOT, RPAR} THEN d + 1
           ELSE 0
  IN /\ i <= 4 /\ m > 0
     /\ m <= Len(s) /\ s[m] = SP
     /\ m + 1 <= Len(s) => s[m + 1] \notin BlankChars

\* Whether the markers on the lines a and b enclose a block.  The lines next
\* to the markers are not part of the list.
Encloses(L, a, b) ==
  \/ AllBlank(Cat(SubSeq(L, a + 1, b - 1)))
  \/ LooksLikeList(Cat(SubSeq(L, a + 2, b - 2)))

\* The index in the list of the markers M of the first one of the pair
\* enclosing the block, or 0.
Pair(L, M) ==
  LET P == {k \in 1..(Len(M) - 1) : Encloses(L, M[k], M[k + 1])}
  IN IF P = {} THEN 0 ELSE CHOOSE x \in P : \A y \in P : x <= y

\* What the file holds in place of a table of contents.
Existing(s, marker) ==
  LET L == LinesOfNorm(s)
      M == Markers(L, marker)
      p == Pair(L, M)
  IN IF Len(M) = 1 THEN marker
     ELSE IF p = 0 THEN <<>>
     ELSE Strip(Join(SubSeq(L, M[p] + 1, M[p + 1] - 1), <<LF>>))

\* The verdict of the comparison.
Same(s, toc, marker) == Strip(toc) = Existing(s, marker)

Block(toc, marker) ==
  <<marker, <<>>>> \o Pieces(RStrip(toc)) \o <<<<>>, marker>>

\* The text after the write.
Written(s, toc, marker) ==
  LET L == LinesOfNorm(s)
      M == Markers(L, marker)
      p == Pair(L, M)
      from == IF p = 0 THEN M[1] ELSE M[p]         \* first line replaced
      to   == IF p > 0 THEN M[p + 1]               \* last line replaced
              ELSE IF Len(M) = 1 THEN M[1]
              ELSE M[1] - 1
      rest == SubSeq(L, to + 1, Len(L))
  IN IF M = <<>> THEN s
     ELSE Join(SubSeq(L, 1, from - 1) \o Block(toc, marker) \o rest, <<LF>>)
          \o (IF rest # <<>> /\ ~Terminated(s) THEN <<>> ELSE <<LF>>)

\* The bytes (as characters) of the file raw after the write.
WrittenRaw(raw, toc, marker, nl) ==
  LET s == Normalised(raw)
  IN IF Markers(LinesOfNorm(s), marker) = <<>> THEN raw
     ELSE WithNewline(Written(s, Normalised(toc), marker), nl)
SameRaw(raw, toc, marker) == Same(Normalised(raw), Normalised(toc), marker)

(***************************************************************************)
(* C10, stated on the lines: everything but one contiguous piece of lines  *)
(* is kept, and that piece is a marker, or a pair of markers enclosing a   *)
(* block, or nothing; what takes its place is the new block.               *)
(***************************************************************************)
OnlyTheBlock(s, toc, marker) ==
  LET L == LinesOfNorm(s)
      N == LinesOfNorm(Written(s, toc, marker))
      B == Block(toc, marker)
  IN IF Markers(L, marker) = <<>> THEN Written(s, toc, marker) = s
     ELSE \E a \in 0..Len(L) : \E b \in a..Len(L) :
            /\ N = SubSeq(L, 1, a) \o B \o SubSeq(L, b + 1, Len(L))
            /\ \/ b = a
               \/ b = a + 1 /\ Strip(L[b]) = Strip(marker)
               \/ /\ Strip(L[a + 1]) = Strip(marker)
                  /\ Strip(L[b]) = Strip(marker)
                  /\ Encloses(L, a + 1, b)
=============================================================================
