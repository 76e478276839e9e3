------------------------------- MODULE Fence -------------------------------
(***************************************************************************)
(* Fenced code blocks, for one line without its newline.  A fence is        *)
(* <<char, length>>; NoFence means that the line is outside fenced code.    *)
(***************************************************************************)
EXTENDS Text

NoFence == <<0, 0>>
FenceIndent == 3
FenceMin == 3

\* The fence opened by the line, or NoFence.
Opens(line, fam) ==
  LET i == RunEnd(line, 1, {SP})
      c == IF i <= Len(line) THEN line[i] ELSE 0
      j == RunEnd(line, i, {c})
      info == SubSeq(line, j, Len(line))
  IN IF \/ fam = "rc"
        \/ i - 1 > FenceIndent
        \/ c \notin {TICK, TILDE}
        \/ j - i < FenceMin
        \/ c = TICK /\ \E k \in 1..Len(info) : info[k] = TICK
     THEN NoFence ELSE <<c, j - i>>

\* Whether the line closes the fence f.
Closes(line, f, fam) ==
  LET i == RunEnd(line, 1, {SP})
      j == RunEnd(line, i, {f[1]})
      B == IF fam = "gfm" THEN {SP} ELSE {SP, TAB}
  IN /\ i - 1 <= FenceIndent
     /\ j - i >= f[2]
     /\ RunEnd(line, j, B) > Len(line)
=============================================================================
