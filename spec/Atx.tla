-------------------------------- MODULE Atx --------------------------------
(***************************************************************************)
(* ATX headings and link labels, for one line without its newline.         *)
(*                                                                         *)
(* fam is the flavour: "gfm" (github, commonmarker), "cm" (cmark,          *)
(* goldmark), "gl" (gitlab), "rc" (redcarpet).                             *)
(***************************************************************************)
EXTENDS Text

Families == {"gfm", "cm", "gl", "rc"}
MaxLevel == 6
MaxIndent == 3
MaxLabel == 999

\* Blanks that may separate the hashes from the text: GFM follows
\* CommonMark 0.29, the others 0.30.
Blanks(fam) == IF fam \in {"gfm", "rc"} THEN {SP} ELSE {SP, TAB}

NotHeading == [level |-> 0, text |-> <<>>]

\* Remove the closing sequence: a run of hashes preceded by a blank, or
\* making up the whole text.
StripClosing(t, B) ==
  LET u == RTrim(t, B)
      h == RunStart(u, Len(u), {HASH})
  IN IF h = Len(u) THEN u
     ELSE IF h = 0 THEN <<>>
     ELSE IF u[h] \in B THEN RTrim(SubSeq(u, 1, h), B)
     ELSE u

CmHeading(line, fam) ==
  LET B  == Blanks(fam)
      i  == RunEnd(line, 1, {SP})
      j  == RunEnd(line, i, {HASH})
      n  == j - i
  IN IF i - 1 > MaxIndent \/ n < 1 \/ n > MaxLevel THEN NotHeading
     ELSE IF j <= Len(line) /\ line[j] \notin B THEN NotHeading
     ELSE [level |-> n,
           text  |-> StripClosing(LTrim(SubSeq(line, j, Len(line)), B), B)]

\* Redcarpet: no indentation, the text must not be empty, and the closing
\* hashes are removed even if no blank precedes them.
RcHeading(line) ==
  LET j == RunEnd(line, 1, {HASH})
      n == j - 1
      i == RunEnd(line, j, {SP})
      e == RunStart(line, RunStart(line, Len(line), {HASH}), {SP})
  IN IF n < 1 \/ n > MaxLevel \/ (j <= Len(line) /\ line[j] # SP) \/ e < i
     THEN NotHeading
     ELSE [level |-> n, text |-> SubSeq(line, i, e)]

Heading(line, fam) == IF fam = "rc" THEN RcHeading(line) ELSE CmHeading(line, fam)
IsHeading(h) == h.level > 0

(***************************************************************************)
(* Link labels.                                                            *)
(***************************************************************************)
LabelBlank == {SP, TAB, LF, VT, FF, CR}

\* Whether the text ends with a backslash: the label would otherwise escape
\* the bracket which closes it.
Padded(t) == IF Len(t) > 0 /\ t[Len(t)] = BSLASH THEN Append(t, SP) ELSE t

\* Escape every bracket preceded by an even number of backslashes.
\* odd: an odd number of backslashes precedes the current character.
Escaped(t) ==
  LET Step(acc, c) ==
        IF c \in {LBRACK, RBRACK}
        THEN [out |-> acc.out \o (IF acc.odd THEN <<c>> ELSE <<BSLASH, c>>),
              odd |-> FALSE]
        ELSE [out |-> Append(acc.out, c),
              odd |-> (c = BSLASH) /\ ~acc.odd]
  IN FoldLeft(Step, [out |-> <<>>, odd |-> FALSE], t).out

\* "ok", or the reason a document having such a heading is rejected.
LabelError(t, fam, links) ==
  IF ~links \/ fam = "rc" THEN "ok"
  ELSE LET p == Padded(t)
       IN IF \A k \in 1..Len(p) : p[k] \in LabelBlank THEN "empty"
          ELSE IF Len(p) > MaxLabel THEN "overflow" ELSE "ok"

Label(line, t, fam, links) ==
  IF ~links THEN t
  ELSE IF fam = "rc"
       \* Only a backslash at the very end of the line is separated.
       THEN IF line[Len(line)] = BSLASH THEN Append(t, SP) ELSE t
       ELSE Escaped(Padded(t))

\* A label is safe if every bracket in it is escaped and it does not end
\* with an escaping backslash.
RECURSIVE SafeFrom(_, _)
SafeFrom(l, i) ==
  IF i > Len(l) THEN TRUE
  ELSE IF l[i] = BSLASH THEN i < Len(l) /\ SafeFrom(l, i + 2)
  ELSE l[i] \notin {LBRACK, RBRACK} /\ SafeFrom(l, i + 1)
SafeLabel(l) == SafeFrom(l, 1)
=============================================================================
