---------------------------- MODULE TocBuilder ----------------------------
(***************************************************************************)
(* The construction of a table of contents: a state machine which takes    *)
(* one line of the document at a time.  There is one action for each thing *)
(* that can happen to a line.                                              *)
(***************************************************************************)
EXTENDS Atx, Fence, Marks, Slug, TLC

VARIABLES
  opt,     \* options of the run, constant (see Options)
  seen,    \* number of lines read
  fence,   \* the open fence, or NoFence
  dup,     \* slug |-> number of headings having it so far
  first,   \* level of the first entry, 0 before it
  prev,    \* level of the last entry, 0 before the first
  count,   \* last number used at each level
  ind,     \* indentation of each level
  wid,     \* width of the last marker used at each level
  toc,     \* the entries
  status   \* "ok", or the error the run ends with

bvars == <<seen, fence, dup, first, prev, count, ind, wid, toc, status>>
vars  == <<opt, bvars>>

Levels == 1..MaxLevel
MaxNumber == 999999999

(***************************************************************************)
(* Options.  fam: flavour; ordered; const: every number is one; mark: the  *)
(* bullet, or the character closing the number; links; indent; coherent:   *)
(* whether incoherent sequences of levels are rejected; keep: maximum      *)
(* level; skip: number of lines to be ignored.                             *)
(***************************************************************************)
Options == [fam : Families, ordered : BOOLEAN, const : BOOLEAN,
            mark : Bullets \cup {DOT, RPAR}, links : BOOLEAN,
            indent : BOOLEAN, coherent : BOOLEAN, keep : Nat \ {0}, skip : Nat]

IsOrdered == opt.ordered \/ opt.const
Mark == EffectiveMark(opt.fam, IsOrdered, opt.mark)

BuilderInit ==
  /\ seen = 0
  /\ fence = NoFence
  /\ dup = <<>>
  /\ first = 0
  /\ prev = 0
  /\ count = [l \in Levels |-> 0]
  /\ ind = [l \in Levels |-> 0]
  /\ wid = [l \in Levels |-> 0]
  /\ toc = <<>>
  /\ status = "ok"

\* ---- rules used by the actions --------------------------------------------
NumberAt(l) ==
  IF opt.const THEN 1
  ELSE IF prev # 0 /\ prev < l THEN 1
  ELSE count[l] + 1

MarkerAt(l) == IF IsOrdered THEN Append(Num(NumberAt(l)), Mark) ELSE <<Mark>>

IndentAt(l) ==
  IF ~opt.indent THEN 0
  ELSE IF opt.fam = "rc" THEN 4 * (l - 1)
  ELSE IF prev = 0 THEN 0
  ELSE IF l > prev THEN ind[prev] + wid[prev] + 1
  ELSE ind[l]

Checked == opt.indent /\ opt.coherent
Coherent(l) == first = 0 \/ (l >= first /\ l <= prev + 1)

Occurrences(slug) == IF slug \in DOMAIN dup THEN dup[slug] ELSE 0
Counted(slug) == (slug :> (Occurrences(slug) + 1)) @@ dup

\* The slug of a heading.  The blank that separates a trailing backslash is
\* not part of it.
SlugOf(line, h) ==
  IF ~opt.links THEN <<>>
  ELSE Base(RTrim(Label(line, h.text, opt.fam, TRUE), {SP}), opt.fam)

\* ---- actions -----------------------------------------------------------------
Read == status = "ok" /\ seen' = seen + 1 /\ opt' = opt

Skipped == seen < opt.skip
Code == fence # NoFence

Skip(line) ==
  /\ Skipped
  /\ Read
  /\ UNCHANGED <<fence, dup, first, prev, count, ind, wid, toc, status>>

OpenFence(line) ==
  /\ ~Skipped /\ ~Code
  /\ Opens(line, opt.fam) # NoFence
  /\ Read
  /\ fence' = Opens(line, opt.fam)
  /\ UNCHANGED <<dup, first, prev, count, ind, wid, toc, status>>

CodeLine(line) ==
  /\ ~Skipped /\ Code
  /\ ~Closes(line, fence, opt.fam)
  /\ Read
  /\ UNCHANGED <<fence, dup, first, prev, count, ind, wid, toc, status>>

CloseFence(line) ==
  /\ ~Skipped /\ Code
  /\ Closes(line, fence, opt.fam)
  /\ Read
  /\ fence' = NoFence
  /\ UNCHANGED <<dup, first, prev, count, ind, wid, toc, status>>

\* The line is outside skipped lines and code.
Plain(line) == ~Skipped /\ ~Code /\ Opens(line, opt.fam) = NoFence
HeadingOf(line) == Heading(line, opt.fam)

Prose(line) ==
  /\ Plain(line)
  /\ ~IsHeading(HeadingOf(line))
  /\ Read
  /\ UNCHANGED <<fence, dup, first, prev, count, ind, wid, toc, status>>

\* A heading, hidden or not, whose text cannot be a link label.
RejectLabel(line) ==
  LET h == HeadingOf(line)
      e == LabelError(h.text, opt.fam, opt.links)
  IN /\ Plain(line) /\ IsHeading(h) /\ e # "ok"
     /\ Read
     /\ status' = e
     /\ toc' = <<>>
     /\ UNCHANGED <<fence, dup, first, prev, count, ind, wid>>

GoodHeading(line) ==
  LET h == HeadingOf(line)
  IN Plain(line) /\ IsHeading(h) /\ LabelError(h.text, opt.fam, opt.links) = "ok"

\* A heading deeper than the maximum level: it only counts for duplicates.
HiddenWith(line, slug) ==
  /\ GoodHeading(line)
  /\ HeadingOf(line).level > opt.keep
  /\ Read
  /\ dup' = Counted(slug)
  /\ UNCHANGED <<fence, first, prev, count, ind, wid, toc, status>>

RejectSequence(line) ==
  /\ GoodHeading(line)
  /\ HeadingOf(line).level <= opt.keep
  /\ Checked /\ ~Coherent(HeadingOf(line).level)
  /\ Read
  /\ status' = "incoherent"
  /\ toc' = <<>>
  /\ UNCHANGED <<fence, dup, first, prev, count, ind, wid>>

EntryOf(line, slug) ==
  LET h == HeadingOf(line)
  IN [level  |-> h.level,
      ind    |-> IndentAt(h.level),
      marker |-> MarkerAt(h.level),
      label  |-> Label(line, h.text, opt.fam, opt.links),
      anchor |-> IF opt.links THEN Numbered(slug, Occurrences(slug), opt.fam)
                 ELSE <<>>]

ListWith(line, slug) ==
  LET l == HeadingOf(line).level
      e == EntryOf(line, slug)
  IN /\ GoodHeading(line)
     /\ l <= opt.keep
     /\ Checked => Coherent(l)
     /\ Read
     /\ dup' = Counted(slug)
     /\ first' = IF first = 0 THEN l ELSE first
     /\ prev' = l
     /\ count' = [count EXCEPT ![l] = NumberAt(l)]
     /\ ind' = [k \in Levels |-> IF k = l THEN e.ind
                                 ELSE IF prev # 0 /\ l < prev /\ k > l THEN 0
                                 ELSE ind[k]]
     /\ wid' = [wid EXCEPT ![l] = Len(e.marker)]
     /\ toc' = Append(toc, e)
     /\ UNCHANGED <<fence, status>>

Hidden(line) == GoodHeading(line) /\ HiddenWith(line, SlugOf(line, HeadingOf(line)))
List(line)   == GoodHeading(line) /\ ListWith(line, SlugOf(line, HeadingOf(line)))

Step(line) ==
  \/ Skip(line) \/ OpenFence(line) \/ CodeLine(line) \/ CloseFence(line)
  \/ Prose(line) \/ RejectLabel(line) \/ Hidden(line)
  \/ RejectSequence(line) \/ List(line)

\* ---- rendering -------------------------------------------------------------
Rendered(e) ==
  Rep(SP, e.ind) \o e.marker \o <<SP>>
  \o (IF opt.links
      THEN <<LBRACK>> \o e.label \o <<RBRACK, LPAR, HASH>> \o e.anchor \o <<RPAR>>
      ELSE e.label)
RenderedToc(newline) == Cat([k \in 1..Len(toc) |-> Rendered(toc[k]) \o newline])

(***************************************************************************)
(* The properties of the table of contents, stated on the document (lines, *)
(* the sequence of the lines read so far) and not on how it is built.      *)
(***************************************************************************)
\* The fences open before the first line and after each line, from the first
\* line not skipped.
FencesOf(lines) ==
  LET After(acc, line) ==
        LET f == acc[Len(acc)]
        IN Append(acc, IF Len(acc) <= opt.skip THEN NoFence
                       ELSE IF f = NoFence THEN Opens(line, opt.fam)
                       ELSE IF Closes(line, f, opt.fam) THEN NoFence ELSE f)
  IN FoldLeft(After, <<NoFence>>, lines)

\* The positions of the headings, and of the visible ones.  A line is code if
\* a fence is open before or after it.
HeadingsOf(lines) ==
  LET F == FencesOf(lines)
  IN SelectSeq([k \in 1..Len(lines) |-> k],
               LAMBDA k : /\ k > opt.skip
                          /\ F[k] = NoFence /\ F[k + 1] = NoFence
                          /\ IsHeading(HeadingOf(lines[k])))
VisibleOf(lines) ==
  SelectSeq(HeadingsOf(lines), LAMBDA k : HeadingOf(lines[k]).level <= opt.keep)

LevelsOf(lines) == LET v == VisibleOf(lines)
                   IN [i \in 1..Len(v) |-> HeadingOf(lines[v[i]]).level]

BadLabels(lines) ==
  LET h == HeadingsOf(lines)
  IN {h[i] : i \in {j \in 1..Len(h) :
        LabelError(HeadingOf(lines[h[j]]).text, opt.fam, opt.links) # "ok"}}
IncoherentAt(lines) ==
  LET v == VisibleOf(lines)
      L == LevelsOf(lines)
  IN {v[i] : i \in {j \in 2..Len(v) : L[j] < L[1] \/ L[j] > L[j - 1] + 1}}

\* C01: one entry for each visible heading, in order.
ExactlyVisible(lines) ==
  status = "ok" =>
    LET v == VisibleOf(lines)
    IN /\ Len(toc) = Len(v)
       /\ \A i \in 1..Len(v) :
            /\ toc[i].level = HeadingOf(lines[v[i]]).level
            /\ toc[i].label = Label(lines[v[i]], HeadingOf(lines[v[i]]).text,
                                    opt.fam, opt.links)

\* C04: labels never close their link early.
SafeLabels ==
  opt.links /\ opt.fam # "rc" =>
    \A i \in 1..Len(toc) : SafeLabel(toc[i].label) /\ Len(toc[i].label) <= 2 * MaxLabel

\* C06: the anchors, in terms of all the previous headings.
NumberedAnchors(lines) ==
  status = "ok" /\ opt.links /\ opt.fam # "rc" =>
    LET h == HeadingsOf(lines)
        v == VisibleOf(lines)
        S == [k \in 1..Len(h) |-> SlugOf(lines[h[k]], HeadingOf(lines[h[k]]))]
    IN \A i \in 1..Len(v) :
         LET k == CHOOSE x \in 1..Len(h) : h[x] = v[i]
             n == Cardinality({j \in 1..(k - 1) : S[j] = S[k]})
         IN toc[i].anchor = IF n = 0 THEN S[k] ELSE S[k] \o <<DASH>> \o Num(n)

\* C07, C08: on a coherent table of contents the parent of an entry is the
\* last shallower entry before it.
\* (acc.last: the last entry of each level.)
Parents ==
  LET Next(acc, e) ==
        LET n == Len(acc.p) + 1
            S == {acc.last[k] : k \in 1..(e.level - 1)} \cup {0}
        IN [p    |-> Append(acc.p, CHOOSE x \in S : \A y \in S : y <= x),
            last |-> [acc.last EXCEPT ![e.level] = n]]
  IN FoldLeft(Next, [p |-> <<>>, last |-> [k \in Levels |-> 0]], toc).p
CoherentToc ==
  \A i \in 2..Len(toc) : /\ toc[i].level >= toc[1].level
                         /\ toc[i].level <= toc[i - 1].level + 1
Nested ==
  CoherentToc => LET P == Parents IN
    \A i \in 1..Len(toc) :
      toc[i].ind = IF ~opt.indent THEN 0
                   ELSE IF opt.fam = "rc" THEN 4 * (toc[i].level - 1)
                   ELSE IF P[i] = 0 THEN 0
                   ELSE toc[P[i]].ind + Len(toc[P[i]].marker) + 1
Marked ==
  CoherentToc => LET P == Parents IN
    \A i \in 1..Len(toc) :
      toc[i].marker =
        IF ~IsOrdered THEN <<Mark>>
        ELSE Append(Num(IF opt.const THEN 1
                        ELSE Cardinality({j \in (P[i] + 1)..i :
                                            toc[j].level = toc[i].level})), Mark)

\* C09 and the rejections of C04: the first offending line decides.
RejectedRight(lines) ==
  LET bad == BadLabels(lines)
      inc == IF Checked THEN IncoherentAt(lines) ELSE {}
      all == bad \cup inc
      one == CHOOSE x \in all : \A y \in all : x <= y
  IN IF all = {} THEN status = "ok"
     ELSE status = IF one \in bad
                   THEN LabelError(HeadingOf(lines[one]).text, opt.fam, opt.links)
                   ELSE "incoherent"

\* C21: skipping N lines is deleting them.
NothingBeforeSkip == seen <= opt.skip => toc = <<>> /\ dup = <<>> /\ fence = NoFence

TypeOK ==
  /\ opt \in Options
  /\ seen \in Nat
  /\ fence = NoFence \/ (fence[1] \in {TICK, TILDE} /\ fence[2] >= FenceMin)
  /\ first \in 0..MaxLevel /\ prev \in 0..MaxLevel
  /\ \A l \in Levels : count[l] \in 0..MaxNumber /\ ind[l] >= 0 /\ wid[l] >= 0
  /\ status \in {"ok", "empty", "overflow", "incoherent"}
=============================================================================
