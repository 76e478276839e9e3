------------------------------- MODULE MCRun -------------------------------
(***************************************************************************)
(* In-place runs of the whole program on one file, and edits between them. *)
(*                                                                         *)
(* The file is made of some lines, the place of the table of contents and  *)
(* other lines.  A run reads the file line by line (TocBuilder) and then   *)
(* writes it (MarkerFile); an edit inserts, removes or replaces a line     *)
(* outside of the place.  Histories are printed for replay.                *)
(***************************************************************************)
EXTENDS TocBuilder, MarkerFile, Json, IOUtils

Config == JsonDeserialize(IOEnv.MC_CONFIG)
Lines  == Config.lines
Opts   == Config.opts
Marker == Config.marker
\* The forms of the place of a table of contents never written.
Forms  == Config.forms
Most   == Config.most      \* lines of the initial file
Events == Config.events    \* length of a history

VARIABLES
  pre, post,  \* lines (indices in Lines) before and after the place
  form,       \* initial content of the place
  block,      \* current content of the place, a sequence of lines
  phase,      \* "idle" or "build"
  hist,       \* events so far
  verdict,    \* result of the last run
  clean,      \* no edit since the last run
  before      \* content when the last run started

rvars == <<vars, pre, post, form, block, phase, hist, verdict, clean, before>>
fvars == <<pre, post, form, block>>

Text(q) == [k \in 1..Len(q) |-> Lines[q[k]]]
FileLines == Text(pre) \o block \o Text(post)
Content(L) == Cat([k \in 1..Len(L) |-> Append(L[k], LF)])

SeqsUpTo(n) == UNION {[1..k -> 1..Len(Lines)] : k \in 0..n}

RunInit ==
  /\ \E o \in 1..Len(Opts) : opt = Opts[o]
  /\ BuilderInit
  /\ \E q \in SeqsUpTo(Most) : \E k \in 0..Len(q) :
       pre = SubSeq(q, 1, k) /\ post = SubSeq(q, k + 1, Len(q))
  /\ \E f \in 1..Len(Forms) : form = f /\ block = Forms[f]
  /\ phase = "idle" /\ hist = <<>> /\ verdict = FALSE /\ clean = FALSE
  /\ before = <<>>

Live == Len(hist) < Events /\ phase = "idle" /\ status = "ok"

StartRun ==
  /\ Live
  /\ phase' = "build"
  /\ opt' = opt
  /\ seen' = 0 /\ fence' = NoFence /\ dup' = <<>> /\ first' = 0 /\ prev' = 0
  /\ count' = [l \in Levels |-> 0] /\ ind' = [l \in Levels |-> 0]
  /\ wid' = [l \in Levels |-> 0] /\ toc' = <<>> /\ status' = "ok"
  /\ before' = Content(FileLines)
  /\ UNCHANGED <<fvars, hist, verdict, clean>>

BuildStep ==
  /\ phase = "build" /\ seen < Len(FileLines)
  /\ Step(FileLines[seen + 1])
  /\ UNCHANGED <<fvars, phase, hist, verdict, clean, before>>

\* The file is written; what takes the place is found in the result.
EndRun ==
  /\ phase = "build" /\ status = "ok" /\ seen = Len(FileLines)
  /\ LET s == Content(FileLines)
         t == RenderedToc(<<LF>>)
         N == LinesOfNorm(Written(s, t, Marker))
     IN /\ block' = SubSeq(N, Len(pre) + 1, Len(N) - Len(post))
        /\ verdict' = Same(s, t, Marker)
        /\ hist' = Append(hist, <<"run">>)
  /\ phase' = "idle" /\ clean' = TRUE
  /\ UNCHANGED <<vars, pre, post, form, before>>

Insert(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Delete(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

Edited(e) ==
  /\ hist' = Append(hist, e)
  /\ clean' = FALSE
  /\ UNCHANGED <<vars, form, block, phase, verdict, before>>

\* Edits only follow a run: before it they give another initial file.
Edit ==
  /\ Live /\ clean /\ Len(hist) < Events - 1
  /\ \/ \E i \in 1..(Len(pre) + 1) : \E x \in 1..Len(Lines) :
          pre' = Insert(pre, i, x) /\ post' = post /\ Edited(<<"insert", 1, i, x>>)
     \/ \E i \in 1..(Len(post) + 1) : \E x \in 1..Len(Lines) :
          post' = Insert(post, i, x) /\ pre' = pre /\ Edited(<<"insert", 2, i, x>>)
     \/ \E i \in 1..Len(pre) :
          pre' = Delete(pre, i) /\ post' = post /\ Edited(<<"delete", 1, i, pre[i]>>)
     \/ \E i \in 1..Len(post) :
          post' = Delete(post, i) /\ pre' = pre /\ Edited(<<"delete", 2, i, post[i]>>)

RunNext == StartRun \/ BuildStep \/ EndRun \/ Edit
RunSpec == RunInit /\ [][RunNext]_rvars

Leaf == phase = "idle" /\ status = "ok" /\ Len(hist) = Events
Emit == Leaf => PrintT(ToJson([o |-> opt, m |-> form,
                               p |-> pre, q |-> post, h |-> hist,
                               c |-> Content(FileLines), v |-> verdict]))

\* ---- properties ------------------------------------------------------------
AfterRun == phase = "idle" /\ clean
\* C10: the lines outside of the place are never touched.
InvPlace == AfterRun => block = Block(RenderedToc(<<LF>>), Marker)
\* C11: a run after a run changes nothing, and says so.
TwoRuns == Len(hist) >= 2 /\ hist[Len(hist)] = <<"run">> /\ hist[Len(hist) - 1] = <<"run">>
InvStable == AfterRun /\ TwoRuns => verdict /\ Content(FileLines) = before
\* C11: the table of contents depends on the lines outside of the place only.
InvFresh ==
  AfterRun => LET L == FileLines
                  a == Len(pre)
                  b == Len(pre) + Len(block)
              IN \A i \in 1..Len(HeadingsOf(L)) :
                   HeadingsOf(L)[i] <= a \/ HeadingsOf(L)[i] > b
\* C12: the verdict of a run says whether the file changes.
InvVerdict ==
  AfterRun =>
    /\ Content(FileLines) = before => verdict
    /\ verdict => \/ Content(FileLines) = before
                  \/ Strip(RenderedToc(<<LF>>)) = <<>>
=============================================================================
