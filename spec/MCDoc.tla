------------------------------- MODULE MCDoc -------------------------------
(***************************************************************************)
(* Exhaustive exploration of TocBuilder: every document of at most Depth   *)
(* lines taken from Lines, for every option of Opts.  Complete documents   *)
(* are printed with the result, to be replayed on the implementation.      *)
(***************************************************************************)
EXTENDS TocBuilder, Json, IOUtils

\* The configuration written by the harness: lines, options, depth, probe.
Config == JsonDeserialize(IOEnv.MC_CONFIG)
Lines == Config.lines
Opts  == Config.opts
Depth == Config.depth
\* A line read after every chosen line (its text gets the line number), to
\* observe the state the chosen lines leave; empty for none.
Probe == Config.probe

VARIABLES hist, pending, oid
mcvars == <<vars, hist, pending, oid>>

ProbeLine(n) == Probe \o Num(n)

Lines2(h) == Cat([k \in 1..Len(h) |-> IF Probe = <<>> THEN <<Lines[h[k]]>>
                                       ELSE <<Lines[h[k]], ProbeLine(k)>>])
\* The lines read so far.
Read2 == SubSeq(Lines2(hist), 1, seen)

MCInit == /\ oid \in 1..Len(Opts) /\ opt = Opts[oid]
          /\ BuilderInit /\ hist = <<>> /\ pending = FALSE

MCNext ==
  /\ status = "ok"
  /\ oid' = oid
  /\ IF pending
     THEN /\ Step(ProbeLine(Len(hist)))
          /\ pending' = FALSE /\ hist' = hist
     ELSE /\ Len(hist) < Depth
          /\ \E k \in 1..Len(Lines) :
               /\ Step(Lines[k])
               /\ hist' = Append(hist, k)
               /\ pending' = (Probe # <<>>)

MCSpec == MCInit /\ [][MCNext]_mcvars

\* Every document is read to its end, or rejected (C17).
LiveSpec == MCSpec /\ WF_mcvars(MCNext)
Complete == status # "ok" \/ (~pending /\ Len(hist) = Depth)

Emit == Complete => PrintT(ToJson([o |-> oid, h |-> hist, s |-> status,
                                   n |-> seen,
                                   t |-> [k \in 1..Len(toc) |->
                                     <<toc[k].ind, toc[k].marker, toc[k].label,
                                       toc[k].anchor>>]]))

\* ---- properties ------------------------------------------------------------
InvC01 == ExactlyVisible(Read2)
InvC04 == SafeLabels
InvC06 == NumberedAnchors(Read2)
InvC07 == Nested
InvC08 == Marked
InvC09 == RejectedRight(Read2)
InvC21 == NothingBeforeSkip
\* C03: nothing is added while a fence is open.
InvC03 == [][fence # NoFence => toc' = toc \/ toc' = <<>>]_mcvars
Terminates == <>Complete
InvSeen == seen = Len(Read2)
=============================================================================
