----------------------------- MODULE TraceDoc -----------------------------
(***************************************************************************)
(* Validation of recorded runs of build_toc against TocBuilder.            *)
(*                                                                         *)
(* A run is [opt, lines, status, entries, slugs]: the options, the lines   *)
(* of the document, how the run ended, the entries it produced and, for    *)
(* each line, the slug the implementation gives to that line alone (used   *)
(* so that the numbering of duplicates is judged apart from the slugs).    *)
(* If squeeze is set the slugs are those of cmark, for a run of gitlab.    *)
(* Every line is one step of TocBuilder; each entry is compared with the   *)
(* recorded one when it is added.                                          *)
(***************************************************************************)
EXTENDS TocBuilder, Json, IOUtils

Runs_ == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, bad
tvars == <<vars, tid, bad>>

R == Runs_[tid]

TraceInit ==
  /\ tid \in 1..Len(Runs_)
  /\ opt = Runs_[tid].opt
  /\ BuilderInit
  /\ bad = {}

Done == status # "ok" \/ seen = Len(R.lines)

\* What differs between an entry and the recorded one.
Differences(e, r) ==
  (IF e.label # r[3] THEN {"label"} ELSE {})
  \cup (IF e.anchor # r[4] THEN {"anchor"} ELSE {})
  \cup (IF e.marker # r[2] THEN {"marker"} ELSE {})
  \* The indentation depends on the markers: judge it where these are right.
  \cup (IF e.ind # r[1] /\ e.marker = r[2] /\ "marker" \notin bad
        THEN {"indent"} ELSE {})

TraceList(line, slug) ==
  /\ ListWith(line, slug)
  /\ bad' = IF Len(toc') <= Len(R.entries)
            THEN bad \cup Differences(toc'[Len(toc')], R.entries[Len(toc')])
            ELSE bad \cup {"count"}

TraceNext ==
  /\ ~Done
  /\ LET line == R.lines[seen + 1]
         slug == IF R.squeeze THEN Squeeze(R.slugs[seen + 1], 1)
                 ELSE R.slugs[seen + 1]
     IN \/ TraceList(line, slug)
        \/ /\ \/ Skip(line) \/ OpenFence(line) \/ CodeLine(line)
              \/ CloseFence(line) \/ Prose(line) \/ RejectLabel(line)
              \/ HiddenWith(line, slug) \/ RejectSequence(line)
           /\ bad' = bad
  /\ tid' = tid

\* A trace has one behaviour: its position tells its states apart.
TraceView == <<tid, seen, status, bad>>

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Verdict ==
  IF status # R.status THEN {"status"}
  ELSE IF status = "ok" /\ (Len(toc) # Len(R.entries) \/ "count" \in bad) THEN {"count"}
  ELSE IF status = "ok" THEN bad ELSE {}

Emit == Done => PrintT(ToJson([t |-> tid, s |-> status, b |-> Verdict]))

\* The table of contents of a run has the properties of every table of
\* contents, stated on the whole document.
Complete == Done => /\ ExactlyVisible(SubSeq(R.lines, 1, seen))
                    /\ RejectedRight(SubSeq(R.lines, 1, seen))
Shape == Done => Nested /\ Marked /\ SafeLabels /\ NothingBeforeSkip
=============================================================================
