---------------------------- MODULE AtomicWrite ----------------------------
(***************************************************************************)
(* An in-place write and what may interrupt it.                            *)
(*                                                                         *)
(* The target is reached through a path, which may be a symbolic link.     *)
(* The new content is prepared in work files, and takes the place of the   *)
(* old one in a single step.  Each step may fail: the write then gives up  *)
(* and cleans what it made.  The machine may also crash: nothing happens   *)
(* any more.                                                               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

VARIABLES
  target,   \* what the path gives when it is read: "old", "new" or "torn"
  mode,     \* permission bits of the target: "first" or "other"
  link,     \* the path is what it was (a file or a symbolic link)
  work,     \* work files: a set of <<name, state>>
  others,   \* the other files are as they were
  phase     \* "start", "edit", "ready", "replaced", "ended", "failed", "crashed"

vars == <<target, mode, link, work, others, phase>>

Names == {"w1", "w2"}
States == {"empty", "partial", "full", "moded"}
Running == phase \in {"start", "edit", "ready", "replaced"}

Init == /\ target = "old" /\ mode = "first" /\ link = TRUE /\ work = {}
        /\ others = TRUE /\ phase = "start"

WorkState(s) == \E n \in Names : <<n, s>> \in work

Create == /\ phase \in {"start", "edit"} /\ Cardinality(work) < 2
          /\ \E n \in Names : ~(\E s \in States : <<n, s>> \in work)
                              /\ work' = work \cup {<<n, "empty">>}
          /\ phase' = "edit"
          /\ UNCHANGED <<target, mode, link, others>>
Fill == /\ phase = "edit"
        /\ \E w \in work : w[2] \in {"empty", "partial"} /\
             \E s \in {"partial", "full"} : work' = (work \ {w}) \cup {<<w[1], s>>}
        /\ UNCHANGED <<target, mode, link, others, phase>>
\* The permissions of the target are given to its successor before the step.
CopyMode == /\ phase = "edit"
            /\ \E w \in work : w[2] = "full" /\
                 work' = (work \ {w}) \cup {<<w[1], "moded">>}
            /\ phase' = "ready"
            /\ UNCHANGED <<target, mode, link, others>>
Replace == /\ phase = "ready"
           /\ \E w \in work : w[2] = "moded" /\ work' = work \ {w}
           /\ target' = "new" /\ phase' = "replaced"
           /\ UNCHANGED <<mode, link, others>>
Clean == /\ phase = "replaced" /\ work # {}
         /\ \E w \in work : work' = work \ {w}
         /\ UNCHANGED <<target, mode, link, others, phase>>
End == /\ phase = "replaced" /\ work = {} /\ phase' = "ended"
       /\ UNCHANGED <<target, mode, link, work, others>>
\* A file without markers, or already gone work: nothing to do.
Nothing == /\ phase = "start" /\ phase' = "ended"
           /\ UNCHANGED <<target, mode, link, work, others>>
\* A step fails: the work files are removed, and the error is reported.
Fail == /\ phase \in {"start", "edit", "ready"}
        /\ phase' = "failed" /\ work' = {}
        /\ UNCHANGED <<target, mode, link, others>>
Crash == /\ Running /\ phase' = "crashed"
         /\ UNCHANGED <<target, mode, link, work, others>>

Next == Create \/ Fill \/ CopyMode \/ Replace \/ Clean \/ End \/ Nothing \/ Fail \/ Crash
Spec == Init /\ [][Next]_vars

\* ---- C18 --------------------------------------------------------------------
\* At every instant, crash or not, the target is whole.
Whole == target \in {"old", "new"}
\* The change is a single step and is never undone.
OneStep == [][target = target' \/ (target = "old" /\ target' = "new")]_vars
Preserved == mode = "first" /\ link /\ others
\* Once the write has ended, well or not, nothing else is left.
Tidy == phase \in {"ended", "failed"} => work = {}
Safety == Whole /\ Preserved /\ Tidy
=============================================================================
