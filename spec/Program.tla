------------------------------ MODULE Program ------------------------------
(***************************************************************************)
(* A run of the program, or of the library on several files.               *)
(*                                                                         *)
(* The command is [inplace, diff, bad, files, lib]: whether the files are  *)
(* written, whether the difference is asked for, whether the command is    *)
(* invalid, the names of the files ("-" is the standard input) and, for    *)
(* each of them in order, what the library gives when it is used on that   *)
(* file alone: [status, toc, equal, after], i.e. how building ended, the   *)
(* table of contents, the verdict of the comparison with the file and the  *)
(* content of the file once written.  Contents and tables of contents are  *)
(* opaque here.                                                            *)
(*                                                                         *)
(* All the tables of contents are built before anything is written or      *)
(* printed: a file which fails stops the run while nothing has happened.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

VARIABLES
  cmd,       \* the command
  phase,     \* "parse", "build", "check", "emit", "done"
  k,         \* files done in this phase
  tocs,      \* tables of contents built so far
  out,       \* tables of contents printed so far
  content,   \* for each file, 0 for its first content or the number of the
             \* write which gave its present one
  equal,     \* conjunction of the verdicts so far
  code       \* exit status

pvars == <<cmd, phase, k, tocs, out, content, equal, code>>

N == Len(cmd.files)
Lib(i) == cmd.lib[i]
IsStdin(i) == cmd.files[i] = "-"

ProgramInit ==
  /\ phase = "parse" /\ k = 0 /\ tocs = <<>> /\ out = <<>>
  /\ content = [f \in {cmd.files[i] : i \in 1..N} |-> 0]
  /\ equal = TRUE /\ code = -1

Exit(c) == phase' = "done" /\ code' = c

Parse ==
  /\ phase = "parse"
  /\ IF cmd.bad THEN Exit(2) ELSE phase' = "build" /\ code' = code
  /\ UNCHANGED <<cmd, k, tocs, out, content, equal>>

Build ==
  /\ phase = "build" /\ k < N
  /\ IF Lib(k + 1).status = "ok"
     THEN /\ tocs' = Append(tocs, Lib(k + 1).toc)
          /\ k' = k + 1
          /\ UNCHANGED <<phase, code>>
     ELSE Exit(1) /\ UNCHANGED <<tocs, k>>
  /\ UNCHANGED <<cmd, out, content, equal>>

\* The standard input is not a file to be written.
Built ==
  /\ phase = "build" /\ k = N
  /\ IF cmd.inplace /\ \E i \in 1..N : IsStdin(i)
     THEN Exit(1)
     ELSE phase' = "emit" /\ code' = code
  /\ k' = 0
  /\ UNCHANGED <<cmd, tocs, out, content, equal>>

Write ==
  /\ phase = "emit" /\ cmd.inplace /\ k < N
  /\ content' = [content EXCEPT ![cmd.files[k + 1]] = k + 1]
  /\ equal' = (equal /\ Lib(k + 1).equal)
  /\ k' = k + 1
  /\ UNCHANGED <<cmd, phase, tocs, out, code>>

Show ==
  /\ phase = "emit" /\ ~cmd.inplace /\ k < N
  /\ out' = Append(out, tocs[k + 1])
  /\ IF cmd.diff /\ IsStdin(k + 1)
     THEN Exit(1) /\ UNCHANGED equal     \* nothing to compare with
     ELSE /\ equal' = (equal /\ (cmd.diff => Lib(k + 1).equal))
          /\ UNCHANGED <<phase, code>>
  /\ k' = k + 1
  /\ UNCHANGED <<cmd, tocs, content>>

Finish ==
  /\ phase = "emit" /\ k = N
  /\ Exit(IF cmd.diff /\ ~equal THEN 128 ELSE 0)
  /\ UNCHANGED <<cmd, k, tocs, out, content, equal>>

ProgramNext == Parse \/ Build \/ Built \/ Write \/ Show \/ Finish

\* ---- properties ------------------------------------------------------------
Written_ == {f \in DOMAIN content : content[f] # 0}
AllGood == \A i \in 1..N : Lib(i).status = "ok"

\* C13: nothing is written if some table of contents cannot be built.
NothingIfAnyFails == Written_ # {} => AllGood /\ Len(tocs) = N
\* C13: each table of contents is the one of its file alone, in order.
OneEach == tocs = [i \in 1..Len(tocs) |-> Lib(i).toc]
\* C14: only the in-place option modifies files, and then nothing is printed.
OnlyInPlace == /\ ~cmd.inplace => Written_ = {}
               /\ cmd.inplace => out = <<>>
\* C15: the standard input is never written.
NeverStdin == cmd.inplace /\ (\E i \in 1..N : IsStdin(i)) => Written_ = {}
\* C14: the exit status.
Status ==
  phase = "done" =>
    /\ code \in {0, 1, 2, 128}
    /\ code = 2 <=> cmd.bad
    /\ code = 128 => cmd.diff /\ (\E i \in 1..N : ~Lib(i).equal)
    /\ code = 0 => AllGood /\ (cmd.diff => \A i \in 1..N : Lib(i).equal)
    /\ code \in {0, 128} =>
         IF cmd.inplace THEN Written_ = {cmd.files[i] : i \in 1..N}
         ELSE out = [i \in 1..N |-> Lib(i).toc]
    /\ code = 1 => \/ ~AllGood
                   \/ /\ \E i \in 1..N : IsStdin(i)
                      /\ cmd.inplace \/ cmd.diff
Terminates == <>(phase = "done")
=============================================================================
