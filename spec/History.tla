------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Operations one after the other in the same process.                     *)
(*                                                                         *)
(* The only state an operation may depend on, besides its arguments, is    *)
(* the content of the files, and only some operations change it.  The      *)
(* process has a memory of its own (what was done before) which must not   *)
(* matter: an operation gives what it gives in a process that did nothing  *)
(* before.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Config == JsonDeserialize(IOEnv.MC_CONFIG)
Ops   == Config.ops         \* sequence of [name, writes]
Depth == Config.depth

VARIABLES
  hist,     \* operations so far, the memory of the process
  world,    \* the files: what was written last, and on what
  results   \* what each operation gave

vars == <<hist, world, results>>

\* What an operation gives, whatever it is: a function of these two only.
Pure(o, w) == <<"result of", o, "on", w>>
Effect(o, w) == IF Ops[o].writes THEN <<o, w>> ELSE w

Init == hist = <<>> /\ world = <<>> /\ results = <<>>
Do(o) == /\ Len(hist) < Depth
         /\ hist' = Append(hist, o)
         /\ results' = Append(results, Pure(o, world))
         /\ world' = Effect(o, world)
Next == \E o \in 1..Len(Ops) : Do(o)
Spec == Init /\ [][Next]_vars

Emit == Len(hist) = Depth => PrintT(ToJson(hist))

\* The files as they were before the i-th operation.
RECURSIVE WorldBefore(_)
WorldBefore(i) == IF i = 1 THEN <<>> ELSE Effect(hist[i - 1], WorldBefore(i - 1))
\* C23
NoMemory == \A i, j \in 1..Len(hist) :
              hist[i] = hist[j] /\ WorldBefore(i) = WorldBefore(j)
                => results[i] = results[j]
OnlyWritersWrite == \A i \in 1..Len(hist) :
                      ~Ops[hist[i]].writes
                        => Effect(hist[i], WorldBefore(i)) = WorldBefore(i)
=============================================================================
