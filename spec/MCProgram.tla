----------------------------- MODULE MCProgram -----------------------------
(***************************************************************************)
(* Every run of Program on at most Most files taken from Pool (names and   *)
(* what the library gives for them), for every way of calling it.  The     *)
(* final states are printed for replay.                                    *)
(***************************************************************************)
EXTENDS Program, Json, IOUtils

Config == JsonDeserialize(IOEnv.MC_CONFIG)
Pool == Config.pool        \* sequence of [name, status, equal]
Most == Config.most
Ways == Config.ways        \* sequence of [inplace, diff]

Indices == UNION {[1..n -> 1..Len(Pool)] : n \in 1..Most}

\* A file given twice holds, the second time, what the first write left.
Again(q, i) == \E j \in 1..(i - 1) : q[j] = q[i]

MCInit ==
  /\ \E q \in Indices : \E w \in 1..Len(Ways) :
       cmd = [inplace |-> Ways[w].inplace, diff |-> Ways[w].diff, bad |-> FALSE,
              files |-> [i \in 1..Len(q) |-> Pool[q[i]].name],
              idx |-> q,
              lib |-> [i \in 1..Len(q) |->
                        [status |-> Pool[q[i]].status, toc |-> q[i],
                         equal |-> \/ Pool[q[i]].equal
                                   \/ Ways[w].inplace /\ Again(q, i)
                                      /\ Pool[q[i]].marked]]]
  /\ ProgramInit

MCSpec == MCInit /\ [][ProgramNext]_pvars /\ WF_pvars(ProgramNext)

Emit == phase = "done" =>
          PrintT(ToJson([q |-> cmd.idx, i |-> cmd.inplace, d |-> cmd.diff,
                         t |-> tocs, o |-> out, c |-> code,
                         w |-> [j \in 1..N |-> content[cmd.files[j]] # 0]]))
=============================================================================
