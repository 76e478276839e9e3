------------------------------- MODULE MCCli -------------------------------
(***************************************************************************)
(* Every command with at most Most options that differ from the default,   *)
(* for each parser and each list of files.  Each step gives one more       *)
(* option, in a fixed order of the options; every state is a command and   *)
(* is printed with what it means.                                          *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils

Config == JsonDeserialize(IOEnv.MC_CONFIG)
Most   == Config.most
Names  == Config.parsers     \* parser names, also wrong ones
Groups == Config.groups      \* number of lists of files

Values ==
  << <<"coh",    {"c", "i", "ci"}>>,
     <<"links",  {"l"}>>,
     <<"marker", {"<!--OTHER-->"}>>,
     <<"nl",     {"n", "r", "rn", "bad"}>>,
     <<"place",  {"p"}>>,
     <<"diff",   {"d"}>>,
     <<"skip",   {"-1", "0", "1", "3", "40", "z", "1.5"}>>,
     <<"u",      {"bare", "-", "+", "*", ".", "x"}>>,
     <<"o",      {"bare", ".", ")", "-", "x"}>>,
     <<"const",  {"c"}>>,
     <<"levels", {"bare", "1", "2", "3", "6", "0", "7", "z"}>> >>

VARIABLES c, group, last, given
vars == <<c, group, last, given>>

Init ==
  /\ \E p \in 1..Len(Names) :
       c = [parser |-> Names[p], coh |-> "none", links |-> "none", marker |-> "none",
            nl |-> "none", place |-> "none", diff |-> "none", skip |-> "none",
            u |-> "none", o |-> "none", const |-> "none", levels |-> "none"]
  /\ group \in 1..Groups /\ last = 0 /\ given = 0

Give ==
  /\ given < Most
  /\ \E i \in (last + 1)..Len(Values) : \E v \in Values[i][2] :
       c' = [c EXCEPT ![Values[i][1]] = v] /\ last' = i
  /\ given' = given + 1 /\ group' = group

Spec == Init /\ [][Give]_vars

Emit == Unsettled(c) \/ PrintT(ToJson([c |-> c, g |-> group, b |-> Bad(c),
                       s |-> IF Bad(c) THEN <<>> ELSE <<Settings(c), Newline(c)>>]))

\* A valid command stands for settings the library accepts, and giving one
\* more option changes nothing else.
TypeOK == ~Bad(c) =>
            LET s == Settings(c)
            IN /\ s.keep \in 1..6 /\ s.skip >= -1
               /\ s.ordered => s.mark \in {46, 41}
               /\ ~s.ordered => s.mark \in {45, 43, 42}
               /\ ~(~s.indent /\ ~s.coherent)
=============================================================================
