---------------------------- MODULE MCArguments ----------------------------
(***************************************************************************)
(* Every sequence of at most Depth calls among those of the configuration, *)
(* on the same objects.  Printed for replay.                               *)
(***************************************************************************)
EXTENDS Arguments, TLC, Json, IOUtils

Config == JsonDeserialize(IOEnv.MC_CONFIG)
Depth  == Config.depth
\* Groups of calls: [f, fams, a, b, c, ordered, marks, texts], each a list.
Groups == Config.groups
Set(s) == {s[k] : k \in 1..Len(s)}
CallsOf(g) ==
  [f : {g.f}, fam : Set(g.fams), a : Set(g.a), b : Set(g.b), c : Set(g.c),
   ordered : Set(g.ordered), mark : Set(g.marks), text : Set(g.texts)]
Calls == UNION {CallsOf(Groups[k]) : k \in 1..Len(Groups)}

VARIABLE hist
mvars == <<obj, hist>>
Init == ArgumentsInit /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E c \in Calls : /\ IF hist = <<>> THEN TRUE ELSE hist[1].fam = c.fam
                            /\ Called(c)
                            /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_mvars

Emit == (Len(hist) = Depth) =>
          PrintT(ToJson([k \in 1..Depth |-> [call |-> hist[k], verdict |-> Verdict(hist[k])]]))

\* An object only has the versions the accepted calls gave it.
InvVersions ==
  \A x \in Objects :
    obj[x] = Cardinality({k \in 1..Len(hist) : x \in Changes(hist[k].f)
                                               /\ Verdict(hist[k]) \notin Rejections})
Stutters == [][Verdict(hist'[Len(hist')]) \in Rejections => obj' = obj]_mvars
=============================================================================
