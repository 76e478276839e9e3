------------------------------ MODULE MCText ------------------------------
(***************************************************************************)
(* Every text made of a prefix, at most Depth tokens and a suffix is       *)
(* explored; the results of the functions are printed for replay.          *)
(***************************************************************************)
EXTENDS Texts, TLC, Json, IOUtils

Config   == JsonDeserialize(IOEnv.MC_CONFIG)
PrefixList == Config.prefixes
Tokens   == Config.tokens
SuffixList == Config.suffixes
Depth    == Config.depth
Function == Config.function
Fams     == Config.fams

VARIABLES p, body
Init == p \in 1..Len(PrefixList) /\ body = <<>>
Next == /\ Len(body) < Depth
        /\ \E k \in 1..Len(Tokens) : body' = Append(body, k)
        /\ p' = p
Spec == Init /\ [][Next]_<<p, body>>

FrontText == PrefixList[p] \o Cat([k \in 1..Len(body) |-> Tokens[body[k]]])
TextOf(x) == FrontText \o SuffixList[x]

Emit == PrintT(ToJson(<<p, body,
          [x \in 1..Len(SuffixList) |->
             [f \in 1..Len(Fams) |-> 
                IF InDomain(Function, Fams[f], TextOf(x))
                THEN Result(Function, Fams[f], TextOf(x)) ELSE "out"]]>>))

Each(P(_, _)) == \A x \in 1..Len(SuffixList) : \A f \in 1..Len(Fams) :
                   P(TextOf(x), Fams[f])
InvHeading  == Function = "heading" => Each(HeadingFacts) /\ Each(LabelFacts)
InvSlug     == Function = "slug" => Each(SlugFacts)
InvHtml     == Function = "html" => Each(HtmlFacts)
InvEmphasis == Function = "emphasis" =>
                 \A x \in 1..Len(SuffixList) : EmphasisFacts(TextOf(x))
InvSplit == Function = "split" => \A x \in 1..Len(SuffixList) : SplitFacts(TextOf(x))
InvWords == Function = "words" => \A x \in 1..Len(SuffixList) : WordsFacts(TextOf(x))
InvIndented == Function = "indented" =>
                 \A x \in 1..Len(SuffixList) :
                   (Opens(TextOf(x), "cm") # NoFence) => FenceIndented(TextOf(x))
=============================================================================
