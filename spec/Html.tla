------------------------------- MODULE Html -------------------------------
(***************************************************************************)
(* Raw HTML constructs: open tags, closing tags, comments, processing      *)
(* instructions, declarations and CDATA sections.                          *)
(*                                                                         *)
(* Each matcher takes the text and the position of a "<" and gives the     *)
(* position just after the construct, or 0.  Where the grammar is          *)
(* ambiguous the set of the reachable positions is computed, as a          *)
(* nondeterministic automaton would.                                       *)
(***************************************************************************)
EXTENDS Text, FiniteSets

SpaceChar == {SP, TAB, LF, VT, FF, CR}
SpTab     == {SP, TAB}
NameStart == Alpha
NameChar  == Alnum \cup {DASH}
AttrStart == Alpha \cup {USCORE, COLON}
AttrChar  == Alnum \cup {USCORE, COLON, DOT, DASH}
QuoteLike == {SP, DQUOTE, SQUOTE, EQ, LT, GT, TICK}

(***************************************************************************)
(* A dialect gives the differences between the flavours:                   *)
(*   "gfm"  GFM 0.29                                                       *)
(*   "cm"   CommonMark 0.30 as used to strip tags from anchors             *)
(*   "scan" CommonMark 0.30 as used to parse inlines                       *)
(***************************************************************************)
Unquoted(c) == c \notin QuoteLike \cup SpaceChar \cup {0}

\* The positions after one line ending at i.
LineEnding(s, i) ==
  (IF i <= Len(s) /\ s[i] \in {LF, CR} THEN {i + 1} ELSE {})
  \cup (IF StartsAt(s, i, <<CR, LF>>) THEN {i + 2} ELSE {})

\* Disallowed tags of GFM: title, textarea, style, xmp, iframe, noembed,
\* noframes, script, plaintext.
Disallowed == {
  <<116,105,116,108,101>>, <<116,101,120,116,97,114,101,97>>,
  <<115,116,121,108,101>>, <<120,109,112>>, <<105,102,114,97,109,101>>,
  <<110,111,101,109,98,101,100>>, <<110,111,102,114,97,109,101,115>>,
  <<115,99,114,105,112,116>>, <<112,108,97,105,110,116,101,120,116>> }

\* The position after the tag name at i, or 0.
TagName(s, i, d) ==
  IF i > Len(s) \/ s[i] \notin NameStart THEN 0
  ELSE LET j == RunEnd(s, i, NameChar)
       IN IF d = "gfm" /\ LowerText(SubSeq(s, i, j - 1)) \in Disallowed
          THEN 0 ELSE j

\* The positions after the value of an attribute whose "=" is sought at q.
ValueEnds(s, q, d) ==
  LET e == RunEnd(s, q, SpaceChar)
  IN IF e > Len(s) \/ s[e] # EQ THEN {}
     ELSE LET v == RunEnd(s, e + 1, SpaceChar)
              starts == {r \in {v} : r <= Len(s) /\ Unquoted(s[r])}
              RECURSIVE UEnd(_)
              UEnd(r) == IF r <= Len(s) /\ Unquoted(s[r]) THEN UEnd(r + 1) ELSE r
              quoted(c) ==
                IF v <= Len(s) /\ s[v] = c
                THEN LET k == FindIn(s, v + 1, {c, 0})
                     IN IF k <= Len(s) /\ s[k] = c THEN {k + 1} ELSE {}
                ELSE {}
          IN UNION {(r + 1)..UEnd(r) : r \in starts}
             \cup quoted(SQUOTE) \cup quoted(DQUOTE)

\* The positions after one attribute at p.
AttrEnds(s, p, d) ==
  LET blank == IF d = "cm"
               THEN LET e == RunEnd(s, p, SpTab)
                    IN (IF e > p THEN {e} ELSE {}) \cup LineEnding(s, p)
               ELSE LET e == RunEnd(s, p, SpaceChar)
                    IN IF e > p THEN {e} ELSE {}
      names == {RunEnd(s, b, AttrChar) :
                  b \in {x \in blank : x <= Len(s) /\ s[x] \in AttrStart}}
  IN names \cup UNION {ValueEnds(s, q, d) : q \in names}

RECURSIVE AttrClosure(_, _, _, _)
AttrClosure(s, done, todo, d) ==
  IF todo = {} THEN done
  ELSE LET seen == done \cup todo
           next == UNION {AttrEnds(s, p, d) : p \in todo}
       IN AttrClosure(s, seen, next \ seen, d)

Highest(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

\* The blanks allowed before the end of a tag.
TagBlank(s, p, d) ==
  IF d = "cm" THEN {p, RunEnd(s, p, SpTab)} \cup LineEnding(s, p)
  ELSE {RunEnd(s, p, SpaceChar)}

OpenTag(s, i, d) ==
  LET n == TagName(s, i + 1, d)
  IN IF n = 0 THEN 0
     ELSE LET ends == UNION {TagBlank(s, p, d) : p \in AttrClosure(s, {}, {n}, d)}
              slash == {IF e <= Len(s) /\ s[e] = SLASH THEN e + 1 ELSE e : e \in ends}
          IN Highest({e + 1 : e \in {x \in slash : x <= Len(s) /\ s[x] = GT}})

CloseTag(s, i, d) ==
  IF ~StartsAt(s, i, <<LT, SLASH>>) THEN 0
  ELSE LET n == TagName(s, i + 2, d)
       IN IF n = 0 THEN 0
          ELSE Highest({e + 1 : e \in {x \in TagBlank(s, n, d) :
                                         x <= Len(s) /\ s[x] = GT}})

\* Comments: the text starts neither with ">" nor with "->", contains no
\* "--" and does not end with "-".
Comment(s, i, d) ==
  IF ~StartsAt(s, i, <<LT, BANG, DASH, DASH>>) THEN 0
  ELSE LET j == i + 4
           k == FindText(s, j, <<DASH, DASH>>)
       IN IF \/ StartsAt(s, j, <<GT>>) \/ StartsAt(s, j, <<DASH, GT>>)
             \/ k = 0
             \/ ~StartsAt(s, k, <<DASH, DASH, GT>>)
          THEN 0 ELSE k + 3

Instruction(s, i, d) ==
  IF ~StartsAt(s, i, <<LT, QMARK>>) THEN 0
  ELSE LET k == FindText(s, i + 2, <<QMARK, GT>>) IN IF k = 0 THEN 0 ELSE k + 2

\* GFM needs a blank after the name of a declaration.
Declaration(s, i, d) ==
  IF ~StartsAt(s, i, <<LT, BANG>>) THEN 0
  ELSE LET n == RunEnd(s, i + 2, UpperA)
           k == FindIn(s, n, {GT})
       IN IF \/ n = i + 2 \/ k > Len(s)
             \/ d = "gfm" /\ s[n] \notin SpaceChar
          THEN 0 ELSE k + 1

CDataOpen == <<LT, BANG, LBRACK, 67, 68, 65, 84, 65, LBRACK>>
CData(s, i, d) ==
  IF ~StartsAt(s, i, CDataOpen) THEN 0
  ELSE LET k == FindText(s, i + 9, <<RBRACK, RBRACK, GT>>)
       IN IF k = 0 THEN 0 ELSE k + 3

Kinds == <<"open", "close", "comment", "instruction", "declaration", "cdata">>
Construct(s, i, d, kind) ==
  CASE kind = "open"        -> OpenTag(s, i, d)
    [] kind = "close"       -> CloseTag(s, i, d)
    [] kind = "comment"     -> Comment(s, i, d)
    [] kind = "instruction" -> Instruction(s, i, d)
    [] kind = "declaration" -> Declaration(s, i, d)
    [] kind = "cdata"       -> CData(s, i, d)

\* The position after the construct at i, whatever its kind, or 0: what
\* follows the "<" decides which kind it can be.
ConstructAt(s, i, d) ==
  IF i >= Len(s) THEN 0
  ELSE IF s[i + 1] \in NameStart THEN OpenTag(s, i, d)
  ELSE IF s[i + 1] = SLASH THEN CloseTag(s, i, d)
  ELSE IF s[i + 1] = QMARK THEN Instruction(s, i, d)
  ELSE Highest({Construct(s, i, d, Kinds[k]) : k \in 1..Len(Kinds)})

\* Remove, from left to right, every construct.
RECURSIVE Without(_, _, _)
Without(s, i, d) ==
  LET l == FindIn(s, i, {LT})
  IN IF l > Len(s) THEN SubSeq(s, i, Len(s))
     ELSE LET e == ConstructAt(s, l, d)
          IN IF e = 0 THEN SubSeq(s, i, l) \o Without(s, l + 1, d)
             ELSE SubSeq(s, i, l - 1) \o Without(s, e, d)

Dialect(fam) == IF fam = "gfm" THEN "gfm" ELSE "cm"

\* The text without HTML constructs.  What looks like a construct inside
\* another one is part of it, and what a removal brings together is text.
NoHtml(s, fam) ==
  IF fam = "rc" \/ \A k \in 1..Len(s) : s[k] # LT THEN s
  ELSE Without(s, 1, Dialect(fam))
=============================================================================
