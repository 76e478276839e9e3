------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* The functions of one line or of one heading text, as data: what the     *)
(* drivers print for replay and what the validation of records compares.   *)
(***************************************************************************)
EXTENDS Atx, Fence, Slug, Input

\* [level, text, "ok"/"empty"/"overflow", label].
HeadingData(line, fam) ==
  LET h == Heading(line, fam)
  IN IF ~IsHeading(h) THEN <<0, <<>>, "ok", <<>>>>
     ELSE LET e == LabelError(h.text, fam, TRUE)
          IN <<h.level, h.text, e,
               IF e = "ok" THEN Label(line, h.text, fam, TRUE) ELSE <<>>>>

\* The text a heading's anchor is computed from.
AnchorText(line, fam) ==
  RTrim(Label(line, Heading(line, fam).text, fam, TRUE), {SP})

\* The headings of a string of several lines: [level, text, visible] for
\* each of them.  The line endings around the string do not count.
MultiLine(s, fam, keep) ==
  LET L == IF s = <<>> THEN <<<<>>>> ELSE Pieces(Trim(Normalised(s), {LF}))
  IN [k \in 1..Len(L) |->
        LET h == Heading(L[k], fam)
        IN <<h.level, h.text, IsHeading(h) /\ h.level <= keep>>]

\* The number of an entry at level l, after the numbers n of that level (0 if
\* there is none) and an entry at level p (0 if there is none).
NumberAfter(n, p, l, fam) ==
  LET m == IF p # 0 /\ p < l THEN 1 ELSE n + 1
  IN IF fam # "rc" /\ m > 999999999 THEN 0 ELSE m

\* A line may still have its line feed.
Bare(line) == IF line # <<>> /\ line[Len(line)] = LF
              THEN SubSeq(line, 1, Len(line) - 1) ELSE line
\* The fence opened by a line, as a text.
OpensText(line, fam) ==
  LET f == Opens(Bare(line), fam) IN [k \in 1..f[2] |-> f[1]]
\* Whether the line closes the block opened by a fence of n characters c; the
\* end of the document closes every block, but is looked at only on lines
\* which are not indented too much.
ClosesFence(line, c, n, end, fam) ==
  IF fam = "rc" \/ RunEnd(line, 1, {SP}) - 1 > FenceIndent THEN FALSE
  ELSE end \/ Closes(Bare(line), <<c, n>>, fam)

\* ---- the helpers ---------------------------------------------------------
\* The lines of a string; the line endings around it do not count.
SplitLines(s) == Pieces(Trim(Normalised(s), {LF}))

\* Whether the range <<start, stop, step>> has the number i.
InRange(i, g) ==
  IF g[3] > 0 THEN i >= g[1] /\ i < g[2] /\ (i - g[1]) % g[3] = 0
  ELSE i <= g[1] /\ i > g[2] /\ (g[1] - i) % (-g[3]) = 0
\* The characters, numbered from zero, which no range has.
CutOut(s, ranges) ==
  LET kept == SelectSeq([k \in 1..Len(s) |-> k],
                        LAMBDA k : \A g \in 1..Len(ranges) : ~InRange(k - 1, ranges[g]))
  IN [k \in 1..Len(kept) |-> s[kept[k]]]

WordsOnly(s) == SelectSeq(s, LAMBDA x : x \in {DASH, SP} \/ IsWord(x))
FenceIndented(line) == RunEnd(line, 1, {SP}) - 1 <= FenceIndent

Result(f, fam, s) ==
  CASE f = "heading"  -> HeadingData(s, fam)
    [] f = "html"     -> NoHtml(s, fam)
    [] f = "emphasis" -> NoEmphasis(s)
    [] f = "slug"     -> Base(s, fam)
    [] f = "anchor"   -> Base(AnchorText(s, fam), fam)
    [] f = "number"   -> NumberAfter(s[1], s[2], s[3], fam)
    [] f = "opens"    -> OpensText(s, fam)
    [] f = "closes"   -> ClosesFence(s.line, s.char, s.size, s.end, fam)
    [] f = "split"    -> SplitLines(s)
    [] f = "without"  -> CutOut(s.text, s.ranges)
    [] f = "words"    -> WordsOnly(s)
    [] f = "indented" -> FenceIndented(s)

(***************************************************************************)
(* The texts the specification says something about.                       *)
(***************************************************************************)
InDomain(f, fam, s) ==
  CASE f = "anchor"   ->
         HeadingData(s, fam)[1] > 0 /\ HeadingData(s, fam)[3] = "ok"
    [] OTHER -> TRUE

(***************************************************************************)
(* Facts that hold for every text.                                         *)
(***************************************************************************)
\* C02: a heading text has no blanks around it and its level is bounded.
HeadingFacts(s, fam) ==
  LET h == Heading(s, fam)
      B == Blanks(fam)
  IN IsHeading(h) =>
       /\ h.level \in 1..6
       /\ h.text # <<>> => h.text[1] \notin B /\ h.text[Len(h.text)] \notin B
       /\ fam = "rc" => h.text # <<>>
       \* the text is a piece of the line
       /\ \E i \in 0..Len(s) : StartsAt(s, i + 1, h.text)

\* C04
LabelFacts(s, fam) ==
  LET d == HeadingData(s, fam)
  IN fam # "rc" /\ d[1] > 0 /\ d[3] = "ok" =>
       /\ SafeLabel(d[4])
       \* removing the added characters gives the text back
       /\ Len(d[4]) - Len(d[2]) =
            (IF d[2][Len(d[2])] = BSLASH THEN 1 ELSE 0)
            + Cardinality({k \in 1..Len(d[2]) :
                 /\ d[2][k] \in {LBRACK, RBRACK}
                 /\ ((k - 1) - RunStart(d[2], k - 1, {BSLASH})) % 2 = 0})

\* C05: the alphabet of anchors.
SlugFacts(s, fam) ==
  LET a == Base(s, fam)
  IN IF fam = "rc"
     THEN /\ \A k \in 1..Len(a) : a[k] < 128
          /\ s # <<>> => a # <<>> /\ a[1] # DASH /\ a[Len(a)] # DASH
     ELSE /\ \A k \in 1..Len(a) : a[k] = DASH \/ IsWord(a[k])
          /\ \A k \in 1..Len(a) : a[k] \notin UpperA
          /\ fam = "gl" => \A k \in 1..(Len(a) - 1) : a[k] # DASH \/ a[k + 1] # DASH
          /\ fam = "gl" => a = Squeeze(Base(s, "cm"), 1)

IsSubsequence(a, b) ==
  LET Step(k, c) == IF k <= Len(a) /\ a[k] = c THEN k + 1 ELSE k
  IN FoldLeft(Step, 1, b) = Len(a) + 1

\* C19: only marks are removed, as many of each kind as pairs need.
EmphasisFacts(s) ==
  LET t == NoEmphasis(s)
      N(q, c) == Len(Keep(q, {c}))
      Others(q) == SelectSeq(q, LAMBDA c : c \notin {STAR, USCORE})
  IN /\ Others(t) = Others(s)
     /\ (N(s, STAR) - N(t, STAR)) % 2 = 0
     /\ (N(s, USCORE) - N(t, USCORE)) % 2 = 0
     /\ IsSubsequence(t, s)

\* C20: only text in angle brackets is removed.
HtmlFacts(s, fam) ==
  LET t == NoHtml(s, fam)
  IN /\ IsSubsequence(t, s)
     /\ (t # s => \E i, j \in 1..Len(s) : i < j /\ s[i] = LT /\ s[j] = GT)
     /\ fam = "rc" => t = s

\* C26: no line ending is left, and the pieces put together are the string
\* without its line endings.
SplitFacts(s) ==
  LET L == SplitLines(s)
  IN /\ \A k \in 1..Len(L) : \A i \in 1..Len(L[k]) : L[k][i] \notin {LF, CR}
     /\ Cat(L) = SelectSeq(s, LAMBDA c : c \notin {LF, CR})
     /\ Len(L) > 1 => L[1] # <<>> /\ L[Len(L)] # <<>>
     /\ Len(L) = 1 \/ \E k \in 1..Len(s) : s[k] \in {LF, CR}
WordsFacts(s) ==
  LET t == WordsOnly(s)
  IN IsSubsequence(t, s) /\ WordsOnly(t) = t /\ Squeeze(t, 1) = WordsOnly(Squeeze(t, 1))
=============================================================================
