------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Text is a sequence of Unicode code points.  This module defines the     *)
(* character classes and the sequence operations every other module uses.  *)
(* The classes are those of the Unicode standard (module Unicode).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Unicode

\* ---- single characters -------------------------------------------------
TAB == 9    LF == 10    VT == 11    FF == 12    CR == 13    SP == 32
BANG == 33  DQUOTE == 34  HASH == 35  AMP == 38  SQUOTE == 39  LPAR == 40
RPAR == 41  STAR == 42  PLUS == 43  DASH == 45  DOT == 46  SLASH == 47
COLON == 58 SEMI == 59  LT == 60    EQ == 61    GT == 62   QMARK == 63
AT == 64    LBRACK == 91  BSLASH == 92  RBRACK == 93  USCORE == 95
TICK == 96  TILDE == 126

\* ---- character classes -------------------------------------------------
Digit     == 48..57
UpperA    == 65..90
LowerA    == 97..122
Alpha     == UpperA \cup LowerA
Alnum     == Alpha \cup Digit
AsciiPunct == (33..47) \cup (58..64) \cup (91..96) \cup (123..126)

\* Unicode category Zs.
Zs == {32, 160, 5760, 8239, 8287, 12288} \cup (8192..8202)
\* Whitespace for CommonMark flanking: Zs, tab, LF, FF, CR.
UniSpace == Zs \cup {TAB, LF, FF, CR}
\* Whitespace removed by a plain trim of a line or of a table of contents.
TrimSet == Zs \cup (9..13) \cup (28..31) \cup {133, 8232, 8233}
\* Punctuation: ASCII and category P*.
IsPunct(c) == IF c < 128 THEN c \in AsciiPunct ELSE Among(PunctTable, c)
\* Word characters: letters, numbers and the underscore.
AsciiWord == Alnum \cup {USCORE}
IsWord(c) == IF c < 128 THEN c \in AsciiWord ELSE Among(WordTable, c)
\* Decimal digits (category Nd).
IsDigit(c) == IF c < 128 THEN c \in Digit ELSE Among(DigitTable, c)

Lower(c) == IF c < 128 THEN IF c \in UpperA THEN c + 32 ELSE c ELSE LowerOf(c)
\* A capital sigma (931) is a final one (962) if the nearest characters which are
\* not transparent are a cased one before it and none or an uncased one after it.
FinalSigma(s, k) ==
  /\ \E i \in 1..(k - 1) :
       /\ Among(CasedTable, s[i])
       /\ \A j \in (i + 1)..(k - 1) : Among(TransparentTable, s[j])
  /\ ~ \E i \in (k + 1)..Len(s) :
       /\ Among(CasedTable, s[i])
       /\ \A j \in (k + 1)..(i - 1) : Among(TransparentTable, s[j])
\* The lower case of the k-th character of s; that of 304 has two.
LowerAt(s, k) == CASE s[k] = 304 -> <<105, 775>>
                   [] s[k] = 931 -> IF FinalSigma(s, k) THEN <<962>> ELSE <<963>>
                   [] OTHER -> <<Lower(s[k])>>
LowerText(s) ==
  IF \E k \in 1..Len(s) : s[k] \in {304, 931}
  THEN FoldLeft(LAMBDA a, k : a \o LowerAt(s, k), <<>>, [k \in 1..Len(s) |-> k])
  ELSE [k \in 1..Len(s) |-> Lower(s[k])]

\* ---- sequence operations -----------------------------------------------
\* (Each CHOOSE has one answer, and TLC looks for it from the nearest one on.)
\* The first position at or after i whose character is not in S.
RunEnd(s, i, S) ==
  IF i > Len(s) THEN i
  ELSE CHOOSE j \in i..(Len(s) + 1) : /\ j = Len(s) + 1 \/ s[j] \notin S
                                      /\ \A k \in i..(j - 1) : s[k] \in S
\* The last position at or before j whose character is not in S.
RunStart(s, j, S) ==
  j - (CHOOSE n \in 0..j : /\ n = j \/ s[j - n] \notin S
                           /\ \A k \in (j - n + 1)..j : s[k] \in S)
\* The first position at or after i whose character is in S, or Len(s) + 1.
FindIn(s, i, S) ==
  IF i > Len(s) THEN i
  ELSE CHOOSE j \in i..(Len(s) + 1) : /\ j = Len(s) + 1 \/ s[j] \in S
                                      /\ \A k \in i..(j - 1) : s[k] \notin S

StartsAt(s, i, p) == /\ i + Len(p) - 1 <= Len(s)
                     /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]
\* The first position at or after i at which p occurs, or 0.
FindText(s, i, p) ==
  LET last == Len(s) - Len(p) + 1
  IN IF i > last THEN 0
     ELSE LET j == CHOOSE j \in i..(last + 1) :
                     /\ j = last + 1 \/ StartsAt(s, j, p)
                     /\ \A k \in i..(j - 1) : ~StartsAt(s, k, p)
          IN IF j > last THEN 0 ELSE j

LTrim(s, S) == SubSeq(s, RunEnd(s, 1, S), Len(s))
RTrim(s, S) == SubSeq(s, 1, RunStart(s, Len(s), S))
Trim(s, S)  == RTrim(LTrim(s, S), S)

Keep(s, S)  == LET Test(c) == c \in S IN SelectSeq(s, Test)
Map1(s, a, b) == [k \in 1..Len(s) |-> IF s[k] = a THEN b ELSE s[k]]
Rep(c, n)   == [k \in 1..n |-> c]
Cat(ss)     == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

\* Decimal numeral.
RECURSIVE Num(_)
Num(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Num(n \div 10), 48 + (n % 10))
=============================================================================
