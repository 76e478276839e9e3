------------------------------- MODULE Emph -------------------------------
(***************************************************************************)
(* Emphasis and strong emphasis: the CommonMark 0.30 delimiter algorithm.  *)
(*                                                                         *)
(* A line is scanned for delimiter runs, skipping backslash escapes, code  *)
(* spans, autolinks, raw HTML and the destinations of inline links; the    *)
(* runs of a link text are matched when the link ends, the others at the   *)
(* end of the line.  There are no reference definitions.                   *)
(***************************************************************************)
EXTENDS Html

MaxTicks == 1000

\* ---- runs skipped by the scanner -----------------------------------------
\* The position after a code span whose opening run is at i..j-1, or 0.
RECURSIVE CloseTicks(_, _, _)
CloseTicks(s, j, n) ==
  LET a == FindIn(s, j, {TICK})
      b == RunEnd(s, a, {TICK})
  IN IF a > Len(s) THEN 0
     ELSE IF b - a = n THEN b ELSE CloseTicks(s, b, n)

UriScheme == Alnum \cup {DOT, PLUS, DASH}
UriEnd(s, i) ==  \* i: just after "<"
  IF i > Len(s) \/ s[i] \notin Alpha THEN 0
  ELSE LET e == RunEnd(s, i + 1, UriScheme)
           RECURSIVE Body(_)
           Body(k) == IF k <= Len(s) /\ s[k] > 32 /\ s[k] \notin {LT, GT}
                      THEN Body(k + 1) ELSE k
           b == Body(e + 1)
       IN IF /\ e - (i + 1) \in 1..31
             /\ e <= Len(s) /\ s[e] = COLON
             /\ b <= Len(s) /\ s[b] = GT
          THEN b + 1 ELSE 0

MailLocal == Alnum \cup {DOT, BANG, HASH, 36, 37, AMP, SQUOTE, STAR, PLUS, SLASH,
                         EQ, QMARK, 94, USCORE, TICK, 123, 124, 125, TILDE, DASH}
\* The position after the domain at i, ">" included, or 0.
RECURSIVE MailDomain(_, _)
MailDomain(s, i) ==
  LET e == RunEnd(s, i, Alnum \cup {DASH})
  IN IF \/ e = i \/ e - i > 63
        \/ s[i] = DASH \/ s[e - 1] = DASH
        \/ e > Len(s)
     THEN 0
     ELSE IF s[e] = GT THEN e + 1
     ELSE IF s[e] = DOT THEN MailDomain(s, e + 1)
     ELSE 0
MailEnd(s, i) ==
  LET e == RunEnd(s, i, MailLocal)
  IN IF e > i /\ e <= Len(s) /\ s[e] = AT THEN MailDomain(s, e + 1) ELSE 0

\* The scanner of processing instructions consumes "?" together with the
\* following character.
RECURSIVE PiBody(_, _)
PiBody(s, k) ==
  IF k > Len(s) THEN k
  ELSE IF s[k] # QMARK THEN PiBody(s, k + 1)
  ELSE IF k + 1 <= Len(s) /\ s[k + 1] # GT THEN PiBody(s, k + 2)
  ELSE k

RECURSIVE CdBody(_, _)
CdBody(s, k) ==
  IF k > Len(s) THEN k
  ELSE IF s[k] # RBRACK THEN CdBody(s, k + 1)
  ELSE IF k + 1 > Len(s) THEN k
  ELSE IF s[k + 1] # RBRACK THEN CdBody(s, k + 2)
  ELSE IF k + 2 <= Len(s) /\ s[k + 2] # GT THEN CdBody(s, k + 3)
  ELSE k

\* What follows a "<" at i: next is the position after the skipped construct
\* (i + 1 if there is none), skip the kinds not to be tried again.
Pointy(s, i, skip) ==
  LET u == UriEnd(s, i + 1)
      m == MailEnd(s, i + 1)
      n == i + 1
      Nothing == [next |-> n, skip |-> skip]
      To(e) == IF e = 0 THEN Nothing ELSE [next |-> e, skip |-> skip]
  IN IF u > 0 THEN To(u)
     ELSE IF m > 0 THEN To(m)
     ELSE IF n + 1 > Len(s) THEN Nothing
     ELSE IF s[n] = BANG /\ s[n + 1] = DASH THEN To(Comment(s, i, "scan"))
     ELSE IF s[n] = BANG /\ s[n + 1] = LBRACK
          THEN IF "cdata" \in skip \/ ~StartsAt(s, i, CDataOpen) THEN Nothing
               ELSE LET k == CdBody(s, i + 9)
                    IN IF k + 2 <= Len(s) THEN To(k + 3)
                       ELSE [next |-> n, skip |-> skip \cup {"cdata"}]
     ELSE IF s[n] = BANG
          THEN LET a == RunEnd(s, n + 1, UpperA)
                   k == FindIn(s, a, {GT})
               IN IF \/ "decl" \in skip \/ a = n + 1
                     \/ a > Len(s) \/ s[a] \notin SpaceChar THEN Nothing
                  ELSE IF k <= Len(s) THEN To(k + 1)
                  ELSE [next |-> n, skip |-> skip \cup {"decl"}]
     ELSE IF s[n] = QMARK
          THEN IF "pi" \in skip THEN Nothing
               ELSE LET k == PiBody(s, n + 1)
                    IN IF k + 1 <= Len(s) THEN To(k + 2)
                       ELSE [next |-> n, skip |-> skip \cup {"pi"}]
     ELSE LET o == OpenTag(s, i, "scan")
          IN To(IF o > 0 THEN o ELSE CloseTag(s, i, "scan"))

\* ---- delimiter runs --------------------------------------------------------
IsSpace(c) == c \in UniSpace

\* The run of the character at i, with what it can open or close.
Run(s, i) ==
  LET c == s[i]
      j == RunEnd(s, i, {c})
      b == IF i = 1 THEN LF ELSE s[i - 1]
      a == IF j > Len(s) THEN LF ELSE s[j]
      left  == ~IsSpace(a) /\ (~IsPunct(a) \/ IsSpace(b) \/ IsPunct(b))
      right == ~IsSpace(b) /\ (~IsPunct(b) \/ IsSpace(a) \/ IsPunct(a))
  IN [pos |-> i, len |-> j - i, char |-> c,
      open  |-> IF c = USCORE THEN left /\ (~right \/ IsPunct(b)) ELSE left,
      close |-> IF c = USCORE THEN right /\ (~left \/ IsPunct(a)) ELSE right]

\* ---- links -----------------------------------------------------------------
\* The position after the destination at i, or 0.
RECURSIVE PointyDest(_, _)
PointyDest(s, i) ==
  IF i > Len(s) THEN 0
  ELSE IF s[i] = GT THEN i + 1
  ELSE IF s[i] = BSLASH THEN PointyDest(s, i + 2)
  ELSE IF s[i] \in {LF, LT} THEN 0
  ELSE PointyDest(s, i + 1)
MaxParens == 32
RECURSIVE PlainDest(_, _, _)
PlainDest(s, i, n) ==
  IF i > Len(s) \/ n > MaxParens THEN 0
  ELSE IF s[i] = BSLASH /\ i < Len(s) /\ s[i + 1] \in AsciiPunct
       THEN PlainDest(s, i + 2, n)
  ELSE IF s[i] = LPAR THEN PlainDest(s, i + 1, n + 1)
  ELSE IF s[i] = RPAR THEN IF n = 0 THEN i ELSE PlainDest(s, i + 1, n - 1)
  ELSE IF s[i] \in SpaceChar THEN IF n = 0 THEN i ELSE 0
  ELSE PlainDest(s, i + 1, n)
Dest(s, i) == IF i <= Len(s) /\ s[i] = LT THEN PointyDest(s, i + 1)
              ELSE PlainDest(s, i, 0)

\* The position after the title at i, or i.  A backslash takes the next
\* character with it, unless the title would not end otherwise.
Title(s, i) ==
  IF i > Len(s) \/ s[i] \notin {DQUOTE, SQUOTE, LPAR} THEN i
  ELSE LET q == IF s[i] = LPAR THEN RPAR ELSE s[i]
           Stop == IF s[i] = LPAR THEN {LPAR, RPAR} ELSE {q}
           Escaped(k) == k < Len(s) /\ s[k] = BSLASH /\ s[k + 1] \in AsciiPunct
           RECURSIVE Body(_, _)
           \* last: the end if the text stops here, because of an escaped
           \* closing character
           Body(k, last) ==
             IF k > Len(s) THEN last
             ELSE IF Escaped(k)
                  THEN Body(k + 2, IF s[k + 1] = q THEN k + 2 ELSE last)
             ELSE IF s[k] = q THEN k + 1
             ELSE IF s[k] \in Stop THEN last
             ELSE Body(k + 1, last)
           e == Body(i + 1, i)
       IN e

\* The position after the destination and title of a link whose text ends
\* just before i, or 0.
LinkEnd(s, i) ==
  IF i > Len(s) \/ s[i] # LPAR THEN 0
  ELSE LET d == Dest(s, RunEnd(s, i + 1, SpaceChar))
           b == RunEnd(s, d, SpaceChar)
           t == IF b = d THEN d ELSE Title(s, b)
           e == RunEnd(s, t, SpaceChar)
       IN IF d = 0 THEN 0
          ELSE IF e <= Len(s) /\ s[e] = RPAR THEN e + 1 ELSE 0

\* ---- matching ----------------------------------------------------------------
(***************************************************************************)
(* R: all the runs.  live: indices in R of the runs still on the stack, in *)
(* order.  c: position in live of the current closer.  left[k]: characters *)
(* of run k not used yet.  bottom: for every class of closers, the run     *)
(* under which no opener is to be sought (0: none).                        *)
(***************************************************************************)
Class(r) == IF r.char = USCORE THEN 1
            ELSE 2 + (IF r.open THEN 3 ELSE 0) + (r.len % 3)

CanMatch(o, c) ==
  /\ o.open /\ o.char = c.char
  /\ \/ ~(c.open \/ o.close)
     \/ c.len % 3 = 0
     \/ (o.len + c.len) % 3 # 0

\* The position in live of the opener of R[live[c]], or 0.
RECURSIVE Opener(_, _, _, _, _)
Opener(R, live, k, c, stop) ==
  IF k = 0 \/ live[k] = stop THEN 0
  ELSE IF CanMatch(R[live[k]], R[live[c]]) THEN k
  ELSE Opener(R, live, k - 1, c, stop)

DropAt(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))

RECURSIVE Match(_, _, _, _, _)
Match(R, live, c, left, bottom) ==
  IF c > Len(live) THEN left
  ELSE LET r == R[live[c]]
       IN IF ~r.close THEN Match(R, live, c + 1, left, bottom)
          ELSE LET cl == Class(r)
                   o  == Opener(R, live, c - 1, c, bottom[cl])
               IN IF o = 0
                  THEN LET b2 == [bottom EXCEPT ![cl] =
                                    IF c = 1 THEN 0 ELSE live[c - 1]]
                       IN IF r.open THEN Match(R, live, c + 1, left, b2)
                          ELSE Match(R, DropAt(live, c), c, left, b2)
                  ELSE LET use == IF left[live[o]] >= 2 /\ left[live[c]] >= 2
                                  THEN 2 ELSE 1
                           l2  == [left EXCEPT ![live[o]] = @ - use,
                                               ![live[c]] = @ - use]
                           keepO == IF l2[live[o]] > 0 THEN <<live[o]>> ELSE <<>>
                           keepC == IF l2[live[c]] > 0 THEN <<live[c]>> ELSE <<>>
                           head  == SubSeq(live, 1, o - 1) \o keepO
                           nl    == head \o keepC \o SubSeq(live, c + 1, Len(live))
                       IN Match(R, nl, Len(head) + 1, l2, bottom)

\* ---- scan ---------------------------------------------------------------------
(***************************************************************************)
(* State of the scan: R, live, left (as above); br, the open brackets, each *)
(* with the last run that precedes it (bot) and whether it may still open  *)
(* a link (on); skip, the HTML constructs not to be tried again.           *)
(***************************************************************************)
AddRun(st, r) ==
  IF r.open \/ r.close
  THEN [st EXCEPT !.R = Append(@, r), !.left = Append(@, r.len),
                  !.live = Append(@, Len(st.R) + 1)]
  ELSE st

Push(st, image) ==
  [st EXCEPT !.br = Append(@, [image |-> image, on |-> TRUE, bot |-> Len(st.R)])]
Pop(st) == [st EXCEPT !.br = SubSeq(@, 1, Len(@) - 1)]

\* The runs after the bracket are matched with each other only; a link
\* cannot be in another link.
Link(st) ==
  LET top  == st.br[Len(st.br)]
      over == SelectSeq(st.live, LAMBDA k : k > top.bot)
      rest == SubSeq(st.br, 1, Len(st.br) - 1)
  IN [st EXCEPT
       !.left = Match(st.R, over, 1, @, [k \in 1..7 |-> 0]),
       !.live = SelectSeq(@, LAMBDA k : k <= top.bot),
       !.br = IF top.image THEN rest
              ELSE [k \in 1..Len(rest) |->
                      IF rest[k].image THEN rest[k]
                      ELSE [rest[k] EXCEPT !.on = FALSE]]]

RECURSIVE Scan(_, _, _)
Scan(s, i, st) ==
  IF i > Len(s) THEN st
  ELSE CASE s[i] = TICK ->
              LET j == RunEnd(s, i, {TICK})
                  e == IF j - i > MaxTicks THEN 0 ELSE CloseTicks(s, j, j - i)
              IN Scan(s, IF e = 0 THEN j ELSE e, st)
         [] s[i] = BSLASH ->
              Scan(s, IF i < Len(s) /\ s[i + 1] \in AsciiPunct
                      THEN i + 2 ELSE i + 1, st)
         [] s[i] = LT ->
              LET p == Pointy(s, i, st.skip)
              IN Scan(s, p.next, [st EXCEPT !.skip = p.skip])
         [] s[i] \in {STAR, USCORE} ->
              LET r == Run(s, i) IN Scan(s, i + r.len, AddRun(st, r))
         [] s[i] = LBRACK -> Scan(s, i + 1, Push(st, FALSE))
         [] s[i] = BANG /\ i < Len(s) /\ s[i + 1] = LBRACK ->
              Scan(s, i + 2, Push(st, TRUE))
         [] s[i] = RBRACK ->
              IF st.br = <<>> THEN Scan(s, i + 1, st)
              ELSE LET e == IF st.br[Len(st.br)].on THEN LinkEnd(s, i + 1) ELSE 0
                   IN IF e = 0 THEN Scan(s, i + 1, Pop(st))
                      ELSE Scan(s, e, Link(st))
         [] OTHER -> Scan(s, i + 1, st)

\* ---- result ------------------------------------------------------------------
\* The text without the characters the matched runs consumed.
NoEmphasis(s) ==
  IF \A k \in 1..Len(s) : s[k] \notin {STAR, USCORE} THEN s
  ELSE LET st == Scan(RTrim(s, SpaceChar), 1,
                      [R |-> <<>>, live |-> <<>>, left |-> <<>>, br |-> <<>>,
                       skip |-> {}])
           R == st.R
           left == Match(R, st.live, 1, st.left, [k \in 1..7 |-> 0])
           gone == UNION {R[k].pos..(R[k].pos + R[k].len - left[k] - 1) :
                            k \in 1..Len(R)}
           keep == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : k \notin gone)
       IN [k \in 1..Len(keep) |-> s[keep[k]]]
=============================================================================
