------------------------------- MODULE Slug -------------------------------
(***************************************************************************)
(* Anchors.  Base is the anchor before duplicates are numbered.            *)
(***************************************************************************)
EXTENDS Emph

RECURSIVE Squeeze(_, _)
Squeeze(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = DASH THEN <<DASH>> \o Squeeze(s, RunEnd(s, i, {DASH}))
  ELSE LET e == FindIn(s, i, {DASH}) IN SubSeq(s, i, e - 1) \o Squeeze(s, e)

CmBase(text, fam) ==
  LET a == LowerText(NoHtml(text, fam))
      b == NoEmphasis(a)
      c == SelectSeq(b, LAMBDA x : x \in {DASH, SP} \/ IsWord(x))
      d == Map1(c, SP, DASH)
  IN IF fam = "gl" THEN Squeeze(d, 1) ELSE d

\* ---- redcarpet ---------------------------------------------------------------
Reserved == {SP, DASH, AMP, PLUS, 36, 44, SLASH, COLON, SEMI, EQ, QMARK, AT,
             DQUOTE, HASH, 123, 125, 124, 94, TILDE, LBRACK, RBRACK, TICK,
             BSLASH, STAR, LPAR, RPAR, 37, DOT, BANG, SQUOTE}

\* acc: output; gap: a run of replaced characters has just been seen.
RECURSIVE RcFold(_, _, _, _)
RcFold(s, i, out, gap) ==
  IF i > Len(s) THEN out
  ELSE IF s[i] = LT THEN RcFold(s, FindIn(s, i, {GT}) + 1, out, gap)
  ELSE IF s[i] = AMP THEN RcFold(s, FindIn(s, i, {SEMI}) + 1, out, gap)
  ELSE IF s[i] > 127 \/ s[i] \in Reserved THEN RcFold(s, i + 1, out, TRUE)
  ELSE RcFold(s, i + 1,
              out \o (IF gap /\ out # <<>> THEN <<DASH>> ELSE <<>>) \o <<Lower(s[i])>>,
              FALSE)

Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536
       THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
         128 + ((c \div 64) % 64), 128 + (c % 64)>>
Bytes(s) == Cat([k \in 1..Len(s) |-> Utf8(s[k])])

\* hash * 33 + byte, modulo 2^64, on four 16 bit limbs (least first).
HashStep(h, b) ==
  LET B == 65536
      p1 == h[1] * 33 + b
      p2 == h[2] * 33 + (p1 \div B)
      p3 == h[3] * 33 + (p2 \div B)
      p4 == h[4] * 33 + (p3 \div B)
  IN <<p1 % B, p2 % B, p3 % B, p4 % B>>
HashOf(s) == FoldLeft(HashStep, <<5381, 0, 0, 0>>, Bytes(s))
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex4(n) == <<HexDigit(n \div 4096), HexDigit((n \div 256) % 16),
             HexDigit((n \div 16) % 16), HexDigit(n % 16)>>
HexOf(h) == LTrim(Hex4(h[4]) \o Hex4(h[3]) \o Hex4(h[2]) \o Hex4(h[1]), {48})

Part == <<112, 97, 114, 116, DASH>>
RcBase(s) ==
  LET out == RcFold(s, 1, <<>>, FALSE)
  IN IF out = <<>> /\ s # <<>> THEN Part \o HexOf(HashOf(s)) ELSE out

Base(text, fam) == IF fam = "rc" THEN RcBase(text) ELSE CmBase(text, fam)

\* The anchor of the k-th heading (k from 0) with the same base.
Numbered(base, k, fam) ==
  IF fam = "rc" \/ k = 0 THEN base ELSE base \o <<DASH>> \o Num(k)
=============================================================================
