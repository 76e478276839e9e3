------------------------------ MODULE Outcome ------------------------------
(***************************************************************************)
(* How building a table of contents may end, for any file.                 *)
(*                                                                         *)
(* A file is a sequence of bytes; it can be decoded if the bytes are well  *)
(* formed UTF-8 (Unicode, table 3-7).  A file that can be decoded gives a  *)
(* table of contents or one of the documented errors, and which of them    *)
(* are possible depends on the options.  A file that cannot be decoded     *)
(* gives a notice, or the documented error of a heading that comes before  *)
(* the bytes which cannot be decoded.                                      *)
(***************************************************************************)
EXTENDS Text

\* ---- UTF-8 -----------------------------------------------------------------
\* The state is <<number of bytes still expected, lowest and highest value of
\* the next one>>; <<-1, 0, 0>> once the bytes are ill formed.
Ill == <<-1, 0, 0>>
Ready == <<0, 0, 0>>
Cont(n) == <<n, 128, 191>>
Lead(b) ==
  CASE b <= 127 -> Ready
    [] b \in 194..223 -> Cont(1)
    [] b = 224 -> <<2, 160, 191>>
    [] b \in (225..236) \cup {238, 239} -> Cont(2)
    [] b = 237 -> <<2, 128, 159>>
    [] b = 240 -> <<3, 144, 191>>
    [] b \in 241..243 -> Cont(3)
    [] b = 244 -> <<3, 128, 143>>
    [] OTHER -> Ill
Utf8Step(st, b) ==
  IF st = Ill THEN Ill
  ELSE IF st = Ready THEN Lead(b)
  ELSE IF b < st[2] \/ b > st[3] THEN Ill
  ELSE IF st[1] = 1 THEN Ready
  ELSE Cont(st[1] - 1)
Decodable(bytes) == FoldLeft(Utf8Step, Ready, bytes) = Ready

\* ---- outcomes --------------------------------------------------------------
\* The errors the options make possible.
Errors(opt) ==
  (IF opt.links /\ opt.fam # "rc" THEN {"empty", "overflow"} ELSE {})
  \cup (IF opt.indent /\ opt.coherent THEN {"incoherent"} ELSE {})
  \cup (IF opt.ordered /\ ~opt.const /\ opt.fam # "rc" THEN {"number"} ELSE {})

Prefix_ == <<60, 33, 45, 45, 115, 116, 111, 112, 32, 114, 101, 97, 100, 105, 110,
             103, 32>>
Suffix_ == <<58, 32, 112, 114, 111, 98, 97, 98, 108, 121, 32, 97, 32, 98, 105, 110,
             97, 114, 121, 32, 102, 105, 108, 101, 45, 45, 62>>
\* <!--stop reading NAME: probably a binary file-->
Notice(name) == Prefix_ \o name \o Suffix_

Allowed(decodable, opt, name, status, out) ==
  IF decodable
  THEN \/ status = "ok" /\ out # Notice(name)
       \/ status \in Errors(opt)
  ELSE \/ status = "ok" /\ out = Notice(name)
       \/ status \in Errors(opt)
=============================================================================
