----------------------------- MODULE Arguments -----------------------------
(***************************************************************************)
(* The ranges of the arguments of the public functions, and what a call    *)
(* out of them does: nothing but being rejected.                           *)
(*                                                                         *)
(* A call is [f, fam, a, b, c, ordered, mark, text]; what the fields are   *)
(* depends on f:                                                           *)
(*   "count"    increase_index_ordered_list(.., a, b)                      *)
(*   "indent"   compute_toc_line_indentation_spaces(b, a, .., index c)     *)
(*   "entry"    build_toc_line_without_indentation(level b, index c)       *)
(*   "line"     build_toc_line(.., a)                                      *)
(*   "heading"  get_atx_heading(text, a)                                   *)
(*   "header"   get_md_header(text, .., a)                                 *)
(*   "anchor"   build_anchor_link(text)                                    *)
(*   "build"    build_toc of a document with the given text, a lines       *)
(*              skipped and b levels kept                                  *)
(*   "all"      the same with build_multiple_tocs                          *)
(*   "write"    write_strings_on_files_between_markers with a files and b  *)
(*              strings                                                    *)
(* A mark which is not a single character is a negative number.            *)
(* The objects the calls work on are the counter of the numbers, the log   *)
(* of the indentation, the counter of the anchors and the files.           *)
(***************************************************************************)
EXTENDS Marks, Integers, Sequences, FiniteSets

\* ---- ranges ----------------------------------------------------------------
GoodMark(fam, ordered, mark) == mark \in IF ordered THEN Closers(fam) ELSE Bullets

Newlines == {LF, CR}
\* Newlines at both ends do not count.
HasNewline(text) ==
  LET t == RTrim(LTrim(text, Newlines), Newlines)
  IN \E i \in 1..Len(t) : t[i] \in Newlines

\* Building examines the lines of a document from the first one which is not
\* skipped; the documents of the calls have only headings, prose and blank
\* lines, each ended by LF.
LinesIn(text) == Cardinality({i \in 1..Len(text) : text[i] = LF})
Starts(text) == {i \in 1..Len(text) : i = 1 \/ text[i - 1] = LF}
LineAt(text, i) == Cardinality({j \in 1..(i - 1) : text[j] = LF})
Hashes(text, i) ==
  Cardinality({j \in i..Len(text) : \A k \in i..j : text[k] = HASH})
\* The documents of the calls have only headings of a few levels.
HasEntry(text, skip, keep) ==
  \E i \in Starts(text) : LineAt(text, i) >= skip /\ Hashes(text, i) \in 1..keep

Rejections == {"value", "newline"}

\* "ok", the exception, or "any" when building may stop before it uses the
\* argument.
BuildVerdict(c) ==
  IF c.a < 0 THEN "value"
  ELSE IF c.b < 1 THEN IF LinesIn(c.text) > c.a THEN "value" ELSE "any"
  ELSE IF ~c.ordered /\ c.mark \notin Bullets
       THEN IF HasEntry(c.text, c.a, c.b) THEN "value" ELSE "any"
  ELSE "ok"

Value(good) == IF good THEN "ok" ELSE "value"

Verdict(c) ==
  CASE c.f = "count"   -> Value(c.a >= 0 /\ c.b >= 1)
    [] c.f = "indent"  -> Value(c.a >= 0 /\ c.b >= 1 /\ c.c >= 1
                                /\ GoodMark(c.fam, c.ordered, c.mark))
    [] c.f = "entry"   -> Value(c.b >= 1 /\ c.c >= 1 /\ GoodMark(c.fam, c.ordered, c.mark))
    [] c.f = "line"    -> Value(c.a >= 0)
    [] c.f \in {"heading", "header"} -> Value(c.a >= 1)
    [] c.f = "anchor"  -> IF HasNewline(c.text) THEN "newline" ELSE "ok"
    [] c.f \in {"build", "all"} -> BuildVerdict(c)
    [] c.f = "write"   -> Value(c.a = c.b)

(***************************************************************************)
(* The machine: obj gives the version of each object, i.e. the number of   *)
(* calls which could change it.                                            *)
(***************************************************************************)
Objects == {"numbers", "log", "anchors", "files"}
Changes(f) == CASE f = "count"  -> {"numbers"}
                [] f = "indent" -> {"log"}
                [] f \in {"header", "anchor"} -> {"anchors"}
                [] f = "write"  -> {"files"}
                [] OTHER        -> {}

VARIABLE obj
ArgumentsInit == obj = [x \in Objects |-> 0]

Accept(c) ==
  /\ Verdict(c) \notin Rejections
  /\ obj' = [x \in Objects |-> IF x \in Changes(c.f) THEN obj[x] + 1 ELSE obj[x]]
Reject(c) == Verdict(c) \in Rejections /\ UNCHANGED obj
Called(c) == Accept(c) \/ Reject(c)

\* What a recorded call shows: its outcome, and which objects changed.
Agrees(c, outcome, changed) ==
  LET v == Verdict(c)
  IN (IF v = "any"
      THEN IF outcome \in Rejections \cup {"ok"} THEN {} ELSE {"outcome"}
      ELSE IF outcome = v THEN {} ELSE {"outcome"})
     \cup (IF v \in Rejections /\ changed # {} THEN {"changed"} ELSE {})
     \cup (IF changed \subseteq Changes(c.f) THEN {} ELSE {"others"})
=============================================================================
