-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line: which commands are valid and which settings of the    *)
(* library they stand for.                                                 *)
(*                                                                         *)
(* A command is a record of strings, "none" where an option is not given,  *)
(* "bare" where it is given without its optional value:                    *)
(*   parser                                                                *)
(*   coh    none, c (no list coherence), i (no indentation), ci (both)     *)
(*   links  none, l (no links)                                             *)
(*   marker none, a marker                                                 *)
(*   nl     none, n, r, rn, anything else                                  *)
(*   place  none, p (in place)                                             *)
(*   diff   none, d                                                        *)
(*   skip   none, a number                                                 *)
(*   u, o   none, bare, a list marker (unordered, ordered)                 *)
(*   const  none, c                                                        *)
(*   levels none, bare, a number                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Parsers == {"github", "commonmarker", "cmark", "goldmark", "gitlab", "redcarpet"}
Family(p) == CASE p \in {"github", "commonmarker"} -> "gfm"
               [] p \in {"cmark", "goldmark"} -> "cm"
               [] p = "gitlab" -> "gl"
               [] OTHER -> "rc"

Bullets(p) == {"-", "+", "*"}
Closers(p) == IF p = "redcarpet" THEN {"."} ELSE {".", ")"}
DefaultBullet == "-"
DefaultCloser == "."
LevelNames == {"1", "2", "3", "4", "5", "6"}
Integers_ == {"-1", "0", "1", "2", "3", "40"}

Bad(c) ==
  \/ c.parser \notin Parsers
  \/ c.coh = "ci"                                  \* mutually exclusive
  \/ c.u # "none" /\ c.o # "none"                  \* mutually exclusive
  \/ c.u \notin Bullets(c.parser) \cup {"none", "bare"}
  \/ c.o \notin Closers(c.parser) \cup {"none", "bare"}
  \/ c.levels \notin LevelNames \cup {"none", "bare"}
  \/ c.nl \notin {"none", "n", "r", "rn"}
  \/ c.skip \notin Integers_ \cup {"none"}

\* The default bullet asked for together with an ordered list: nothing says
\* whether this is an ordered list or an invalid command.
Unsettled(c) == c.u \in {"bare", DefaultBullet} /\ c.o # "none"

ValueOf(s) == CASE s = "-1" -> -1 [] s = "0" -> 0 [] s = "1" -> 1 [] s = "2" -> 2
                [] s = "3" -> 3 [] s = "4" -> 4 [] s = "5" -> 5 [] s = "6" -> 6
                [] s = "40" -> 40
CodeOf(s) == CASE s = "-" -> 45 [] s = "+" -> 43 [] s = "*" -> 42
               [] s = "." -> 46 [] s = ")" -> 41

\* The options of the library (those of TocBuilder) for a valid command.
Settings(c) ==
  [fam      |-> Family(c.parser),
   ordered  |-> c.o # "none",
   const    |-> c.const = "c",
   mark     |-> IF c.o # "none"
                THEN CodeOf(IF c.o = "bare" THEN DefaultCloser ELSE c.o)
                ELSE CodeOf(IF c.u \in {"none", "bare"} THEN DefaultBullet ELSE c.u),
   links    |-> c.links = "none",
   indent   |-> c.coh # "i",
   coherent |-> c.coh # "c",
   keep     |-> IF c.levels \in {"none", "bare"} THEN 6 ELSE ValueOf(c.levels),
   skip     |-> IF c.skip = "none" THEN 0 ELSE ValueOf(c.skip)]
Newline(c) == IF c.nl \in {"none", "n"} THEN <<10>>
              ELSE IF c.nl = "r" THEN <<13>> ELSE <<13, 10>>
=============================================================================
