-------------------------------- MODULE App --------------------------------
(***************************************************************************)
(* The ways in which the program is called, what their options mean, which *)
(* stages are run and what comes of it.                                    *)
(*                                                                         *)
(* A call has                                                              *)
(*   front    "lib" (functions), "app" (application classes), "cli"        *)
(*   entry    "render", "lint", "make"; of the classes also "parse"        *)
(*   src      "text", "file", "both", "neither", "nofile"                  *)
(*   doc      the kind of document                                         *)
(*   hr, lint, addsrc   "-" (not said), "T", "F"                           *)
(*   level    the level of the log (-1: not said), or of the command line  *)
(*            how often -v is given                                        *)
(*   fmt      format of the log ("-": not said)                            *)
(*   time, lineno       "-", "F" (and "T" where that can be said)          *)
(*   silent   whether the command line is told to be silent                *)
(***************************************************************************)
EXTENDS Logger

Yes(b, default) == IF b = "-" THEN default ELSE b = "T"

(* what the options come to                                                *)
Handrails(v)  == Yes(v.hr, v.entry = "make") \/ (v.front = "cli" /\ v.entry = "make")
Linting(v)    == v.entry = "lint" \/ (v.entry = "make" /\ Yes(v.lint, v.front # "app")) \/ (v.entry = "render" /\ Yes(v.lint, FALSE))
WithSource(v) == IF v.entry = "render" THEN Yes(v.addsrc, v.front = "app") ELSE TRUE
Asked(v)      == IF v.front = "cli" THEN 30 - 10 * v.level ELSE IF v.level = -1 THEN 30 ELSE v.level
(* reports of the linter are what the linter is called for                 *)
Level(v)      == IF v.entry = "lint" /\ Asked(v) > 25 THEN 25 ELSE Asked(v)
Format(v)     == IF v.fmt # "-" THEN v.fmt ELSE IF v.front = "cli" /\ v.entry = "lint" THEN "lint" ELSE "rsm"
Config(v)     == [level |-> Level(v), fmt |-> Format(v), time |-> Yes(v.time, TRUE), lineno |-> Yes(v.lineno, TRUE)]
Shown(v)      == v.front = "cli" /\ ~v.silent /\ v.entry # "lint"

Kind(v) == IF ~Handrails(v) THEN "plain" ELSE IF WithSource(v) THEN "railssrc" ELSE "rails"

Readable(v) == v.src \in {"text", "file"}
Accepted(v) == v.src \notin {"both", "neither"}

Stages(v) ==
  (IF v.src \in {"file", "nofile"} THEN <<"reader">> ELSE <<>>) \o <<"parser", "transformer">>
    \o (IF Linting(v) THEN <<"linter">> ELSE <<>>)
    \o (IF v.entry \in {"render", "make"} THEN <<"translator">> ELSE <<>>)
    \o (IF v.entry = "make" THEN <<"builder", "writer">> ELSE <<>>)

(* the stage at which a document of some kind is refused                   *)
Hopeless(doc) == doc \in {"hopeless", "blank"}
FailsAt(doc) ==
  CASE Hopeless(doc) -> "parser" [] doc = "refused" -> "parser" [] doc = "noprev" -> "transformer"
    [] doc = "noasset" -> "builder" [] OTHER -> ""
Failing(v) ==
  IF v.src = "nofile" THEN "reader"
  ELSE IF \E i \in 1..Len(Stages(v)) : Stages(v)[i] = FailsAt(v.doc) THEN FailsAt(v.doc) ELSE ""

(* the stages that are carried out, the last perhaps in vain               *)
Upto(s, x) == LET n == CHOOSE k \in 1..Len(s) : s[k] = x IN SubSeq(s, 1, n)
Carried(v) ==
  IF ~Accepted(v) THEN <<>> ELSE IF Failing(v) = "" THEN Stages(v) ELSE Upto(Stages(v), Failing(v))

(* how the call ends: with a result, or an error.  Nothing can be parsed:  *)
(* this is reported in the log, and the result is empty.                   *)
Outcome(v) ==
  CASE ~Accepted(v)                -> "error:RSMApplicationError"
    [] v.src = "nofile"            -> "error:FileNotFoundError"
    [] Failing(v) # "" /\ Hopeless(v.doc) -> "empty"
    [] Failing(v) # ""             -> "error"
    [] v.entry \in {"lint", "parse"} -> "tree"
    [] v.entry = "render"          -> Kind(v)
    [] OTHER                       -> "nothing"
Writes(v) == v.entry = "make" /\ Accepted(v) /\ Failing(v) = ""
=============================================================================
