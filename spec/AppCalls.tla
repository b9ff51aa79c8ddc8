------------------------------ MODULE AppCalls ------------------------------
(***************************************************************************)
(* Calls of the program, carried out stage by stage, and the properties of *)
(* what they do; families of calls to be carried out by the program.       *)
(***************************************************************************)
EXTENDS App, Json

CONSTANTS Family, MaxLen
VARIABLES hist,   \* the calls so far
          at,     \* stages done in the last one
          val,    \* what is handed from stage to stage
          cfg,    \* configuration of the log
          files   \* the page that has been written, or ""
vars == <<hist, at, val, cfg, files>>

Docs == {"clean", "warned", "titleless", "figure", "hopeless", "blank", "refused", "noprev", "noasset"}
Sources(front) == IF front = "cli" THEN {"text", "file", "neither", "nofile"} ELSE {"text", "file", "both", "neither", "nofile"}
Entries(front) == IF front = "app" THEN {"parse", "render", "lint", "make"} ELSE {"render", "lint", "make"}
Flag == {"-", "T", "F"}

Base(front, entry) ==
  [front |-> front, entry |-> entry, src |-> "text", doc |-> "clean", hr |-> "-", lint |-> "-", addsrc |-> "-",
   level |-> (IF front = "cli" THEN 0 ELSE -1), fmt |-> "-", time |-> "-", lineno |-> "-", silent |-> FALSE]

(* the options that a way of calling has                                   *)
HrOf(f, e)     == IF e = "parse" \/ (f = "app" /\ e = "lint") THEN {"-"} ELSE IF f = "cli" THEN {"-", "T"} ELSE Flag
LintOf(f, e)   == IF (e = "make" /\ f # "cli") \/ (f = "app" /\ e = "render") THEN Flag ELSE {"-"}
AddsrcOf(f, e) == IF e = "render" /\ f # "cli" THEN Flag ELSE {"-"}
SilentOf(f)    == IF f = "cli" THEN BOOLEAN ELSE {FALSE}
LevelOf(f)     == IF f = "cli" THEN {0, 1, 2, 3} ELSE {-1, 0, 10, 20, 25, 30, 40, 50}
FlagOf(f)      == IF f = "cli" THEN {"-", "F"} ELSE {"T", "F", "-"}

Calls ==
  UNION {{[Base(f, e) EXCEPT !.src = s, !.doc = d, !.hr = h, !.lint = l, !.addsrc = a, !.silent = q]
           : s \in Sources(f), d \in Docs, h \in HrOf(f, e), l \in LintOf(f, e), a \in AddsrcOf(f, e), q \in SilentOf(f)}
         : <<f, e>> \in {x \in {"lib", "app", "cli"} \X {"parse", "render", "lint", "make"} : x[2] \in Entries(x[1])}}
(* where the source comes from matters for what is in it only if there is one *)
(* (an empty text is like none; an empty file is a source)                 *)
Sensible == {v \in Calls : /\ (v.src \in {"text", "file"}) \/ v.doc = "clean"
                           /\ v.doc = "blank" => v.src = "file"}

Logs ==
  UNION {{[Base(f, e) EXCEPT !.doc = d, !.level = l, !.fmt = m, !.time = t, !.lineno = n, !.silent = (f = "cli")]
           : d \in {"warned", "hopeless"}, l \in LevelOf(f), m \in {"-"} \cup Formats, t \in FlagOf(f), n \in FlagOf(f)}
         : <<f, e>> \in {x \in {"lib", "app", "cli"} \X {"parse", "render", "lint", "make"} : x[2] \in Entries(x[1])}}

(* for histories: few of each                                              *)
Some ==
  {v \in UNION {{[Base(f, e) EXCEPT !.doc = d, !.level = l, !.fmt = m, !.time = t, !.hr = h]
           : d \in {"warned", "hopeless", "figure"}, l \in {30, 20, 40}, m \in {"-", "json"}, t \in {"-", "F"}, h \in {"-", "T", "F"}}
         : <<f, e>> \in {"lib"} \X {"render", "lint", "make"}} : v.entry # "lint" \/ v.hr = "-"}
  \cup {[Base("cli", e) EXCEPT !.doc = d, !.level = l, !.silent = q]
          : e \in {"render", "lint", "make"}, d \in {"warned", "clean"}, l \in {0, 1}, q \in BOOLEAN}

Family0 == CASE Family = "calls" -> Sensible [] Family = "logs" -> Logs [] Family = "histories" -> Some

------------------------------------------------------------------------------
V == hist[Len(hist)]
Running == Len(hist) > 0 /\ at < Len(Carried(V))

Init == hist = <<>> /\ at = 0 /\ val = "" /\ cfg = <<>> /\ files = ""

Call ==
  /\ ~Running /\ Len(hist) < MaxLen
  /\ \E v \in Family0 :
       /\ hist' = Append(hist, v)
       /\ val' = IF v.src = "text" THEN "text" ELSE IF Accepted(v) THEN "path" ELSE "error"
       /\ cfg' = IF Accepted(v) THEN Config(v) ELSE cfg
  /\ at' = 0 /\ UNCHANGED files

Stage ==
  /\ Running
  /\ LET s == Carried(V)[at + 1]
     IN IF s = Failing(V)
        THEN val' = (IF Hopeless(V.doc) THEN "empty" ELSE "error") /\ UNCHANGED files
        ELSE /\ val' = CASE s = "reader" -> "text" [] s = "parser" -> "parsed" [] s = "transformer" -> "tree" [] s = "linter" -> "tree"
                         [] s = "translator" -> Kind(V) [] s = "builder" -> "page" [] s = "writer" -> "nothing"
             /\ files' = IF s = "writer" THEN Kind(V) ELSE files
  /\ at' = at + 1 /\ UNCHANGED <<hist, cfg>>

Next == Call \/ Stage
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Before(s, x, y) == \A i, j \in 1..Len(s) : s[i] = x /\ s[j] = y => i < j
Order == Len(hist) > 0 =>
  LET s == Stages(V)
  IN /\ \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
     /\ Before(s, "reader", "parser") /\ Before(s, "parser", "transformer") /\ Before(s, "transformer", "linter")
     /\ Before(s, "linter", "translator") /\ Before(s, "transformer", "translator")
     /\ Before(s, "translator", "builder") /\ Before(s, "builder", "writer")
(* every stage gets what it needs                                          *)
Fed == Running =>
  CASE Carried(V)[at + 1] = "reader" -> val = "path" [] Carried(V)[at + 1] = "parser" -> val = "text"
    [] Carried(V)[at + 1] = "transformer" -> val = "parsed" [] Carried(V)[at + 1] \in {"linter", "translator"} -> val = "tree"
    [] Carried(V)[at + 1] = "builder" -> val = Kind(V) [] Carried(V)[at + 1] = "writer" -> val = "page"
(* ... and what comes out is what was asked for                            *)
Ends == (Len(hist) > 0 /\ ~Running) =>
  /\ val = Outcome(V) \/ (val = "error" /\ Outcome(V) \in {"error", "error:RSMApplicationError", "error:FileNotFoundError"})
  /\ Writes(V) => files = Kind(V)
(* a call that does not make a page, or fails, leaves the files alone      *)
OnlyMake == [][files' # files => Writes(V)]_vars
LastOnly == Len(hist) > 0 /\ Accepted(V) => cfg = Config(V)
(* everything that the command line offers, the functions do too           *)
AsLibrary(v) ==
  [v EXCEPT !.front = "lib", !.level = Asked(v), !.fmt = Format(v),
            !.hr = IF v.entry = "lint" THEN "-" ELSE IF Handrails(v) THEN "T" ELSE "F"]
SameAsLibrary == Len(hist) > 0 /\ V.front = "cli" =>
  LET w == AsLibrary(V) IN Stages(w) = Stages(V) /\ Outcome(w) = Outcome(V) /\ Config(w) = Config(V) /\ (V.entry # "lint" => Kind(w) = Kind(V))

Printed == (Len(hist) = MaxLen /\ ~Running) => PrintT(<<"DOC", ToJson(hist)>>)
=============================================================================
