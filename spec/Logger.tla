------------------------------- MODULE Logger -------------------------------
(***************************************************************************)
(* The log of the program: it is configured with a level, a format and     *)
(* whether times and line numbers are wanted, again and again, and events  *)
(* are logged.                                                             *)
(*                                                                         *)
(*   cfg      the configuration in force                                   *)
(*   hist     what has been done, as records with field do                 *)
(*   written  the events written so far, as <<index in hist, line>>        *)
(*                                                                         *)
(* An event has: lvl, level (its name), name (of the part of the program), *)
(* msg, file, line (where in the program), pos (<<>>, or line and column   *)
(* in the source, or those of beginning and end).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Formats == {"plain", "rsm", "json", "lint"}
LevelName(n) ==
  CASE n = 10 -> "DBG" [] n = 20 -> "INF" [] n = 25 -> "LINT" [] n = 30 -> "WRN" [] n = 40 -> "ERROR" [] n = 50 -> "CRITICAL"
Severities == {10, 20, 25, 30, 40, 50}

(* events below DBG do not exist                                           *)
Threshold(level) == IF level < 10 THEN 10 ELSE level
Wanted(c, ev) == ev.lvl >= Threshold(c.level)

Point(pos) ==
  IF pos = <<>> THEN ""
  ELSE " | (" \o ToString(pos[1]) \o ", " \o ToString(pos[2]) \o ")"
         \o (IF Len(pos) = 4 THEN " - (" \o ToString(pos[3]) \o ", " \o ToString(pos[4]) \o ")" ELSE "") \o " | "
Pad3(s) == IF Len(s) >= 3 THEN s ELSE s \o SubSeq("   ", 1, 3 - Len(s))

(* the line that is written for an event (without colours; TIME stands for *)
(* the time of day)                                                        *)
Line(c, ev) ==
  CASE c.fmt = "plain" -> ev.msg
    [] c.fmt = "lint"  -> (IF ev.pos = <<>> THEN "src:1:1: "
                           ELSE "src:" \o ToString(ev.pos[1]) \o ":" \o ToString(ev.pos[2]) \o ": ") \o ev.level \o ": " \o ev.msg
    [] c.fmt = "rsm"   -> (IF c.time THEN "TIME " ELSE "") \o ev.name \o " " \o Pad3(ev.level) \o " | " \o ev.msg \o Point(ev.pos)
                            \o " (" \o ev.file \o (IF c.lineno THEN ":" \o ToString(ev.line) ELSE "") \o ")"
(* ... as a record if the format is json                                   *)
Fields(c, ev) ==
  [name |-> ev.name, level |-> ev.level, msg |-> ev.msg, filename |-> ev.file]
    @@ (IF c.lineno THEN [lineno |-> ev.line] ELSE <<>>) @@ (IF c.time THEN [time |-> "TIME"] ELSE <<>>)

(* what becomes of a sequence of events                                    *)
Lines(c, evs) ==
  LET w == SelectSeq(evs, LAMBDA ev : Wanted(c, ev))
  IN [i \in 1..Len(w) |-> IF c.fmt = "json" THEN Fields(c, w[i]) ELSE Line(c, w[i])]
=============================================================================
