------------------------------ MODULE AppTrace ------------------------------
(***************************************************************************)
(* Recorded calls of the real program against App and Logger.              *)
(*                                                                         *)
(* Refs (one record for every kind of document) has what the stages do     *)
(* when they are carried out by hand, one after the other, each in a       *)
(* process of its own: text (digests of the results, by kind), tree,       *)
(* files (by kind), events (by stage), dump (by stage: what is written to  *)
(* standard output at the lowest level), and what the application itself   *)
(* logs at the beginning and at the end.                                   *)
(*                                                                         *)
(* A record has hist: calls (field v) with what came of each: how it ended *)
(* (end, error), the digest of the result, the files that have changed,    *)
(* what was written (err: lines of the log; out: what of the known texts,  *)
(* standard output consists of), and the stages an application has.        *)
(***************************************************************************)
EXTENDS App, Json, IOUtils

CONSTANT Props
Recs == ndJsonDeserialize(IOEnv.TRACE)
Refs == ndJsonDeserialize(IOEnv.REFS)
VARIABLES ri, i
R == Recs[ri]
Say(p, clause, ok) == IF p \in Props /\ ~ok THEN PrintT(<<"FAIL", p, clause, R.id, ToString(i)>>) ELSE TRUE

Ref(doc) == CHOOSE r \in Range(Refs) : r.doc = doc
StageKey(v, s) == IF s \in {"translator", "builder", "writer"} THEN s \o ":" \o Kind(v) ELSE s
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
AllEvents(v) ==
  LET r == Ref(v.doc) s == Carried(v)
  IN IF ~Accepted(v) THEN <<>>
     ELSE r.start \o Cat([k \in 1..Len(s) |-> r.events[StageKey(v, s[k])]])
            \o (IF Outcome(v) = "empty" THEN r.hopeless ELSE IF Failing(v) = "" THEN r.done ELSE <<>>)
Digest(v) ==
  LET o == Outcome(v)
  IN IF o \in {"plain", "rails", "railssrc"} THEN Ref(v.doc).text[o] ELSE IF o = "tree" THEN Ref(v.doc).tree ELSE o
(* (the command line has no result but what it shows)                      *)
EndsAs(v) ==
  LET o == Outcome(v)
  IN IF v.front = "cli" /\ o \in {"empty", "nothing", "tree", "plain", "rails", "railssrc"} THEN "shown"
     ELSE IF o \in {"empty", "nothing", "tree", "error"} THEN o ELSE IF o \in {"plain", "rails", "railssrc"} THEN "text" ELSE o
(* at the lowest level both trees are shown on standard output             *)
Dumps(v) ==
  LET s == Carried(v) IN IF Level(v) > 10 THEN <<>> ELSE Cat([k \in 1..Len(s) |-> Ref(v.doc).dump[StageKey(v, s[k])]])
Out(v) == Dumps(v) \o (IF Shown(v) /\ Outcome(v) \in {"plain", "rails", "railssrc"} THEN <<Outcome(v)>> ELSE <<>>)

Init == ri \in 1..Len(Recs) /\ i = 1
Step ==
  /\ i <= Len(R.hist)
  /\ LET h == R.hist[i] v == h.v
         e == EndsAs(v)
     IN /\ Say("C24", "how it ends", IF e = "error" THEN h.end = "error" ELSE IF h.end = "error" THEN ("error:" \o h.error) = e ELSE h.end = e)
        /\ Say("C24", "result", (e \in {"text", "tree"} /\ h.end = e) => h.digest = Digest(v))
        /\ Say("C24", "files", h.files = IF Writes(v) THEN Ref(v.doc).files[Kind(v)] ELSE <<>>)
        /\ Say("C24", "standard output", h.out = Out(v))
        /\ Say("C24", "stages", (v.front = "app" /\ Accepted(v)) => h.stages = Stages(v))
        /\ LET want == Lines(Config(v), AllEvents(v))
           IN Say("C22", "what is written", Len(h.err) = Len(want)) /\ Say("C22", "lines", Len(h.err) = Len(want) => h.err = want)
  /\ i' = i + 1 /\ UNCHANGED ri
Spec == Init /\ [][Step]_<<ri, i>>
=============================================================================
