---------------------------- MODULE LoggerTrace ----------------------------
(***************************************************************************)
(* Recorded histories of the real log against Logger.  A record has hist:  *)
(* configurations and events as they were, each with what was written      *)
(* (field lines) while it happened.                                        *)
(***************************************************************************)
EXTENDS Logger, Json, IOUtils

CONSTANT Props
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ri, i, cfg
R == Recs[ri]
Say(p, clause, ok) == IF p \in Props /\ ~ok THEN PrintT(<<"FAIL", p, clause, R.id, ToString(i)>>) ELSE TRUE

Init == ri \in 1..Len(Recs) /\ i = 1 /\ cfg = [level |-> 0]
Step ==
  /\ i <= Len(R.hist)
  /\ LET h == R.hist[i]
     IN IF h.do = "config"
        THEN cfg' = h.c /\ Say("C22", "configuring writes nothing", h.lines = <<>>)
        ELSE /\ UNCHANGED cfg
             /\ Say("C22", "what is written", Len(h.lines) = (IF Wanted(cfg, h.e) THEN 1 ELSE 0))
             /\ Say("C22", "line", (Len(h.lines) = 1 /\ Wanted(cfg, h.e)) => h.lines = Lines(cfg, <<h.e>>))
  /\ i' = i + 1 /\ UNCHANGED ri
Spec == Init /\ [][Step]_<<ri, i, cfg>>
=============================================================================
