----------------------------- MODULE LoggerRuns -----------------------------
(***************************************************************************)
(* Histories of configuring the log and logging events.                    *)
(***************************************************************************)
EXTENDS Logger, Json

CONSTANT MaxLen
VARIABLES cfg, hist, written
vars == <<cfg, hist, written>>

Levels  == {0, 10, 20, 25, 30, 40, 50}
Configs == [level : Levels, fmt : Formats, time : BOOLEAN, lineno : BOOLEAN]
Places  == {<<>>, <<3, 1>>, <<3, 1, 4, 15>>}
None    == [level |-> -1, fmt |-> "", time |-> FALSE, lineno |-> FALSE]

Init == cfg = None /\ hist = <<>> /\ written = <<>>

Configure ==
  /\ Len(hist) < MaxLen - 1
  /\ \E c \in Configs : cfg' = c /\ hist' = Append(hist, [do |-> "config", c |-> c, e |-> [lvl |-> 0, pos |-> <<>>]])
  /\ UNCHANGED written

Emit ==
  /\ cfg # None /\ Len(hist) < MaxLen
  /\ \E l \in Severities, p \in Places :
       /\ hist' = Append(hist, [do |-> "event", c |-> cfg, e |-> [lvl |-> l, pos |-> p]])
       /\ written' = IF l >= Threshold(cfg.level) THEN Append(written, Len(hist) + 1) ELSE written
  /\ UNCHANGED cfg

Next == Configure \/ Emit
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Exactly the events at or above the level in force are written, once.    *)
LastConfig(i) == CHOOSE j \in 1..i : hist[j].do = "config" /\ \A m \in (j + 1)..i : hist[m].do # "config"
ExactlyWanted ==
  \A i \in 1..Len(hist) :
    Cardinality({j \in 1..Len(written) : written[j] = i})
      = (IF hist[i].do = "event" /\ hist[i].e.lvl >= Threshold(hist[LastConfig(i)].c.level) THEN 1 ELSE 0)
InOrder == \A i, j \in 1..Len(written) : i < j => written[i] < written[j]

Printed == (Len(hist) = MaxLen) => PrintT(<<"DOC", ToJson(hist)>>)
=============================================================================
