---------------------------- MODULE LoadingRuns ----------------------------
(***************************************************************************)
(* The loading of a page, step by step: every part is begun when the one   *)
(* before it has been set up or has failed.                                *)
(***************************************************************************)
EXTENDS Loading, TLC, Json

VARIABLES missing, keys, hanging, bad, todo, up, down, drawn
vars == <<missing, keys, hanging, bad, todo, up, down, drawn>>
Order == <<"icons", "handrails", "keys", "minimap", "math", "algorithms", "tooltips">>
Algorithms == 3
Init ==
  /\ keys \in BOOLEAN
  /\ \/ missing \in SUBSET (Files \cup Libs) /\ hanging = {} /\ bad = {}
     \/ hanging \in SUBSET Libs \ {{}} /\ missing \in {m \in SUBSET (Files \cup (Libs \ hanging)) : Cardinality(m) <= 2} /\ bad = {}
     \/ bad \in SUBSET (1..Algorithms) \ {{}} /\ hanging = {} /\ missing \in {m \in SUBSET (Files \cup Libs) : Cardinality(m) <= 1}
  /\ todo = Order /\ up = {} /\ down = {} /\ drawn = {}
Begin ==
  /\ todo # <<>>
  /\ LET p == Head(todo)
     IN /\ ~Held(p, missing, hanging)
        /\ IF p \notin Wanted(keys) THEN UNCHANGED <<up, down>>
           ELSE IF Needs(p) \cap (missing \cup hanging) = {} THEN up' = up \cup {p} /\ UNCHANGED down
           ELSE down' = down \cup {p} /\ UNCHANGED up
        /\ IF p = "algorithms" /\ p \in up' THEN drawn' = Drawn(Algorithms, bad) ELSE UNCHANGED drawn
  /\ todo' = Tail(todo) /\ UNCHANGED <<missing, keys, hanging, bad>>
Spec == Init /\ [][Begin]_vars /\ WF_vars(Begin)

Stopped == todo = <<>> \/ Held(Head(todo), missing, hanging)
AllThatCan ==
  Stopped => /\ Works(keys, missing, hanging) \subseteq up /\ up \subseteq CanWork(keys, missing, hanging)
             /\ (hanging = {} => up = Works(keys, missing, hanging) /\ down = Failing(keys, missing, hanging))
OneOrTheOther == up \cap down = {}
Others == "algorithms" \in up => drawn = (1..Algorithms) \ bad
Loads == <>Stopped /\ (hanging = {} => <>(todo = <<>>))
Printed == todo = Order => PrintT(<<"DOC", ToJson([missing |-> SetToSeq(missing), keys |-> keys, hanging |-> SetToSeq(hanging), bad |-> SetToSeq(bad)])>>)
=============================================================================
