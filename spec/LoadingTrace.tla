---------------------------- MODULE LoadingTrace ----------------------------
(***************************************************************************)
(* Pages that were loaded with something missing, against Loading.  A      *)
(* record has missing, hanging, bad (algorithms that cannot be drawn),     *)
(* algos (how many there are), keys, has (what the page has, of icons,     *)
(* handrails, focus, algorithms, minimap and tooltips), works (what turned *)
(* out to work), drawn (the algorithms that were drawn), load ("ok" if     *)
(* nothing was raised), errors, logged (how many failures were reported).  *)
(***************************************************************************)
EXTENDS Loading, TLC, Json, IOUtils

CONSTANT Props
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ri
R == Recs[ri]
Say(clause, ok, d) == IF "C33" \in Props /\ ~ok THEN PrintT(<<"FAIL", "C33", clause, R.id, ToString(d)>>) ELSE TRUE
Init == ri \in 1..Len(Recs)
Judge ==
  LET missing == Range(R.missing)
      hanging == Range(R.hanging)
      bad == Range(R.bad) \cap 1..R.algos
      all == Drawn(R.algos, bad)
      failing == Failing(R.keys, missing, hanging) \cup (IF bad # {} /\ "algorithms" \in Works(R.keys, missing, hanging) THEN {"an algorithm"} ELSE {})
  IN /\ Say("loading raises nothing", (R.load = "ok" \/ (hanging # {} /\ R.load = "loading never ends")) /\ R.errors = <<>>, <<R.load, R.errors>>)
     /\ \A p \in Range(R.has) \ {"algorithms"} :
          IF p \in Works(R.keys, missing, hanging) THEN Say("works: " \o p, p \in Range(R.works), <<R.missing, R.hanging, R.bad>>)
          ELSE IF p \notin CanWork(R.keys, missing, hanging) THEN Say("does not half work: " \o p, p \notin Range(R.works), <<R.missing, R.hanging>>)
          ELSE TRUE
     /\ IF "algorithms" \in Works(R.keys, missing, hanging) THEN Say("algorithms", Range(R.drawn) = all, <<R.missing, R.hanging, R.bad, R.drawn>>)
        ELSE IF "algorithms" \notin CanWork(R.keys, missing, hanging) THEN Say("no algorithms", R.drawn = <<>>, <<R.missing, R.hanging>>)
        ELSE Say("algorithms, if any", Range(R.drawn) \in {{}, all}, R.drawn)
     /\ Say("failures are reported", R.logged >= Cardinality(failing) /\ (missing = {} /\ bad = {} => R.logged = 0), <<R.missing, R.hanging, R.bad, R.logged>>)
Spec == Init /\ [][FALSE]_ri
Judged == Judge
=============================================================================
