-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Several documents processed in one process.                             *)
(*                                                                         *)
(* Family "stages": two documents go through the stages, in any order of   *)
(* the steps, each with stage objects of its own or with shared ones, and  *)
(* are translated several times.  Family "apps": a sequence of calls of    *)
(* the library, each with a new application object or once more with the   *)
(* one of an earlier call.                                                 *)
(*                                                                         *)
(* What a step yields is a function of the document and of what is asked   *)
(* for (Yields); what the objects remember of earlier documents (mem) must *)
(* not matter.                                                             *)
(*                                                                         *)
(*   kind  per job: what happens to its document                           *)
(*   at    per job: how far it is                                          *)
(*   mem   the labels that the transformer of each job has seen            *)
(*   kept  per job: the labels that its elements kept                      *)
(*   hist  the steps so far, as <<what, who, with>>                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Family, MaxLen

VARIABLES kind, at, mem, kept, shared, hist
vars == <<kind, at, mem, kept, shared, hist>>

Jobs == {1, 2}
Good == {"one", "two"}
Kinds == Good \cup {"hopeless", "refused", "noprev"}
(* the two good documents use some labels in common                        *)
LabelsOf(k) == CASE k = "one" -> {"a", "b"} [] k = "two" -> {"a", "c"} [] k = "noprev" -> {"a"} [] OTHER -> {}

(* what a step yields: the name of the result, or the way in which it fails*)
Yields(what, k) ==
  CASE k = "hopeless" -> "fails in the parser"
    [] k = "refused"  -> "fails in the parser"
    [] k = "noprev" /\ what # "parse" -> "fails in the transformer"
    [] OTHER -> what
Fails(what, k) == Yields(what, k) # what

Tr(j) == IF shared THEN 1 ELSE j       (* the transformer of a job *)

------------------------------------------------------------------------------
Init ==
  /\ IF Family = "stages" THEN kind \in [Jobs -> Kinds] /\ kind[2] \in Good /\ shared \in BOOLEAN
     ELSE kind = [j \in Jobs |-> "one"] /\ shared = FALSE
  /\ at = [j \in Jobs |-> "new"]
  /\ mem = [j \in Jobs |-> {}]
  /\ kept = [j \in Jobs |-> {}]
  /\ hist = <<>>

Did(what, j, with) == hist' = Append(hist, <<what, j, with>>)

Parse(j) ==
  /\ at[j] = "new"
  /\ at' = [at EXCEPT ![j] = IF Fails("parse", kind[j]) THEN "failed" ELSE "parsed"]
  /\ Did("parse", j, 0)
  /\ UNCHANGED <<kind, mem, kept, shared>>

Transform(j) ==
  /\ at[j] = "parsed"
  /\ LET before == {}                  (* it forgets what it has seen        *)
     IN /\ kept' = [kept EXCEPT ![j] = LabelsOf(kind[j]) \ before]
        /\ mem' = [mem EXCEPT ![Tr(j)] = before \cup LabelsOf(kind[j])]
  /\ at' = [at EXCEPT ![j] = IF Fails("transform", kind[j]) THEN "failed" ELSE "transformed"]
  /\ Did("transform", j, 0)
  /\ UNCHANGED <<kind, shared>>

Times(j) == Cardinality({i \in 1..Len(hist) : hist[i][2] = j /\ hist[i][1] \in {"plain", "handrails"}})

Translate(j, mode) ==
  /\ at[j] = "transformed" /\ Times(j) < MaxLen
  /\ Did(mode, j, 0)
  /\ UNCHANGED <<kind, at, mem, kept, shared>>

(* what an author can ask the library for                                  *)
Apis == {"plain", "handrails", "lint", "make"}
Call(api, k) ==
  /\ Len(hist) < MaxLen
  /\ hist' = Append(hist, <<api, k, 0>>)
  /\ UNCHANGED <<kind, at, mem, kept, shared>>
Again(i) ==                            (* the application object of call i  *)
  /\ Len(hist) < MaxLen
  /\ hist[i][3] = 0
  /\ hist' = Append(hist, <<hist[i][1], hist[i][2], i>>)
  /\ UNCHANGED <<kind, at, mem, kept, shared>>

Next ==
  IF Family = "stages"
  THEN \E j \in Jobs : Parse(j) \/ Transform(j) \/ \E m \in {"plain", "handrails"} : Translate(j, m)
  ELSE \/ \E a \in Apis, k \in Kinds : Call(a, k)
       \/ \E i \in 1..Len(hist) : Again(i)

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Nothing of one document shows in the other.                             *)
Independent == \A j \in Jobs : at[j] = "transformed" => kept[j] = LabelsOf(kind[j])

Ordered ==
  Family = "stages" =>
  \A i \in 1..Len(hist) : hist[i][1] \in {"plain", "handrails"} =>
     \E n, m \in 1..i : n < m /\ m < i /\ hist[n] = <<"parse", hist[i][2], 0>> /\ hist[m] = <<"transform", hist[i][2], 0>>

Complete ==
  IF Family = "stages" THEN \A j \in Jobs : at[j] = "failed" \/ (at[j] = "transformed" /\ Times(j) = MaxLen)
  ELSE Len(hist) = MaxLen

Printed == Complete => PrintT(<<"DOC", ToJson([kind |-> kind, shared |-> shared, hist |-> hist])>>)
=============================================================================
