--------------------------- MODULE HandrailsRuns ---------------------------
(***************************************************************************)
(* Readers at work on pages that the real program has rendered (PAGES).    *)
(* Mode "collapse": every way to collapse and expand, menus open only to   *)
(* choose from them.  Mode "keys": every key, menus of at most one element *)
(* open.  Mode "any": everything (for random histories).                   *)
(***************************************************************************)
EXTENDS Handrails, TLC, Json, IOUtils

CONSTANTS Mode, MaxLen
Pages == ndJsonDeserialize(IOEnv.PAGES)
VARIABLES pi, s, was, hist
vars == <<pi, s, was, hist>>
P == Pages[pi].nodes

Rails == {e \in All(P) : P[e].hr}
(* what a reader does at a time: one or more actions                       *)
Presses == {<<<<"key", k>>>> : k \in Keys}
Deeds ==
  CASE Mode = "collapse" ->
         {<<<<"toggle", e>>>> : e \in {x \in Rails : P[x].coll}}
         \cup {<<<<"dots", e>>, <<"item", e, i>>, <<"leave", e>>>> :
                 e \in {x \in Rails : P[x].dots /\ Enabled(P, x, "collapse-subproof")}, i \in 1..2}
         \cup {<<<<"dots", e>>, <<"item", e, 1>>, <<"leave", e>>>> :
                 e \in {x \in Rails : P[x].dots /\ Entries(P, x, "collapse-subproof") = {} /\ Enabled(P, x, "collapse-steps")}}
         \cup {<<<<"click", e>>, <<"key", k>>>> : e \in {x \in Rails : P[x].foc /\ (P[x].coll \/ Entries(P, x, "collapse-steps") # {})}, k \in {",", ";"}}
    [] Mode = "keys" -> Presses
    [] Mode = "any" ->
         {<<<<"toggle", e>>>> : e \in {x \in Rails : P[x].coll}}
         \cup {<<<<"dots", e>>>> : e \in {x \in Rails : P[x].dots}}
         \cup {<<<<"leave", e>>>> : e \in s.menus}
         \cup UNION {{<<<<"item", e, i>>>> : i \in DOMAIN P[e].items} : e \in s.menus}
         \cup {<<<<"click", e>>>> : e \in Stops(P)}
         \cup {<<<<"dismiss", k>>>> : k \in 1..s.msgs}
         \cup (IF s.msgs > 1 THEN {<<<<"wait">>>>} ELSE {})
RECURSIVE Doing(_, _)
Doing(st, d) == IF d = <<>> THEN st ELSE Doing(Does(P, st, Head(d)), Tail(d))
(* (messages and tooltips do not matter to what else can be done)          *)
Done(st, d) == IF Mode = "any" THEN Doing(st, d) ELSE [Doing(st, d) EXCEPT !.msgs = 0, !.tips = {}]
RECURSIVE MayDo(_, _)
MayDo(st, d) == IF d = <<>> THEN TRUE ELSE Possible(P, st, Head(d)) /\ MayDo(Does(P, st, Head(d)), Tail(d))

Init == pi \in 1..Len(Pages) /\ s = First(P) /\ was = First(P) /\ hist = <<>>
Fits(st) == Mode = "keys" => Cardinality(st.menus) <= 1
Next ==
  /\ was' = s /\ UNCHANGED pi
  /\ IF Mode = "any"
     THEN /\ Len(hist) < MaxLen
          /\ \E d \in {RandomElement(IF k = 1 THEN Presses ELSE Presses \cup Deeds) : k \in {RandomElement(1..2)}} :
               \E e \in {IF MayDo(s, d) THEN d ELSE <<<<"key", "x">>>>} : s' = Done(s, e) /\ hist' = hist \o e
     ELSE /\ TLCGet("level") <= MaxLen
          /\ \E d \in Deeds : MayDo(s, d) /\ s' = Done(s, d) /\ Fits(s')
          /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
View == <<pi, s>>

------------------------------------------------------------------------------
(* the shown elements are those that no collapsed element hides, and what  *)
(* is collapsed can be expanded again                                      *)
Sound == s.coll \subseteq {e \in All(P) : Collapsible(P, e)}
(* every element is hidden by one other at most, so that expanding brings  *)
(* back exactly what collapsing took away                                  *)
OneOwner ==
  \A e, f \in {x \in All(P) : Collapsible(P, x)} : e # f => Hides(P, e) \cap Hides(P, f) = {}
NotItself == \A e \in {x \in All(P) : Collapsible(P, x)} : ({e} \cup Above(P, e)) \cap Hides(P, e) = {}
NothingLost == \A e \in {x \in All(P) : Collapsible(P, x)} : Hides(P, e) \cap AlwaysHidden(P) = {}
(* the focus is always on something that is shown, and not lost unless the *)
(* reader clicks on something else                                         *)
FocusShown == s.foc # 0 => Shown(P, HiddenBy(P, s.coll), s.foc)
FocusKept == was.foc # 0 => s.foc # 0 \/ s.msgs < was.msgs
(* up and down, next and previous undo each other                          *)
Undoes ==
  /\ s.foc \in Reach(P, s.coll) =>
       /\ Pressed(P, Pressed(P, s, "j"), "k") = s
       /\ Pressed(P, Pressed(P, s, "k"), "j") = s
  /\ s.foc \in Stops(P) =>
       LET d == Pressed(P, s, "h")
           u == Pressed(P, s, "l")
       IN /\ d # s /\ Is(P, d.foc, "heading") = Is(P, s.foc, "heading") => Pressed(P, d, "l") = s
          /\ u # s /\ Is(P, u.foc, "heading") = Is(P, s.foc, "heading") => Pressed(P, u, "h") = s
(* one can get everywhere with one key                                     *)
Around ==
  LET R == Reach(P, s.coll) IN s.foc \in R => Cardinality({Following(P, [s EXCEPT !.foc = x]) : x \in R}) = Cardinality(R)
(* marked entries are those of open menus                                  *)
Marks == \A e \in Rails : s.act[e] # 0 => e \in s.menus

AtEnd == Len(hist) >= MaxLen
PrintState ==
  PrintT(<<"DOC", pi, ToString(s),
           ToJson(SetToSeq({<<d, ToString(Done(s, d))>> : d \in {x \in Deeds : MayDo(s, x) /\ Fits(Done(s, x))}}))>>)
PrintLast == AtEnd => PrintT(<<"DOC", pi, ToJson(hist)>>)
=============================================================================
