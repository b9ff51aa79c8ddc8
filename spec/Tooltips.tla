------------------------------ MODULE Tooltips ------------------------------
(***************************************************************************)
(* The tooltips of a page: what the reader is shown of the element that a  *)
(* link leads to.  Elements as in Handrails; in addition href, and ink:    *)
(* the text of the element without white space and without what handrails  *)
(* add to it.                                                              *)
(***************************************************************************)
EXTENDS Handrails

NoLabel(P, a) == P[a].href = "#"
Leads(P, a) == {e \in All(P) : P[e].id # "" /\ P[a].href = "#" \o P[e].id}
Target(P, a) == Min(Leads(P, a))

Steplike(P, t) == P[t].tag = "div" /\ Is(P, t, "step")
Statement(P, t) == {x \in All(P) : Is(P, x, "statement") /\ t \in Above(P, x)}
RECURSIVE Inks(_, _)
Inks(P, S) == IF S = {} THEN "" ELSE P[Min(S)].ink \o Inks(P, S \ {Min(S)})
FirstTwo(S) == {x \in S : Cardinality({y \in S : y < x}) < 2}

(* of a part of a text the tooltip shows the text, of a section how it     *)
(* begins, of a step what it states, of anything else the whole            *)
Inline(P, t) == P[t].tag = "a" \/ (P[t].tag = "span" /\ ~Is(P, t, "math"))
Tip(P, a) ==
  IF NoLabel(P, a) THEN "targetnodehasnolabel"
  ELSE LET t == Target(P, a)
       IN IF Inline(P, t) THEN P[P[t].par].ink
          ELSE IF P[t].tag = "section" THEN Inks(P, FirstTwo(Kids(P, t)))
          ELSE IF Steplike(P, t) THEN P[Min(Statement(P, t))].ink
          ELSE P[t].ink
(* elements that were given the classes of others (which is not judged)    *)
Odd(P, t) ==
  \/ Steplike(P, t) /\ Statement(P, t) = {}
  \/ P[t].tag = "div" /\ Cardinality({c \in Range(P[t].cls) : c \in {"math", "algorithm", "step"}}) > 1
=============================================================================
