------------------------------- MODULE Linter -------------------------------
(***************************************************************************)
(* Linting a processed tree: one action per rule, each walks the tree in   *)
(* document order and reports the elements with a flaw.                    *)
(*                                                                         *)
(*   A    the tree, which is not changed                                   *)
(*   pc   the next rule                                                    *)
(*   rep  the reports so far, as <<rule, element>>                         *)
(***************************************************************************)
EXTENDS Tree

VARIABLES A, pc, rep
lvars == <<A, pc, rep>>

LintInit(a0) == A = a0 /\ pc = "title" /\ rep = <<>>

Flaw(rule, i) ==
  CASE rule = "title"   -> A[i].c = "Manuscript" /\ A[i].title = ""
    [] rule = "section" -> A[i].c \in SectionLike /\ A[i].label = ""
    [] rule = "math"    -> A[i].c = "MathBlock" /\ (A[i].p = 0 \/ A[A[i].p].c # "Paragraph")

Rule(rule, next) ==
  /\ pc = rule
  /\ rep' = rep \o FoldLeft(LAMBDA acc, i : IF Flaw(rule, i) THEN Append(acc, <<rule, i>>) ELSE acc, <<>>, Order(A))
  /\ pc' = next /\ UNCHANGED A

LintNext == Rule("title", "section") \/ Rule("section", "math") \/ Rule("math", "done")

------------------------------------------------------------------------------
Rules == {"title", "section", "math"}
Reports(rule) == SelectSeq(rep, LAMBDA r : r[1] = rule)
(* every flaw once, nothing else, in document order within its rule        *)
ReportsRight ==
  pc = "done" =>
  /\ \A rule \in Rules, i \in 1..Len(A) :
       Cardinality({j \in 1..Len(rep) : rep[j] = <<rule, i>>}) = (IF i \in Range(Order(A)) /\ Flaw(rule, i) THEN 1 ELSE 0)
  /\ \A i, j \in 1..Len(rep) : i < j /\ rep[i][1] = rep[j][1] =>
       (CHOOSE n \in 1..Len(A) : Order(A)[n] = rep[i][2]) < (CHOOSE n \in 1..Len(A) : Order(A)[n] = rep[j][2])
=============================================================================
