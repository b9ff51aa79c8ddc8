------------------------------- MODULE Tree -------------------------------
(***************************************************************************)
(* Manuscript trees.                                                       *)
(*                                                                         *)
(* An arena A is a sequence of node records; node 1 is the manuscript,     *)
(* A[i].k lists the children of node i and A[i].p is its parent (0 for the *)
(* manuscript).  A node keeps its index for life, so references between    *)
(* nodes (A[i].tn, A[i].tns) are indices; nodes that were removed are just *)
(* no longer reachable from 1.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

------------------------------------------------------------------------------
(* The class table.                                                        *)
SectionLike  == {"Section", "Subsection", "Subsubsection"}
TheoremLike  == {"Theorem", "Lemma", "Corollary", "Example", "Exercise", "Proposition",
                 "Problem", "Porism", "Remark", "Definition"}
ConstructLike == {"Construct", "ClaimBlock"}
PendingLike  == {"PendingReference", "PendingCite", "PendingPrev"}
BibLike      == {"Bibitem", "UnknownBibitem"}
TextLike     == {"Text", "Error", "SourceCode"}
ListLike     == {"Itemize", "Enumerate", "Contents"}

AutoNumbered == SectionLike \cup TheoremLike \cup BibLike
                  \cup {"MathBlock", "Algorithm", "Figure", "Table", "Step"}
HasHandrail  == TheoremLike \cup {"Proof", "Sketch", "Step"}

(* the class(es) within whose elements the numbers of a class are scoped   *)
NumberWithin(c) ==
  CASE c = "Subsection"    -> {"Section"}
    [] c = "Subsubsection" -> {"Subsection"}
    [] c = "MathBlock"     -> {"Section"}
    [] c = "Figure"        -> {"Section"}
    [] c \in TheoremLike   -> {"Section"}
    [] c = "Step"          -> {"Proof", "Step"}
    [] OTHER               -> {"Manuscript"}

(* the sequence of numbers a class takes part in                           *)
NumberAs(c) == IF c \in TheoremLike THEN "Theorem" ELSE c

(* the reference text of a class, a template as <<before, after>> of the number *)
ClassRef(c) ==
  CASE c \in {"Subsection", "Subsubsection"} -> "Section {number}"
    [] c = "MathBlock"     -> "({number})"
    [] c = "CodeBlock"     -> "Code Listing {number}"
    [] c = "Step"          -> "Step ⟨{number}⟩"
    [] c \in BibLike       -> "{number}"
    [] OTHER               -> "{nodeclass} {number}"

------------------------------------------------------------------------------
(* Strings.                                                                *)
Ch(s, i) == SubSeq(s, i, i)

StartsWith(s, pre) == Len(pre) <= Len(s) /\ SubSeq(s, 1, Len(pre)) = pre

(* first position at which t occurs in s at or after i, or 0               *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, t, i) ==
  IF i + Len(t) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN i
  ELSE FindFrom(s, t, i + 1)

HasSub(s, t) == FindFrom(s, t, 1) # 0

RECURSIVE ReplAll(_, _, _)
ReplAll(s, t, by) ==
  LET j == FindFrom(s, t, 1)
  IN IF j = 0 THEN s
     ELSE SubSeq(s, 1, j - 1) \o by \o ReplAll(SubSeq(s, j + Len(t), Len(s)), t, by)

RECURSIVE StripL(_)
StripL(s) == IF s # "" /\ Ch(s, 1) = " " THEN StripL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF s # "" /\ Ch(s, Len(s)) = " " THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == StripL(StripR(s))

RECURSIVE JoinStr(_, _)
JoinStr(xs, sep) ==
  IF xs = <<>> THEN "" ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o sep \o JoinStr(Tail(xs), sep)

LowerTable == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", I |-> "i",
               K |-> "k", L |-> "l", M |-> "m", N |-> "n", P |-> "p", R |-> "r", S |-> "s",
               T |-> "t", U |-> "u", H |-> "h", O |-> "o", G |-> "g"]
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN ""
            ELSE (IF Ch(s, 1) \in DOMAIN LowerTable THEN LowerTable[Ch(s, 1)] ELSE Ch(s, 1))
                   \o Lower(SubSeq(s, 2, Len(s)))

Letters == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
(* 1 -> A, ..., 26 -> Z, 27 -> AA, ...                                     *)
RECURSIVE Letter(_)
Letter(n) == IF n <= 26 THEN Ch(Letters, n)
             ELSE Letter((n - 1) \div 26) \o Ch(Letters, ((n - 1) % 26) + 1)

------------------------------------------------------------------------------
(* Navigation.                                                             *)
RECURSIVE PreFrom(_, _)
PreFrom(A, i) == FoldLeft(LAMBDA acc, c : acc \o PreFrom(A, c), <<i>>, A[i].k)

Order(A) == PreFrom(A, 1)                  (* all nodes, in document order *)

RECURSIVE Ancestors(_, _)
Ancestors(A, i) == IF i = 0 \/ A[i].p = 0 THEN <<>> ELSE <<A[i].p>> \o Ancestors(A, A[i].p)

(* nearest proper ancestor whose class is in cs, or 0                      *)
RECURSIVE NearestAnc(_, _, _)
NearestAnc(A, i, cs) ==
  IF A[i].p = 0 THEN 0
  ELSE IF A[A[i].p].c \in cs THEN A[i].p ELSE NearestAnc(A, A[i].p, cs)

ChildIndex(A, i) == CHOOSE j \in 1..Len(A[A[i].p].k) : A[A[i].p].k[j] = i

PrevSib(A, i) == IF A[i].p = 0 \/ ChildIndex(A, i) = 1 THEN 0
                 ELSE A[A[i].p].k[ChildIndex(A, i) - 1]
NextSib(A, i) == IF A[i].p = 0 \/ ChildIndex(A, i) = Len(A[A[i].p].k) THEN 0
                 ELSE A[A[i].p].k[ChildIndex(A, i) + 1]

(* nearest earlier sibling of a class in cs, or 0                          *)
PrevSibOf(A, i, cs) ==
  IF A[i].p = 0 THEN 0
  ELSE LET ks == A[A[i].p].k
           js == {j \in 1..(ChildIndex(A, i) - 1) : A[ks[j]].c \in cs}
       IN IF js = {} THEN 0 ELSE ks[CHOOSE j \in js : \A m \in js : m <= j]

RemoveChild(A, i) ==                       (* unlink node i                *)
  [A EXCEPT ![A[i].p].k = SelectSeq(@, LAMBDA x : x # i), ![i].p = 0]

------------------------------------------------------------------------------
(* A fresh node.                                                           *)
NewNode(cls) ==
  [c |-> cls, k |-> <<>>, p |-> 0, label |-> "", types |-> <<>>, nonum |-> FALSE, num |-> "",
   rt |-> ClassRef(cls), hd |-> 0, nid |-> -1, icon |-> "", title |-> "", text |-> "", raw |-> "",
   asis |-> FALSE, lang |-> "", tgt |-> "", tn |-> 0, ow |-> "", tls |-> <<>>, tns |-> <<>>,
   kind |-> "", flags |-> <<>>, claim |-> FALSE, prev |-> FALSE, pk |-> 0, back |-> <<>>]

------------------------------------------------------------------------------
(* Numbers and reference texts as they are shown.                          *)
RECURSIVE Full(_, _)
Full(A, i) ==
  IF A[i].c = "Manuscript" THEN ""
  ELSE IF A[i].nonum THEN "None"
  ELSE LET a == NearestAnc(A, i, NumberWithin(A[i].c))
           f == IF a = 0 THEN "" ELSE Full(A, a)
       IN IF f # "" /\ f # "None" THEN f \o "." \o (IF A[i].num = "" THEN "None" ELSE A[i].num)
          ELSE A[i].num

RefText(A, i) ==
  Strip(ReplAll(ReplAll(A[i].rt, "{nodeclass}", A[i].c), "{number}", Full(A, i)))

=============================================================================
