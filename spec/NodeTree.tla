------------------------------ MODULE NodeTree ------------------------------
(***************************************************************************)
(* The manuscript tree as a data structure: the edits that the classes of  *)
(* rsm/nodes.py offer, what each of them does or refuses, and the answers  *)
(* that the queries must give.                                             *)
(*                                                                         *)
(* The state is a forest over the nodes 1..N: `par` gives the parent of a  *)
(* node (0: none) and `kids` its children in order.  Class[n] never changes.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES Class,                   (* the classes of the nodes: never changes *)
          par, kids
forest == <<Class, par, kids>>

Nodes == 1..Len(Class)
Leaf  == {"Text", "Error", "Reference", "Cite", "Appendix", "Author", "Bibitem", "PendingReference", "URL"}

(* The classes that constrain their parents.                               *)
Parents(c) ==
  CASE c = "Item"    -> {"Itemize", "Enumerate", "Contents"}
    [] c = "Step"    -> {"Proof", "Subproof", "Step"}
    [] c = "Caption" -> {"Figure", "Table"}
    [] OTHER         -> {}
Admissible(c, p) == Parents(c) = {} \/ p \in Parents(c)

(* The bases of a class, itself included.                                  *)
Theorems == {"Theorem", "Lemma", "Corollary", "Example", "Exercise", "Proposition", "Problem", "Porism",
             "Remark", "Definition"}
IsA(c) ==
  {c, "Node"}
  \cup (IF c \in Leaf THEN {} ELSE {"NodeWithChildren"})
  \cup (IF c = "Error" THEN {"Text"} ELSE {})
  \cup (IF c \in Theorems THEN {"Theorem", "Heading"} ELSE {})
  \cup (IF c \in {"Section", "Subsection", "Subsubsection"} THEN {"Section", "Heading"} ELSE {})
  \cup (IF c \in {"Paragraph", "Step", "Caption"} THEN {"Paragraph", "BaseParagraph", "Heading"} ELSE {})
  \cup (IF c \in {"Item", "Note"} THEN {"BaseParagraph", "Heading"} ELSE {})
  \cup (IF c = "Manuscript" THEN {"Heading"} ELSE {})
  \cup (IF c = "Contents" THEN {"Itemize"} ELSE {})
  \cup (IF c \in {"Reference", "PendingReference", "URL"} THEN {"BaseReference"} ELSE {})

------------------------------------------------------------------------------
(* The structure.                                                          *)
RECURSIVE Up(_, _, _)
Up(P, n, fuel) == IF n = 0 \/ fuel = 0 THEN <<>> ELSE <<n>> \o Up(P, P[n], fuel - 1)
SelfAndAncestors(P, n) == LET u == Up(P, n, Len(Class) + 1) IN {u[i] : i \in 1..Len(u)}

RECURSIVE Below(_, _, _)
Below(K, n, fuel) ==
  IF fuel = 0 THEN <<n>>
  ELSE LET RECURSIVE Cat(_)
           Cat(s) == IF s = <<>> THEN <<>> ELSE Below(K, Head(s), fuel - 1) \o Cat(Tail(s))
       IN <<n>> \o Cat(K[n])
Preorder(K, n) == Below(K, n, Len(Class))

Without(s, c) == SelectSeq(s, LAMBDA x : x # c)
Index(s, c)   == CHOOSE i \in 1..Len(s) : s[i] = c
Splice(s, c, reps) == LET i == Index(s, c) IN SubSeq(s, 1, i - 1) \o reps \o SubSeq(s, i + 1, Len(s))

IsForest(P, K) ==
  /\ \A n \in Nodes : \A i \in 1..Len(K[n]) : P[K[n][i]] = n
  /\ \A n \in Nodes : \A i, j \in 1..Len(K[n]) : K[n][i] = K[n][j] => i = j
  /\ \A n \in Nodes : P[n] # 0 => \E i \in 1..Len(K[P[n]]) : K[P[n]][i] = n
  /\ \A n \in Nodes : P[n] # 0 => n \notin SelfAndAncestors(P, P[n])
  /\ \A n \in Nodes : P[n] # 0 => Admissible(Class[n], Class[P[n]]) /\ Class[P[n]] \notin Leaf

------------------------------------------------------------------------------
(* The edits.  An edit is a record [op, n, m, ms]; its outcome on a forest *)
(* f = [par, kids] is [ok, par, kids].                                     *)
F(P, K) == [ok |-> TRUE, par |-> P, kids |-> K]
No(f)   == [f EXCEPT !.ok = FALSE]

Attach(f, p, c, front) ==
  IF f.par[c] # 0 \/ ~Admissible(Class[c], Class[p]) \/ c \in SelfAndAncestors(f.par, p) THEN No(f)
  ELSE F([f.par EXCEPT ![c] = p], [f.kids EXCEPT ![p] = IF front THEN <<c>> \o @ ELSE Append(@, c)])

Detach(f, c) == F([f.par EXCEPT ![c] = 0], [f.kids EXCEPT ![f.par[c]] = Without(@, c)])

DoAppend(f, p, c) == Attach(f, p, c, FALSE)
DoPrepend(f, p, c) == IF f.par[c] = p THEN Attach(Detach(f, c), p, c, TRUE) ELSE Attach(f, p, c, TRUE)

(* Lists are added one by one and in order; the first one that is refused  *)
(* ends the edit.                                                          *)
RECURSIVE DoAppendAll(_, _, _)
DoAppendAll(f, p, cs) ==
  IF cs = <<>> THEN F(f.par, f.kids)
  ELSE LET g == DoAppend(f, p, Head(cs)) IN IF ~g.ok THEN g ELSE DoAppendAll(g, p, Tail(cs))
RECURSIVE DoPrependAll(_, _, _)
DoPrependAll(f, p, cs) ==
  IF cs = <<>> THEN F(f.par, f.kids)
  ELSE LET g == DoPrepend(f, p, cs[Len(cs)])
       IN IF ~g.ok THEN g ELSE DoPrependAll(g, p, SubSeq(cs, 1, Len(cs) - 1))

DoRemove(f, p, c) == IF f.par[c] # p \/ p = 0 THEN No(f) ELSE Detach(f, c)
DoRemoveSelf(f, c) == IF f.par[c] = 0 THEN F(f.par, f.kids) ELSE Detach(f, c)
DoClear(f, p) == F([n \in Nodes |-> IF f.par[n] = p THEN 0 ELSE f.par[n]], [f.kids EXCEPT ![p] = <<>>])

DoReplace(f, c, reps) ==
  LET p == f.par[c]
      R == {reps[i] : i \in 1..Len(reps)}
  IN IF \/ p = 0
        \/ Cardinality(R) < Len(reps)
        \/ \E r \in R : r # c /\ f.par[r] # 0
        \/ \E r \in R : ~Admissible(Class[r], Class[p])
        \/ \E r \in R : r # c /\ r \in SelfAndAncestors(f.par, p)
     THEN No(f)
     ELSE F([n \in Nodes |-> IF n \in R THEN p ELSE IF n = c THEN 0 ELSE f.par[n]],
            [f.kids EXCEPT ![p] = Splice(@, c, reps)])

Do(f, e) ==
  CASE e.op = "append"     -> DoAppend(f, e.n, e.ms[1])
    [] e.op = "appendall"  -> DoAppendAll(f, e.n, e.ms)
    [] e.op = "prepend"    -> DoPrepend(f, e.n, e.ms[1])
    [] e.op = "prependall" -> DoPrependAll(f, e.n, e.ms)
    [] e.op = "remove"     -> DoRemove(f, e.n, e.ms[1])
    [] e.op = "removeself" -> DoRemoveSelf(f, e.n)
    [] e.op = "clear"      -> DoClear(f, e.n)
    [] e.op = "replace"    -> DoReplace(f, e.n, e.ms)
    [] e.op = "replaceall" -> DoReplace(f, e.n, e.ms)

Inner == {n \in Nodes : Class[n] \notin Leaf}
Lists == {<<>>} \cup {<<a>> : a \in Nodes} \cup {<<a, b>> : a, b \in Nodes}
Edits ==
       [op : {"append", "prepend", "remove"}, n : Inner, ms : {<<a>> : a \in Nodes}]
  \cup [op : {"appendall", "prependall"}, n : Inner, ms : Lists]
  \cup [op : {"clear"}, n : Inner, ms : {<<>>}]
  \cup [op : {"removeself"}, n : Nodes, ms : {<<>>}]
  \cup [op : {"replace"}, n : Nodes, ms : {<<a>> : a \in Nodes}]
  \cup [op : {"replaceall"}, n : Nodes, ms : Lists]

------------------------------------------------------------------------------
(* The queries.                                                            *)
OfType(n, c)   == c \in IsA(Class[n])
OneOf(n, C)    == \E i \in 1..Len(C) : OfType(n, C[i])
Traverse(K, n, c) == SelectSeq(Preorder(K, n), LAMBDA x : c = "" \/ OfType(x, c))
FirstOfType(K, n, C) ==
  LET s == SelectSeq(K[n], LAMBDA x : OneOf(x, C)) IN IF s = <<>> THEN 0 ELSE s[1]
LastOfType(K, n, C) ==
  LET s == SelectSeq(K[n], LAMBDA x : OneOf(x, C)) IN IF s = <<>> THEN 0 ELSE s[Len(s)]
Place(K, n, m) == IF m = 0 THEN 0 ELSE Index(K[n], m)
PrevSibling(P, K, n, c) ==          (* c = "": whatever it is              *)
  IF P[n] = 0 THEN 0
  ELSE LET s == SubSeq(K[P[n]], 1, Index(K[P[n]], n) - 1)
           t == SelectSeq(s, LAMBDA x : c = "" \/ OfType(x, c))
       IN IF t = <<>> THEN 0 ELSE t[Len(t)]
NextSibling(P, K, n, c) ==
  IF P[n] = 0 THEN 0
  ELSE LET s == SubSeq(K[P[n]], Index(K[P[n]], n) + 1, Len(K[P[n]]))
           t == SelectSeq(s, LAMBDA x : c = "" \/ OfType(x, c))
       IN IF t = <<>> THEN 0 ELSE t[1]
(* Ancestors are looked up by their exact class.                           *)
RECURSIVE FirstAncestor(_, _, _)
FirstAncestor(P, n, C) ==
  IF P[n] = 0 THEN 0
  ELSE IF \E i \in 1..Len(C) : Class[P[n]] = C[i] THEN P[n] ELSE FirstAncestor(P, P[n], C)
ById(K, n, i) == LET s == SelectSeq(Preorder(K, n), LAMBDA x : x = i) IN IF s = <<>> THEN 0 ELSE s[1]

------------------------------------------------------------------------------
(* Every sequence of edits.                                                *)
Init(classes) ==
  /\ Class = classes
  /\ par = [n \in Nodes |-> 0] /\ kids = [n \in Nodes |-> <<>>]

Edit(e) == LET f == Do(F(par, kids), e) IN par' = f.par /\ kids' = f.kids /\ UNCHANGED Class

Next == \E e \in Edits : Edit(e)

ForestInv == IsForest(par, kids)
(* a query never names a node twice, and a traversal from the roots visits everything once *)
TraverseInv ==
  \A n \in Nodes : LET s == Preorder(kids, n)
                   IN /\ \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
                      /\ {s[i] : i \in 1..Len(s)} = {m \in Nodes : n \in SelfAndAncestors(par, m)}
                      /\ \A i \in 2..Len(s) : \E j \in 1..(i - 1) : s[j] = par[s[i]]
QueryInv ==
  \A n \in Nodes :
    /\ PrevSibling(par, kids, n, "") # 0 => NextSibling(par, kids, PrevSibling(par, kids, n, ""), "") = n
    /\ NextSibling(par, kids, n, "") # 0 => PrevSibling(par, kids, NextSibling(par, kids, n, ""), "") = n
    /\ \A c \in {Class[m] : m \in Nodes} :
         LET a == FirstAncestor(par, n, <<c>>)
         IN a # 0 => n \in {x \in Nodes : a \in SelfAndAncestors(par, x)} /\ Class[a] = c
(* An edit that is refused leaves the forest as it is, unless it adds a list. *)
RefusedInv ==
  \A e \in Edits : LET f == Do(F(par, kids), e)
                   IN ~f.ok /\ (e.op \notin {"appendall", "prependall"} \/ Len(e.ms) < 2)
                        => f.par = par /\ f.kids = kids
(* What the documentation promises of an accepted edit. *)
PromiseInv ==
  \A e \in Edits :
    LET f == Do(F(par, kids), e)
        tail(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))
    IN f.ok =>
         /\ e.op \in {"append", "appendall"} => f.kids[e.n] = kids[e.n] \o e.ms
         /\ e.op \in {"prepend", "prependall"} /\ Cardinality({e.ms[i] : i \in 1..Len(e.ms)}) = Len(e.ms) =>
              f.kids[e.n] = e.ms \o SelectSeq(kids[e.n], LAMBDA x : \A i \in 1..Len(e.ms) : e.ms[i] # x)
         /\ e.op \in {"remove"} => f.kids[e.n] = Without(kids[e.n], e.ms[1]) /\ f.par[e.ms[1]] = 0
         /\ e.op = "clear" => f.kids[e.n] = <<>>
         /\ e.op = "removeself" => f.par[e.n] = 0
         /\ e.op \in {"replace", "replaceall"} =>
              (\A i \in 1..Len(e.ms) : f.par[e.ms[i]] = par[e.n]) /\ Len(f.kids[par[e.n]]) = Len(kids[par[e.n]]) - 1 + Len(e.ms)
=============================================================================
