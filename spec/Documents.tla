----------------------------- MODULE Documents -----------------------------
(***************************************************************************)
(* All small documents of a family, and what must be true of each of them  *)
(* once it is processed.                                                   *)
(*                                                                         *)
(* A document is built node by node in document order (a new node goes     *)
(* below some node of the rightmost branch), so every ordered tree over    *)
(* the alphabet with at most MaxNodes nodes is reached exactly once.  At   *)
(* any moment the author may stop; then the passes of Transform run.       *)
(* The documents are printed as DOC lines, and are replayed into the real  *)
(* program (see TransformTrace).                                           *)
(***************************************************************************)
EXTENDS Transform, Pages, Json

CONSTANTS Family, MaxNodes

VARIABLE A0                        (* the document before processing       *)
vars == <<tvars, A0>>

------------------------------------------------------------------------------
(* Which children a node of a class may have, per family.                  *)
MayHave(c) ==
  CASE Family = "labels" ->
         (CASE c = "Manuscript" -> {"Paragraph", "Section"}
            [] c = "Section"    -> {"Paragraph"}
            [] c = "Paragraph"  -> {"Span", "PendingReference"}
            [] OTHER -> {})
    [] Family = "cites" ->
         (CASE c = "Manuscript" -> {"Paragraph", "Bibliography"}
            [] c = "Paragraph"  -> {"PendingCite"}
            [] c = "Bibliography" -> {"Bibitem"}
            [] OTHER -> {})
    [] Family = "prevs" ->
         (CASE c = "Manuscript" -> {"Proof", "Paragraph"}
            [] c = "Proof"      -> {"Step", "MathBlock"}
            [] c = "Step"       -> {"Paragraph", "Step"}
            [] c = "Paragraph"  -> {"PendingPrev"}
            [] OTHER -> {})
    [] Family = "numbers" ->
         (CASE c = "Manuscript" -> {"Section", "Theorem", "Table"}
            [] c = "Section"    -> {"Subsection", "Theorem", "Lemma", "Table", "MathBlock"}
            [] c = "Subsection" -> {"Subsubsection", "Theorem"}
            [] c = "Lemma"      -> {"Figure"}
            [] OTHER -> {})
    [] Family = "appendix" ->
         (CASE c = "Manuscript" -> {"Section", "Appendix", "Table"}
            [] c = "Section"    -> {"Subsection", "Theorem", "Table"}
            [] OTHER -> {})
    [] Family = "tocs" ->
         (CASE c = "Manuscript" -> {"Section", "Contents", "Subsection"}
            [] c = "Section"    -> {"Subsection", "Subsubsection", "Contents"}
            [] c = "Subsection" -> {"Subsubsection"}
            [] OTHER -> {})
    [] Family = "steps" ->
         (CASE c = "Manuscript" -> {"Proof"}
            [] c = "Proof"      -> {"Step", "Paragraph"}
            [] c = "Step"       -> {"Paragraph", "Step", "Subproof", "Text"}
            [] c = "Subproof"   -> {"Step", "Paragraph"}
            [] OTHER -> {})
    [] Family = "handrails" ->
         (CASE c = "Manuscript" -> {"Theorem", "Lemma", "Proof", "Sketch", "Itemize"}
            [] c \in {"Theorem", "Lemma"} -> {"Paragraph", "Proof", "Remark"}
            [] c = "Proof"      -> {"Step"}
            [] c = "Step"       -> {"Paragraph", "Step"}
            [] c = "Sketch"     -> {"Paragraph"}
            [] c = "Itemize"    -> {"Item"}
            [] c = "Paragraph"  -> {"Span"}
            [] OTHER -> {})
    [] Family = "paragraphs" ->
         (CASE c = "Manuscript" -> {"Paragraph"}
            [] c = "Paragraph"  -> {"Text", "MathBlock", "ClaimBlock", "Math", "Span"}
            [] c = "ClaimBlock" -> {"MathBlock", "Text"}
            [] OTHER -> {})
    [] Family = "pages" ->
         (CASE c = "Manuscript" -> {"Paragraph", "Theorem", "Proof", "Section", "Contents", "Figure", "Itemize", "MathBlock"}
            [] c = "Section"    -> {"Paragraph", "Subsection", "Table", "Proof"}
            [] c = "Subsection" -> {"Sketch", "Paragraph"}
            [] c = "Theorem"    -> {"Paragraph", "MathBlock", "Proof", "Remark"}
            [] c = "Proof"      -> {"Step", "Paragraph"}
            [] c = "Step"       -> {"Paragraph", "Step", "MathBlock"}
            [] c = "Itemize"    -> {"Item"}
            [] c \in {"Figure", "Table"} -> {"Caption"}
            [] c = "Item"       -> {"Text", "Math"}
            [] c = "Sketch"     -> {"Paragraph"}
            [] c = "Paragraph"  -> {"Text", "Note"}
            [] OTHER -> {})
    [] OTHER -> {}

(* The variants of a class: its attributes.                                *)
Label(v) == [NewNode("x") EXCEPT !.label = v]
Variants(c) ==
  LET n == NewNode(c)
      N == {[n EXCEPT !.nonum = b] : b \in BOOLEAN}
  IN CASE Family = "labels" /\ c \in {"Section", "Span"} -> {[n EXCEPT !.label = l] : l \in {"", "la", "lb"}}
       [] Family = "labels" /\ c = "PendingReference" ->
              {[n EXCEPT !.tgt = l, !.ow = o] : l \in {"la", "lb"}, o \in {"", "see"}}
       [] Family = "cites" /\ c = "Paragraph" -> {[n EXCEPT !.label = l] : l \in {"", "kb"}}
       [] Family = "cites" /\ c = "PendingCite" ->
              {[n EXCEPT !.tls = l] : l \in {<<"ka">>, <<"kb">>, <<"kb", "ka">>, <<"ka", "ka">>}}
       [] Family = "cites" /\ c = "Bibitem" -> {[n EXCEPT !.label = l] : l \in {"ka", "kb"}}
       [] Family = "prevs" /\ c = "PendingPrev" ->
              {[n EXCEPT !.pk = l, !.ow = IF l = 2 THEN "two back" ELSE ""] : l \in 1..2}
       [] Family = "prevs" /\ c = "Step" -> {[n EXCEPT !.label = l] : l \in {"", "st" }}
       [] Family = "numbers" /\ c \in {"Section", "Theorem", "MathBlock"} -> N
       [] Family = "appendix" /\ c = "Section" -> N
       [] Family = "tocs" /\ c \in SectionLike -> {[m EXCEPT !.title = "T"] : m \in IF c = "Section" THEN N ELSE {n}}
       [] Family = "paragraphs" /\ c = "Text" -> {[n EXCEPT !.text = t] : t \in {"w ", ". v"}}
       [] Family = "paragraphs" /\ c = "MathBlock" -> N
       [] Family = "pages" /\ c = "Text" -> {[n EXCEPT !.text = "w"]}
       [] Family = "pages" /\ c \in {"Theorem", "Step", "Section", "Paragraph"} ->
              {[m EXCEPT !.title = IF c \in {"Section", "Theorem"} THEN "T" ELSE ""] :
                 m \in {[n EXCEPT !.label = "l" \o ToString(q)] : q \in {Len(A)}} \cup {[n EXCEPT !.nonum = TRUE]}}
       [] OTHER -> {n}

RightBranch(a) == <<Len(a)>> \o Ancestors(a, Len(a))

AddNode ==
  /\ pc = "build" /\ Len(A) < MaxNodes
  /\ \E j \in 1..Len(RightBranch(A)) :
       LET q == RightBranch(A)[j]
       IN \E c \in MayHave(A[q].c) : \E v \in Variants(c) :
            A' = [Append(A, [v EXCEPT !.p = q]) EXCEPT ![q].k = Append(@, Len(A) + 1)]
  /\ UNCHANGED <<lab, warn, exc, pc, A0>>

Finish ==
  /\ pc = "build"
  /\ pc' = "labels" /\ A0' = A
  /\ PrintT(<<"DOC", ToJson([i \in 1..Len(A) |->
       <<A[i].c, A[i].p, A[i].label, A[i].nonum, A[i].title, A[i].tgt, A[i].ow, A[i].tls, A[i].pk, A[i].text>>])>>)
  /\ UNCHANGED <<A, lab, warn, exc>>

Init == TransformInit(<<NewNode("Manuscript")>>) /\ A0 = <<>>
InitBuild == /\ A = <<NewNode("Manuscript")>> /\ lab = << >> /\ warn = <<>> /\ exc = "" /\ pc = "build"
             /\ A0 = <<>>

Next == AddNode \/ Finish \/ (TransformNext /\ UNCHANGED A0)

Spec == InitBuild /\ [][Next]_vars

------------------------------------------------------------------------------
(* What must be true of every processed document.  These are stated        *)
(* without reference to how the passes compute it.                         *)
Ord == Order(A)
O0  == Order(A0)
IsDone == pc = "done"
Before(i, j) == \E x, y \in 1..Len(Ord) : Ord[x] = i /\ Ord[y] = j /\ x < y
InTree(i) == \E x \in 1..Len(Ord) : Ord[x] = i

TreeOk ==
  pc # "build" =>
  /\ \A i \in 1..Len(A) : \A j \in 1..Len(A[i].k) : A[A[i].k[j]].p = i
  /\ Cardinality({Ord[x] : x \in 1..Len(Ord)}) = Len(Ord)

LabelsUnique ==                                                     (* C03 *)
  IsDone =>
  /\ \A x, y \in 1..Len(Ord) : x < y /\ A[Ord[x]].label # "" => A[Ord[x]].label # A[Ord[y]].label
  /\ \A i \in 1..Len(A0) : A0[i].label # "" =>       (* a label never vanishes altogether *)
        \E j \in 1..Len(A0) : A[j].label = A0[i].label /\ (j = i \/ A[i].label = "")
  /\ \A i, j \in 1..Len(A0) : i < j /\ A0[i].label # "" /\ A0[i].label = A0[j].label => A[j].label = ""
RefsResolved ==                                                     (* C03 *)
  IsDone => \A x \in 1..Len(Ord) :
    /\ A[Ord[x]].c \notin PendingLike
    /\ A[Ord[x]].c = "Reference" =>
         /\ InTree(A[Ord[x]].tn)
         /\ (Ord[x] <= Len(A0) /\ A0[Ord[x]].c = "PendingReference") =>
               A[A[Ord[x]].tn].label = A0[Ord[x]].tgt /\ A[Ord[x]].ow = A0[Ord[x]].ow
    /\ A[Ord[x]].c = "Error" => \A i \in 1..Len(A0) : A0[i].label # A0[Ord[x]].tgt

CitesAgree ==                                                       (* C04 *)
  IsDone =>
  /\ \A x \in 1..Len(Ord) : A[Ord[x]].c = "Cite" =>
        /\ Len(A[Ord[x]].tns) = Len(A0[Ord[x]].tls)
        /\ \A m \in 1..Len(A[Ord[x]].tns) :
             LET t == A[Ord[x]].tns[m]
             IN /\ t # 0 => A[t].c = "Bibitem" /\ A[t].label = A0[Ord[x]].tls[m]
                /\ t = 0 => \A b \in 1..Len(A) : A[b].c = "Bibitem" => A[b].label # A0[Ord[x]].tls[m]
  /\ \A b \in 1..Len(A0) : A[b].c = "Bibitem" =>
        A[b].back = FoldLeft(LAMBDA acc, i : IF A[i].c # "Cite" THEN acc
                       ELSE acc \o [z \in 1..Cardinality({m \in 1..Len(A[i].tns) : A[i].tns[m] = b}) |-> A[i].label],
                       <<>>, Ord)

PrevRight ==                                                        (* C05 *)
  IsDone => \A i \in 1..Len(A0) : A0[i].c = "PendingPrev" =>
    LET s  == NearestAnc(A0, i, {"Step"})
        sb == SelectSeq(A0[A0[s].p].k, LAMBDA x : A0[x].c = "Step")
        at == CHOOSE j \in 1..Len(sb) : sb[j] = s
    IN at > A0[i].pk /\ A[i].tn = sb[at - A0[i].pk] /\ A[i].ow = A0[i].ow
PrevRefused ==
  pc = "failed" => \E i \in 1..Len(A0) : A0[i].c = "PendingPrev" /\
    LET s  == NearestAnc(A0, i, {"Step"})
    IN s = 0 \/ Cardinality({x \in 1..Len(A0) : A0[x].c = "Step" /\ A0[x].p = A0[s].p /\ x < s}) < A0[i].pk

(* the number of i is one more than that of the numbered elements of the   *)
(* same sequence before it in the innermost started scope                  *)
ScopeStart(i) ==
  LET w  == NumberWithin(A[i].c)
      ss == {j \in 1..(i - 1) : A[j].c \in w /\ A[j].c \in AutoNumbered /\ ~A[j].nonum}
      ap == {j \in 1..(i - 1) : A[i].c = "Section" /\ A[j].c = "Appendix"}
  IN IF ss \cup ap = {} THEN 0 ELSE CHOOSE j \in ss \cup ap : \A m \in ss \cup ap : m <= j
NumbersConsecutive ==                                         (* C06, C07 *)
  IsDone => \A i \in 1..Len(A0) :
    LET n == 1 + Cardinality({j \in (ScopeStart(i) + 1)..(i - 1) :
                   /\ A[j].c \in AutoNumbered /\ ~A[j].nonum
                   /\ NumberAs(A[j].c) = NumberAs(A[i].c)})
        app == A[i].c = "Section" /\ \E j \in 1..(i - 1) : A[j].c = "Appendix"
    IN /\ (A[i].c \in AutoNumbered \ {"Step"} /\ ~A[i].nonum) =>
             A[i].num = IF app THEN Letter(n) ELSE ToString(n)
       /\ (A[i].c \notin AutoNumbered \/ A[i].nonum) => A[i].num = ""
RECURSIVE WellScoped(_)
WellScoped(i) ==
  \/ NumberWithin(A[i].c) = {"Manuscript"}
  \/ LET a == NearestAnc(A, i, NumberWithin(A[i].c)) IN a # 0 /\ ~A[a].nonum /\ WellScoped(a)
NumbersDistinct ==        (* no two elements of one kind show the same number *)
  IsDone => \A i, j \in 1..Len(A0) :
    (i < j /\ A[i].c \in AutoNumbered \ {"Step"} /\ ~A[i].nonum /\ ~A[j].nonum
       /\ NumberAs(A[i].c) = NumberAs(A[j].c) /\ WellScoped(i) /\ WellScoped(j)
       /\ Cardinality({m \in 1..Len(A0) : A[m].c = "Appendix"}) <= 1)
    => Full(A, i) # Full(A, j)

TocMirrors ==                                                       (* C08 *)
  IsDone =>
  LET tocs == SelectSeq(Ord, LAMBDA i : A[i].c = "Contents")
      secs == SelectSeq(Ord, LAMBDA i : A[i].c \in SectionLike)
      t    == tocs[1]
      ents == SelectSeq(PreFrom(A, t), LAMBDA i : A[i].c = "Reference")
      Depth(i) == Len(SelectSeq(Ancestors(A, i), LAMBDA x : A[x].c \in SectionLike))
      EDepth(i) == Len(SelectSeq(Ancestors(A, i), LAMBDA x : A[x].c = "Item")) - 1
  IN /\ Len(tocs) = IF \E i \in 1..Len(A0) : A0[i].c = "Contents" THEN 1 ELSE 0
     /\ Len(tocs) = 1 =>
          /\ [j \in 1..Len(ents) |-> A[ents[j]].tn] = secs
          /\ \A j \in 1..Len(ents) : EDepth(ents[j]) = Depth(secs[j])

RECURSIVE Leaves(_, _)     (* the original nodes below i, in order         *)
Leaves(a, i) == SelectSeq(PreFrom(a, i), LAMBDA x : x <= Len(A0))
StepsSplit ==                                                       (* C09 *)
  IsDone => \A i \in 1..Len(A0) : A0[i].c = "Step" =>
    /\ A0[i].k = <<>> => A[i].k = <<>>
    /\ A0[i].k # <<>> =>
         /\ Len(A[i].k) \in {1, 2} /\ A[A[i].k[1]].c = "Statement"
         /\ Len(A[i].k) = 2 => A[A[i].k[2]].c = "Subproof"
         /\ \A x \in 1..Len(A[A[i].k[1]].k) : A[A[A[i].k[1]].k[x]].c \notin {"Step", "Subproof"}
    /\ Leaves(A, i) = Leaves(A0, i)

DepthRight ==                                                       (* C10 *)
  IsDone => \A x \in 1..Len(Ord) :
    A[Ord[x]].hd = Len(SelectSeq(Ancestors(A, Ord[x]), LAMBDA y : A[y].c \in HasHandrail))
                    + (IF A[Ord[x]].c = "Statement" THEN 1 ELSE 0)

IdsRight == IsDone => \A x \in 1..Len(Ord) : A[Ord[x]].nid = x - 1    (* C11 *)

PageFamily == Family \in {"paragraphs", "pages", "steps", "tocs", "labels", "handrails", "cites"}
PagesRight ==                    (* C11, C12, C13, C14, C16, C27, C28: of the pages to be *)
  (IsDone /\ PageFamily) =>
  LET f == [i \in 1..Len(A) |-> A[i] @@ [au |-> [name |-> "", affiliation |-> "", email |-> ""], kw |-> <<>>, msc |-> <<>>,
              path |-> "", scale |-> "1.0",
              bib |-> [author |-> "", title |-> "", year |-> "", journal |-> "", volume |-> "", publisher |-> "", doi |-> ""]]]
      p == Page(f, FALSE)
      h == Page(f, TRUE)
      On(g) == /\ WellNested(g) = "" /\ ~InP(g)
               /\ LET nn == PageIds(g) IN \A j \in 1..Len(nn) - 1 : Atoi(nn[j]) < Atoi(nn[j + 1])
               /\ Dups(Ids(g)) \subseteq {"mm-", "gradient-mask"}
               /\ \A j \in 1..Len(Hrefs(g)) :
                    LET x == Hrefs(g)[j] IN Len(x) > 1 => \E m \in 1..Len(Ids(g)) : "#" \o Ids(g)[m] = x
               /\ Seen(g) # "" \/ \A i \in 1..Len(A) : A[i].text = ""
  IN /\ On(p) /\ On(h)
     /\ Nesting(Out(p, IsControl)) = Nesting(Out(h, IsControl))
     /\ Squeeze(Seen(p)) = Squeeze(Seen(h))
     /\ ZonesOnce(h)
     /\ Minimaps(p) = <<>> /\ ((\A i \in 1..Len(A) : A[i].c # "Contents") => Minimaps(h) = <<>>)

NothingLost ==                                                      (* C13 *)
  IsDone => \A i \in 1..Len(A0) : InTree(i) \/ A0[i].c = "Contents"
=============================================================================
