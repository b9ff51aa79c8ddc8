---------------------------- MODULE Transform ----------------------------
(***************************************************************************)
(* The processing of a manuscript tree between the parser and the          *)
(* translator: one action per pass, in the order in which they run.        *)
(*                                                                         *)
(*   A     the tree (see Tree)                                             *)
(*   lab   the element that carries each label                             *)
(*   warn  the warnings reported so far, as <<kind, subject>>              *)
(*   exc   "" or the reason why processing was refused                     *)
(*   pc    the next pass                                                   *)
(***************************************************************************)
EXTENDS Tree

VARIABLES A, lab, warn, exc, pc
tvars == <<A, lab, warn, exc, pc>>

TransformInit(a0) ==
  /\ A = a0 /\ lab = << >> /\ warn = <<>> /\ exc = "" /\ pc = "labels"

------------------------------------------------------------------------------
(* 1. The first element with a label keeps it; the others lose it.         *)
CollectLabelsOp(a) ==
  FoldLeft(LAMBDA s, i :
     IF s.a[i].label = "" THEN s
     ELSE IF s.a[i].label \in DOMAIN s.m
          THEN [s EXCEPT !.a[i].label = "", !.w = Append(@, <<"duplicate", s.a[i].label>>)]
          ELSE [s EXCEPT !.m = @ @@ (s.a[i].label :> i)],
     [a |-> a, m |-> <<>>, w |-> <<>>], Order(a))

CollectLabels ==
  /\ pc = "labels"
  /\ LET s == CollectLabelsOp(A)
     IN A' = s.a /\ lab' = s.m /\ warn' = warn \o s.w
  /\ pc' = "refs" /\ UNCHANGED exc

------------------------------------------------------------------------------
(* 2. References, citations and previous-step references are resolved.     *)
UnknownText(l) == "[unknown label \"" \o l \o "\"]"

ResolveRef(s, i) ==
  LET n == s.a[i]
  IN IF n.tgt \in DOMAIN lab
     THEN [s EXCEPT !.a[i] = [NewNode("Reference") EXCEPT !.p = n.p, !.tn = lab[n.tgt], !.ow = n.ow]]
     ELSE [s EXCEPT !.a[i] = [NewNode("Error") EXCEPT !.p = n.p, !.text = UnknownText(n.tgt),
                                                     !.raw = UnknownText(n.tgt)],
                    !.w = Append(@, <<"unknown", n.tgt>>)]

IsBib(l) == l \in DOMAIN lab /\ A[lab[l]].c = "Bibitem"

ResolveCite(s, i) ==
  LET n   == s.a[i]
      lbl == "cite-" \o ToString(s.cites)
      tns == [j \in 1..Len(n.tls) |-> IF IsBib(n.tls[j]) THEN lab[n.tls[j]] ELSE 0]
      tls == [j \in 1..Len(n.tls) |-> IF IsBib(n.tls[j]) THEN n.tls[j] ELSE UnknownText(n.tls[j])]
      bad == SelectSeq(n.tls, LAMBDA l : ~IsBib(l))
      a1  == [s.a EXCEPT ![i] = [NewNode("Cite") EXCEPT !.p = n.p, !.label = lbl, !.tns = tns, !.tls = tls]]
      a2  == FoldLeft(LAMBDA b, t : IF t = 0 THEN b ELSE [b EXCEPT ![t].back = Append(@, lbl)], a1, tns)
  IN [s EXCEPT !.a = a2, !.cites = @ + 1,
               !.w = @ \o [j \in 1..Len(bad) |-> <<"unknown", bad[j]>>]]

(* the k-th earlier step among the siblings of step i, or 0                *)
RECURSIVE BackSteps(_, _, _)
BackSteps(a, i, k) == IF k = 0 \/ i = 0 THEN i ELSE BackSteps(a, PrevSibOf(a, i, {"Step"}), k - 1)

ResolvePrev(s, i) ==
  LET n    == s.a[i]
      step == NearestAnc(s.a, i, {"Step"})
      tgt  == IF step = 0 THEN 0 ELSE BackSteps(s.a, step, n.pk)
  IN IF step = 0 THEN [s EXCEPT !.x = "prev outside step"]
     ELSE IF tgt = 0 THEN [s EXCEPT !.x = "no such previous step"]
     ELSE [s EXCEPT !.a[i] = [NewNode("Reference") EXCEPT !.p = n.p, !.tn = tgt, !.ow = n.ow, !.prev = TRUE],
                    !.w = IF Strip(s.a[tgt].label) = "" THEN Append(@, <<"unlabelled", "">>) ELSE @]

ResolveOp(a) ==
  FoldLeft(LAMBDA s, i :
     IF s.x # "" THEN s
     ELSE CASE s.a[i].c = "PendingReference" -> ResolveRef(s, i)
            [] s.a[i].c = "PendingCite"      -> ResolveCite(s, i)
            [] s.a[i].c = "PendingPrev"      -> ResolvePrev(s, i)
            [] OTHER -> s,
     [a |-> a, cites |-> 0, w |-> <<>>, x |-> ""], Order(a))

Resolve ==
  /\ pc = "refs"
  /\ LET s == ResolveOp(A)
     IN /\ A' = s.a /\ warn' = warn \o s.w /\ exc' = s.x
        /\ pc' = IF s.x = "" THEN "steps" ELSE "failed"
  /\ UNCHANGED lab

------------------------------------------------------------------------------
(* 3. The content of a step is split into a statement and a subproof.      *)
SplitStep(a, i) ==
  LET ks  == a[i].k
      cut == {j \in 1..Len(ks) : a[ks[j]].c \in {"Step", "Subproof"}}
      at  == IF cut = {} THEN Len(ks) + 1 ELSE CHOOSE j \in cut : \A m \in cut : j <= m
      st  == Len(a) + 1
      Adopt(b, xs, q) == FoldLeft(LAMBDA d, x : [d EXCEPT ![x].p = q], b, xs)
      sk  == SubSeq(ks, 1, at - 1)
      a1  == Append(Adopt(a, sk, st), [NewNode("Statement") EXCEPT !.p = i, !.k = sk, !.hd = 1])
  IN IF ks = <<>> THEN a
     ELSE IF at > Len(ks) THEN [a1 EXCEPT ![i].k = <<st>>]
     ELSE IF a[ks[at]].c = "Step"
     THEN LET rest == SubSeq(ks, at, Len(ks))
              sp   == st + 1
          IN [Append(Adopt(a1, rest, sp), [NewNode("Subproof") EXCEPT !.p = i, !.k = rest])
                EXCEPT ![i].k = <<st, sp>>]
     ELSE LET rest == SubSeq(ks, at + 1, Len(ks))
              sp   == ks[at]
          IN [Adopt(a1, rest, sp) EXCEPT ![sp].k = @ \o rest, ![i].k = <<st, sp>>]

Subproofs ==
  /\ pc = "steps"
  /\ A' = FoldLeft(LAMBDA a, i : IF a[i].c = "Step" THEN SplitStep(a, i) ELSE a, A, Order(A))
  /\ pc' = "numbers" /\ UNCHANGED <<lab, warn, exc>>

------------------------------------------------------------------------------
(* 4. Numbers.  s.n maps <<scope class, sequence>> to the last number used.*)
Count(n, key) == IF key \in DOMAIN n THEN n[key] ELSE 0

NumberSteps(a, i) ==
  LET sts == SelectSeq(a[i].k, LAMBDA x : a[x].c = "Step" /\ ~a[x].nonum)
  IN FoldLeft(LAMBDA b, j : [b EXCEPT ![sts[j]].num = ToString(j)], a, [j \in 1..Len(sts) |-> j])

NumberNode(s, i) ==
  LET c   == s.a[i].c
      w   == CHOOSE x \in NumberWithin(c) : TRUE
      key == <<w, NumberAs(c)>>
      n0  == [k \in {q \in DOMAIN s.n : q[1] # c} |-> s.n[k]]     (* a new scope starts *)
      n   == Count(n0, key) + 1
      app == s.app /\ key = <<"Manuscript", "Section">>
  IN [s EXCEPT !.n = (key :> n) @@ n0,
               !.a[i].num = IF app THEN Letter(n) ELSE ToString(n),
               !.a[i].rt = IF s.app /\ c \in SectionLike THEN ReplAll(@, "{nodeclass}", "Appendix") ELSE @]

NumberOp(a) ==
  FoldLeft(LAMBDA s, i :
     CASE s.a[i].c = "Appendix" ->
            [s EXCEPT !.app = TRUE, !.n = (<<"Manuscript", "Section">> :> 0) @@ @]
       [] s.a[i].c \in {"Proof", "Subproof"} -> [s EXCEPT !.a = NumberSteps(@, i)]
       [] s.a[i].c = "Step" -> s
       [] s.a[i].c \in AutoNumbered /\ ~s.a[i].nonum -> NumberNode(s, i)
       [] OTHER -> s,
     [a |-> a, n |-> <<>>, app |-> FALSE], Order(a))

Autonumber ==
  /\ pc = "numbers"
  /\ A' = NumberOp(A).a
  /\ pc' = "toc" /\ UNCHANGED <<lab, warn, exc>>

------------------------------------------------------------------------------
(* 5. The table of contents.  An entry is an Item with a Reference and, if *)
(* the section has subsections, an Itemize with their entries.             *)
TocText(a, i) == IF a[i].nonum THEN a[i].title ELSE Full(a, i) \o ". " \o a[i].title

(* s.e maps a section to its entry                                         *)
TocEntry(s, toc, i) ==
  LET outer == NearestAnc(s.a, i, SectionLike)
      lists == IF outer = 0 THEN <<toc>>
               ELSE SelectSeq(s.a[s.e[outer]].k, LAMBDA x : s.a[x].c = "Itemize")
      mk    == lists = <<>>
      a0    == IF mk THEN [Append(s.a, [NewNode("Itemize") EXCEPT !.p = s.e[outer]])
                             EXCEPT ![s.e[outer]].k = Append(@, Len(s.a) + 1)]
               ELSE s.a
      lst   == IF mk THEN Len(a0) ELSE lists[1]
      it    == Len(a0) + 1
      rf    == Len(a0) + 2
  IN [s EXCEPT !.a = [a0 EXCEPT ![lst].k = Append(@, it)]
                       \o <<[NewNode("Item") EXCEPT !.p = lst, !.k = <<rf>>],
                            [NewNode("Reference") EXCEPT !.p = it, !.tn = i, !.ow = TocText(s.a, i)]>>,
               !.e = @ @@ (i :> it)]

TocOp(a) ==
  LET tocs == SelectSeq(Order(a), LAMBDA i : a[i].c = "Contents")
      secs == SelectSeq(Order(a), LAMBDA i : a[i].c \in SectionLike)
      a1   == FoldLeft(LAMBDA b, i : RemoveChild(b, i), a, Tail(tocs))
  IN IF tocs = <<>> THEN [a |-> a, w |-> <<>>]
     ELSE [a |-> FoldLeft(LAMBDA s, i : TocEntry(s, tocs[1], i), [a |-> a1, e |-> <<>>], secs).a,
           w |-> [j \in 1..(Len(tocs) - 1) |-> <<"toc", "">>]]

MakeToc ==
  /\ pc = "toc"
  /\ LET s == TocOp(A) IN A' = s.a /\ warn' = warn \o s.w
  /\ pc' = "keywords" /\ UNCHANGED <<lab, exc>>

------------------------------------------------------------------------------
(* 6. Constructs are marked with their kind.                               *)
NotAssumption == {"then", "suffices", "claim", "claimblock", "qed", "prove"}

Keywords ==
  /\ pc = "keywords"
  /\ A' = [i \in 1..Len(A) |->
             IF A[i].c \in ConstructLike
             THEN [A[i] EXCEPT !.types = @ \o <<A[i].kind>>
                                  \o (IF A[i].kind \in NotAssumption THEN <<>> ELSE <<"assumption">>)]
             ELSE A[i]]
  /\ pc' = "handrails" /\ UNCHANGED <<lab, warn, exc>>

------------------------------------------------------------------------------
(* 7. Nesting depth with respect to elements that have a handrail.         *)
Handrails ==
  /\ pc = "handrails"
  /\ A' = FoldLeft(LAMBDA a, i :
              IF a[i].c \notin HasHandrail THEN a
              ELSE FoldLeft(LAMBDA b, d : IF d = i THEN b ELSE [b EXCEPT ![d].hd = @ + 1],
                            a, PreFrom(a, i)),
              A, Order(A))
  /\ pc' = "ids" /\ UNCHANGED <<lab, warn, exc>>

------------------------------------------------------------------------------
(* 8. Ids in document order.                                               *)
NodeIds ==
  /\ pc = "ids"
  /\ LET o == Order(A)
     IN A' = FoldLeft(LAMBDA a, j : [a EXCEPT ![o[j]].nid = j - 1], A, [j \in 1..Len(o) |-> j])
  /\ pc' = "done" /\ UNCHANGED <<lab, warn, exc>>

TransformNext ==
  \/ CollectLabels \/ Resolve \/ Subproofs \/ Autonumber \/ MakeToc \/ Keywords
  \/ Handrails \/ NodeIds

=============================================================================
