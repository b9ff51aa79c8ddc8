----------------------------- MODULE SourceTrace ----------------------------
(***************************************************************************)
(* What a property says about a document begins with what the author wrote.*)
(* A record is [id, doc, pre (the tree as parsed), exc]: the things that   *)
(* matter to a property are compared, in document order and with their     *)
(* nesting, in the meaning of the source (spec/Parse.tla) and in the tree  *)
(* that all later stages start from.                                       *)
(***************************************************************************)
EXTENDS Parse, Json, IOUtils

CONSTANT Props
VARIABLES ri, done
vars == <<ri, done>>

Recs == ndJsonDeserialize(IOEnv.TRACE)
R == Recs[ri]
Pre == R.pre

Say(p, clause, ok, detail) ==
  IF p \in Props /\ ~ok THEN PrintT(<<"FAIL", p, clause, R.id, detail>>) ELSE TRUE

------------------------------------------------------------------------------
RECURSIVE Drop(_, _)
Drop(s, C) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in C THEN "" ELSE Ch(s, 1)) \o Drop(SubSeq(s, 2, Len(s)), C)
Bare(s) == Drop(s, Blanks \cup {"\\"})

(* A thing is [c, a (attributes), t (its own texts, between its children), *)
(* d (the classes around it)].                                             *)
RECURSIVE Written(_, _)
Written(e, d) ==
  <<[c |-> e.c, a |-> e.at, d |-> d, t |-> IF e.raw = "" THEN e.gaps ELSE <<e.raw>>]>>
    \o Concat([i \in 1..Len(e.ks) |-> Written(e.ks[i], Append(d, e.c))])

IsText(j) == Pre[j].c \in {"Text", "SourceCode"}
RECURSIVE Read(_, _)
Read(j, d) ==
  LET n == Pre[j]
      gaps == FoldLeft(LAMBDA acc, x : IF IsText(x) THEN [acc EXCEPT ![Len(acc)] = @ \o Pre[x].raw] ELSE Append(acc, ""), <<"">>, n.k)
      kids == SelectSeq(n.k, LAMBDA x : ~IsText(x))
  IN <<[c |-> n.c, a |-> n, d |-> d, t |-> gaps]>> \o Concat([i \in 1..Len(kids) |-> Read(kids[i], Append(d, n.c))])

------------------------------------------------------------------------------
(* The kinds of things whose order and nesting matter, and what of each.   *)
Rails == HasHandrail \cup SectionLike \cup {"Paragraph", "Author", "MathBlock", "Abstract", "Subproof", "Contents", "Bibliography"}
Numbered == SectionLike \cup TheoremLike \cup {"MathBlock", "Algorithm", "Figure", "Table", "Step", "Bibitem", "Appendix"}
Structural(p) ==
  CASE p = "C03" -> {"PendingReference"}
    [] p = "C04" -> {"PendingCite", "Bibitem", "Bibliography"}
    [] p = "C05" -> {"PendingPrev", "Proof", "Subproof", "Step"}
    [] p \in {"C06", "C07"} -> Numbered
    [] p \in {"C08", "C28"} -> SectionLike \cup {"Contents"}
    [] p = "C09" -> {"Proof", "Subproof", "Step", "Construct", "Sketch"}
    [] p \in {"C10", "C27"} -> Rails
    [] p = "C14" -> {"Paragraph", "MathBlock", "ClaimBlock"}
    [] p = "C16" -> {"PendingReference", "PendingCite"}
    [] OTHER -> {}                           (* everything *)
Everything(p) == p \in {"C13", "C29"}

Of(p, x) ==
  LET a == x.a
      label == <<"label", a.label>>
      ref   == <<"to", a.tgt, a.ow>>
      title == IF x.c \in SectionLike \cup TheoremLike \cup {"Manuscript", "Paragraph"} THEN <<"title", Bare(a.title)>> ELSE ""
  IN CASE p = "C03" -> <<label, IF x.c = "PendingReference" THEN ref ELSE "", IF a.rt = ClassRef(x.c) THEN "" ELSE a.rt>>
       [] p = "C04" -> <<a.tls, IF x.c = "Bibitem" THEN <<label, a.kind, a.bib>> ELSE "">>
       [] p = "C05" -> <<IF x.c = "PendingPrev" THEN <<a.pk, a.ow>> ELSE "", IF x.c = "Step" THEN label ELSE "">>
       [] p \in {"C06", "C07"} -> <<a.nonum>>
       [] p \in {"C08", "C28"} -> <<title, a.nonum, label>>
       [] p = "C14" -> <<a.claim>>
       [] p = "C16" -> <<label, IF x.c = "PendingReference" THEN a.tgt ELSE "", a.tls>>
       [] p = "C27" -> <<label, a.nonum, a.icon, a.rt>>
       [] p = "C13" -> <<title, IF x.c = "Author" THEN a.au ELSE "", IF x.c = "Abstract" THEN <<a.kw, a.msc>> ELSE "",
                         IF x.c = "Figure" THEN a.path ELSE "", IF x.c = "Bibitem" THEN a.bib ELSE "", IF x.c \in {"PendingReference", "URL", "PendingPrev"} THEN a.ow ELSE "",
                         [i \in 1..Len(x.t) |-> Bare(x.t[i])]>>
       [] p = "C29" -> <<label, a.types, title, {a.flags[i] : i \in DOMAIN a.flags}, a.lang, IF x.c = "Figure" THEN <<a.path, a.scale>> ELSE "">>
       [] OTHER     -> <<>>
(* the labels of things of any kind                                        *)
Labelled(p, x) == p \in {"C03", "C16"} /\ x.a.label # ""

Facts(p, xs) ==
  LET S == Structural(p)
      mine == SelectSeq(xs, LAMBDA x : Everything(p) \/ x.c \in S \/ Labelled(p, x))
      around(d) == IF Everything(p) THEN d ELSE IF p \in {"C03", "C04", "C16"} THEN <<>> ELSE SelectSeq(d, LAMBDA c : c \in S)
  IN [i \in 1..Len(mine) |-> ToString(<<mine[i].c, around(mine[i].d), Of(p, mine[i])>>)]

FirstOff(f, g) == CHOOSE i \in 1..(Len(f) + 1) :
  (i > Len(f) \/ i > Len(g) \/ (i <= Len(f) /\ i <= Len(g) /\ f[i] # g[i])) /\ \A j \in 1..(i - 1) : f[j] = g[j]
At_(f, i) == IF i <= Len(f) THEN f[i] ELSE "nothing"

Flagged(e) == [e EXCEPT !.flags = SetToSeq(@)]
Check ==
  \A p \in Props :
    IF R.exc # "" THEN Say(p, "the source is read", FALSE, R.exc)
    ELSE LET w == Written(Meaning(R.doc), <<>>)
             want == Facts(p, [i \in 1..Len(w) |-> [w[i] EXCEPT !.a = Flagged(@)]])
             got  == Facts(p, Read(1, <<>>))
             i == FirstOff(want, got)
         IN Say(p, "as written", want = got, ToString(<<"expected", At_(want, i), "got", At_(got, i)>>))

Init == ri \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED ri /\ Check
Spec == Init /\ [][Next]_vars
=============================================================================
