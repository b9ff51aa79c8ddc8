-------------------------- MODULE TranslateTrace --------------------------
(***************************************************************************)
(* Recorded translations of processed manuscripts, judged against          *)
(* Translate: for every recorded page the specification derives the page   *)
(* it should be, and what must be true of any page is checked directly on  *)
(* the recorded one.                                                       *)
(*                                                                         *)
(* A record has the processed tree (post) and the tokens of both pages     *)
(* (plain, hr); exc/at tell what failed, if anything.                      *)
(***************************************************************************)
EXTENDS Pages, Json, IOUtils

CONSTANT Props

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ri, done
R == Recs[ri]
A == R.post

HasAppendix == \E i \in 1..Len(A) : A[i].c = "Appendix"
HasToc == \E i \in 1..Len(A) : A[i].c = "Contents"

------------------------------------------------------------------------------
Diff(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      d == {j \in 1..n : a[j] # b[j]}
      j == IF d = {} THEN n + 1 ELSE CHOOSE x \in d : \A y \in d : x <= y
  IN <<j, IF j <= Len(a) THEN a[j] ELSE "nothing", IF j <= Len(b) THEN b[j] ELSE "nothing">>

Say(p, clause, ok, detail) ==
  IF p \in Props /\ ~ok THEN PrintT(<<"FAIL", p, clause, R.id, ToString(detail)>>) ELSE TRUE
Same(p, clause, a, b) == IF p \in Props /\ a # b THEN Say(p, clause, FALSE, Diff(a, b)) ELSE TRUE

Labelled == {i \in 1..Len(A) : A[i].label # "" /\ A[i].c \notin {"Manuscript0"}}

(* a table of contents element, a construct and so on are rendered with their label; these have no tag *)
NoTag(c) == c \in {"Appendix", "Text", "Reference", "URL", "Caption"}

OnPage(g, w) ==                                    (* clauses for one page *)
  LET ids == Ids(g)
      P == {ids[j] : j \in 1..Len(ids)}
  IN /\ \A d \in Dups(ids) : Say("C16", "dup-id:" \o d, FALSE, w)
     /\ \A i \in Labelled : Say("C16", "label is no id", NoTag(A[i].c) \/ A[i].label \in P, <<w, A[i].c, A[i].label>>)
     /\ \A j \in 1..Len(Hrefs(g)) :
          LET x == Hrefs(g)[j]
          IN Say("C16", "dangling link", (StartsWith(x, "#") /\ Len(x) > 1) => SubSeq(x, 2, Len(x)) \in P, <<w, x>>)
     /\ Say("C14", "display equation inside a p element", ~InP(g), w)
     /\ LET nn == PageIds(g) IN Say("C11", "ids increase", \A j \in 1..Len(nn) - 1 : Atoi(nn[j]) < Atoi(nn[j + 1]), w)

Judge(e, g, h) ==
  LET w == IF h THEN "handrails" ELSE "plain"
      wn == WellNested(g)
  IN /\ Say("C12", "well nested", wn = "", <<w, wn>>)
     /\ OnPage(g, w)
     /\ IF wn # "" THEN \A p \in Props \ {"C12", "C16", "C14", "C11"} : Say(p, "page is not well nested", FALSE, wn)
        ELSE
        /\ Same("C03", "links " \o w, Links(e), Links(g))
        /\ Same("C04", "citations " \o w, NotBlank(Citations(e)), NotBlank(Citations(g)))
        /\ Same("C05", "links in steps " \o w, StepLinks(e), StepLinks(g))
        /\ (~HasAppendix => Same("C06", "numbers shown " \o w, NotBlank(Shown(e)), NotBlank(Shown(g))))
        /\ (HasAppendix => Same("C07", "numbers shown " \o w, NotBlank(Shown(e)), NotBlank(Shown(g))))
        /\ Same("C08", "table of contents " \o w, NotBlank(TocPart(e)), NotBlank(TocPart(g)))
        /\ Same("C09", "steps " \o w, ProofPart(e)[1], ProofPart(g)[1])
        /\ Same("C09", "text of steps " \o w, ProofPart(e)[2], ProofPart(g)[2])
        /\ Same("C10", "marks " \o w, Marks(e), Marks(g))
        /\ Same("C11", "ids " \o w, PageIds(e), PageIds(g))
        /\ Same("C13", "nesting " \o w, Nesting(Out(e, IsControl)), Nesting(Out(g, IsControl)))
        /\ Say("C13", "text " \o w, Seen(e) = Seen(g), <<Seen(e), Seen(g)>>)
        /\ Say("C17", "text " \o w, Seen(e) = Seen(g), <<Seen(e), Seen(g)>>)
        /\ Say("C18", "text " \o w, Seen(e) = Seen(g), <<Seen(e), Seen(g)>>)
        /\ Same("C18", "verbatim " \o w, SelectSeq(e, LAMBDA t : t[1] = "r"), SelectSeq(g, LAMBDA t : t[1] = "r"))
        /\ Same("C14", "paragraphs " \o w, Paras(e), Paras(g))
        /\ Same("C16", "ids " \o w, Ids(e), Ids(g))
        /\ Same("C16", "links " \o w, Hrefs(e), Hrefs(g))
        /\ Same("C20", "attributes " \o w, Meta(e), Meta(g))
        /\ Same("C20", "titles " \o w, NotBlank(MetaText(e)), NotBlank(MetaText(g)))
        /\ Same("C20", "icons " \o w, Icons(e), Icons(g))
        /\ (h => /\ Same("C27", "zones", Zones(e), Zones(g))
                 /\ Same("C27", "owners", Owners(e), Owners(g))
                 /\ Say("C27", "each handrail has its zones once", ZonesOnce(g), ""))
        /\ Same("C28", "minimap " \o w, Minimaps(e), Minimaps(g))
        /\ Say("C28", "minimap only with a table of contents", HasToc \/ Minimaps(g) = <<>>, w)
        /\ Same("C29", "shape " \o w, NotBlank(Out(e, IsControl)), NotBlank(Out(g, IsControl)))

(* both pages say the same                                                 *)
Agree(p, h) ==
  /\ Say("C13", "both pages have the same text", Squeeze(Seen(p)) = Squeeze(Seen(h)), <<Seen(p), Seen(h)>>)
  /\ Same("C13", "both pages have the same elements", Nesting(Out(p, IsControl)), Nesting(Out(h, IsControl)))
  /\ Same("C13", "both pages have the same ids",
          Ids(Out(Out(p, IsControl), LAMBDA t : Has(t, "bibitem-doi"))), Ids(Out(h, IsControl)))
  /\ Same("C13", "both pages have the same links",
          Hrefs(Out(Out(p, IsControl), LAMBDA t : Has(t, "bibitem-doi"))), Hrefs(Out(h, IsControl)))

Init == ri \in 1..Len(Recs) /\ done = FALSE

Next ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED ri
  /\ IF R.exc # "" THEN \A p \in Props : Say(p, "translation failed: " \o R.exc, FALSE, R.at)
     ELSE /\ Judge(Page(A, FALSE), R.plain, FALSE)
          /\ Judge(Page(A, TRUE), R.hr, TRUE)
          /\ (WellNested(R.plain) = "" /\ WellNested(R.hr) = "" => Agree(R.plain, R.hr))

Spec == Init /\ [][Next]_<<ri, done>>
=============================================================================
