---------------------------- MODULE Translate ----------------------------
(***************************************************************************)
(* The page a processed manuscript is translated to, as a sequence of      *)
(* tokens.  A token is                                                     *)
(*                                                                         *)
(*    <<kind, tag, id, classes, attributes, text>>                         *)
(*                                                                         *)
(* with kind "o" (tag opened), "c" (tag closed), "v" (tag without content),*)
(* "x" (running text) or "r" (verbatim text).                              *)
(*                                                                         *)
(* Page(A, FALSE) is the plain rendering, Page(A, TRUE) the one with       *)
(* handrails.                                                              *)
(***************************************************************************)
EXTENDS Tree

Classes == SectionLike \cup TheoremLike \cup ConstructLike \cup PendingLike \cup BibLike
             \cup TextLike \cup ListLike
             \cup {"Manuscript", "Author", "Abstract", "Paragraph", "Note", "Span", "Keyword", "Math",
                   "MathBlock", "Code", "CodeBlock", "Algorithm", "Appendix", "Reference", "URL", "Cite",
                   "Statement", "Proof", "Subproof", "Sketch", "Step", "Bibliography", "Figure", "Draft",
                   "Table", "TableHead", "TableBody", "TableRow", "TableDatum", "Caption", "Item"}
LowerOf == [c \in Classes |-> Lower(c)]

------------------------------------------------------------------------------
(* Tokens.                                                                 *)
O(tag, id, cls, at) == <<<<"o", tag, id, cls, at, "">>>>
C(tag)              == <<<<"c", tag, "", <<>>, <<>>, "">>>>
V(tag, id, cls, at) == <<<<"v", tag, id, cls, at, "">>>>
X(s)                == IF s = "" THEN <<>> ELSE <<<<"x", "", "", <<>>, <<>>, s>>>>
Verb(s)             == IF s = "" THEN <<>> ELSE <<<<"r", "", "", <<>>, <<>>, s>>>>
El(tag, cls, inner) == O(tag, "", cls, <<>>) \o inner \o C(tag)
Div(cls, inner)     == El("div", cls, inner)

Dedupe(s) == FoldLeft(LAMBDA acc, x : IF \E j \in 1..Len(acc) : acc[j] = x THEN acc ELSE Append(acc, x), <<>>, s)

Flat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)

------------------------------------------------------------------------------
(* Facts about elements.                                                   *)
Below(A, i) == Tail(PreFrom(A, i))
FirstOf(A, i, cs) == LET s == SelectSeq(A[i].k, LAMBDA x : A[x].c \in cs) IN IF s = <<>> THEN 0 ELSE s[1]

(* the last step of a proof is marked                                      *)
LastStep(A, i) ==
  LET s == SelectSeq(A[i].k, LAMBDA x : A[x].c = "Step") IN IF s = <<>> THEN 0 ELSE s[Len(s)]
IsLast(A, i) == A[i].p # 0 /\ A[A[i].p].c = "Proof" /\ LastStep(A, A[i].p) = i

Level(c) == CASE c = "Section" -> 2 [] c = "Subsection" -> 3 [] OTHER -> 4

(* the types an element is rendered with                                   *)
Types(A, i) ==
  CASE A[i].c \in SectionLike -> <<"level-" \o ToString(Level(A[i].c))>> \o A[i].types
    [] A[i].c = "Step" -> A[i].types \o (IF IsLast(A, i) THEN <<"last">> ELSE <<>>)
    [] OTHER -> A[i].types

Num(A, i) == Full(A, i)
HasNum(A, i) == ~A[i].nonum /\ Full(A, i) # ""
TextOf(A, i) == A[i].text

DotAfter(A, i) == LET s == NextSib(A, i) IN s # 0 /\ A[s].c = "Text" /\ StartsWith(A[s].text, ".")

------------------------------------------------------------------------------
(* Tags of elements.                                                       *)
NodeId(A, i) == IF A[i].nid < 0 THEN <<>> ELSE <<<<"data-nodeid", ToString(A[i].nid)>>>>
Sel == <<<<"tabindex", "0">>>>
Open(A, i, tag, extra, at) ==
  O(tag, A[i].label, Dedupe(<<LowerOf[A[i].c]>> \o Types(A, i) \o extra), NodeId(A, i) \o at)
Node(A, i, tag, extra, inner) == Open(A, i, tag, extra, <<>>) \o inner \o C(tag)

(* an element with handrails                                               *)
HrMarks(A, i) ==
  <<"hr">> \o (IF A[i].hd = 2 THEN <<"hr-hidden">> ELSE <<>>) \o (IF A[i].hd > 0 THEN <<"hr-offset">> ELSE <<>>)

CollapseZone(on) ==
  Div(<<"hr-collapse-zone">>,
      IF on THEN Div(<<"hr-collapse">>, Div(<<"icon", "collapse">>, <<>>)) ELSE Div(<<"hr-spacer">>, <<>>))
BorderZone ==
  Div(<<"hr-border-zone">>, Div(<<"hr-border-dots">>, Div(<<"icon", "dots">>, <<>>)) \o Div(<<"hr-border-rect">>, <<>>))
BorderZoneEmpty == Div(<<"hr-border-zone">>, Div(<<"hr-border-rect">>, <<>>))
SpacerZone == Div(<<"hr-spacer-zone">>, Div(<<"hr-spacer">>, <<>>))
InfoZone(inner) == Div(<<"hr-info-zone">>, Div(<<"hr-info">>, inner))
InfoIcon(icon) == InfoZone(IF icon = "" THEN <<>> ELSE Div(<<"icon", icon>>, <<>>))
InfoNumber(A, i, cls, l, r) ==
  InfoZone(IF A[i].nonum THEN <<>> ELSE Div(<<cls>>, El("p", <<>>, X(l \o Num(A, i) \o r))))

MenuText(s) == El("span", <<"hr-menu-item-text">>, X(s))
MenuItem(cls, icon, s) == Div(<<"hr-menu-item">> \o cls, El("span", <<"icon", icon>>, <<>>) \o MenuText(s))
MenuSep == Div(<<"hr-menu-separator">>, <<>>)
(* an entry is "no" (left out), "yes" or "off" (shown but disabled)        *)
Entry(state, cls, icon, s) ==
  IF state = "no" THEN <<>> ELSE MenuItem(cls \o (IF state = "off" THEN <<"disabled">> ELSE <<>>), icon, s)
MenuZone(label, collapse, all, link) ==
  Div(<<"hr-menu-zone">>, Div(<<"hr-menu">>,
      (IF label = "" THEN <<>> ELSE Div(<<"hr-menu-label">>, MenuText(label)) \o MenuSep)
      \o Entry(collapse, <<"collapse-subproof">>, "collapse", "Collapse")
      \o Entry(all, <<"collapse-steps">>, "collapse-all", "Collapse all")
      \o (IF collapse # "no" \/ all # "no" THEN MenuSep ELSE <<>>)
      \o Entry(link, <<"link">>, "link", "Copy link")
      \o Entry("yes", <<>>, "tree", "Tree")
      \o Entry("yes", <<>>, "code", "Source")))
MenuZoneEmpty == Div(<<"hr-menu-zone">>, <<>>)
Link(A, i) == IF A[i].label # "" THEN "yes" ELSE "off"

Content(inner) == Div(<<"hr-content-zone">>, inner)

(* the element itself becomes a handrail                                   *)
Railed(A, i, extra, collapsible, menu, inner, info) ==
  Open(A, i, "div", HrMarks(A, i) \o extra, Sel)
  \o CollapseZone(collapsible) \o menu \o BorderZone \o SpacerZone \o Content(inner) \o info \o C("div")

(* a part of an element, its heading say, gets a handrail around it        *)
Wrapped(cls, collapsible, label, link, inner, info) ==
  O("div", "", Dedupe(cls \o <<"hr">>), Sel)
  \o CollapseZone(collapsible) \o MenuZone(label, "no", "no", link) \o BorderZone \o SpacerZone
  \o Content(inner) \o info \o C("div")

Heading(level, s) == LET t == "h" \o ToString(level) IN El(t, <<>>, X(s))

RailedHeading(A, i, h, level, s, icon) ==
  IF ~h THEN Heading(level, s)
  ELSE Wrapped(<<"heading">>, TRUE, RefText(A, i), Link(A, i), Heading(level, s), InfoIcon(icon))

------------------------------------------------------------------------------
(* Pieces.                                                                 *)
TitleLine(label, desc) ==
  Div(<<"paragraph", "hr-label">>, El("p", <<>>,
      El("span", <<"span", "label">>, X(label))
      \o (IF desc = "" THEN <<>> ELSE El("span", <<"span", "desc">>, X(desc)))))

LinkTo(A, n, href, id, cls, s) ==
  O("a", id, cls, <<<<"href", href>>>>) \o X(s) \o C("a")

RefClasses(A, i) == IF \E j \in 1..Len(A[i].types) : A[i].types[j] = "reference" THEN A[i].types
                    ELSE <<"reference">> \o A[i].types

RefShown(A, i) == IF A[i].ow # "" THEN A[i].ow ELSE RefText(A, A[i].tn)

(* citations: t is the j-th entry, 0 if unknown                            *)
CiteLink(A, i, j, id, cls) ==
  LET t == A[i].tns[j]
  IN LinkTo(A, i, "#" \o (IF t = 0 THEN "" ELSE A[t].label), id, RefClasses(A, i) \o cls,
            IF t = 0 THEN A[i].tls[j] ELSE RefText(A, t))
CitePart(A, i) ==
  LET n == Len(A[i].tns)
  IN IF n = 1 THEN X("[") \o CiteLink(A, i, 1, A[i].label, IF A[i].tns[1] = 0 THEN <<"cite", "unknown">> ELSE <<"cite">>)
                     \o X("]")
     ELSE X("[") \o O("span", A[i].label, <<>>, <<>>)
          \o Flat([j \in 1..n |-> (IF j = 1 THEN <<>> ELSE X(", "))
                     \o CiteLink(A, i, j, A[i].label \o "-" \o ToString(j - 1), <<"cite">>)])
          \o C("span") \o X("]")

(* bibliography entries                                                    *)
RECURSIVE TrimDotsL(_)
TrimDotsL(s) == IF s # "" /\ Ch(s, 1) = "." THEN TrimDotsL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimDotsR(_)
TrimDotsR(s) == IF s # "" /\ Ch(s, Len(s)) = "." THEN TrimDotsR(SubSeq(s, 1, Len(s) - 1)) ELSE s
TrimDots(s) == TrimDotsL(TrimDotsR(s))

BibText(A, i) ==
  LET b  == A[i].bib
      xs == (IF A[i].num = "" THEN <<>> ELSE <<A[i].num \o ".">>)
            \o <<b.author, "\"" \o b.title \o "\"">>
            \o (IF A[i].kind = "article" /\ b.journal # "" THEN <<b.journal>> ELSE <<>>)
            \o (IF A[i].kind = "book" /\ b.publisher # "" THEN <<b.publisher>> ELSE <<>>)
            \o (IF b.year = "" THEN <<>> ELSE <<b.year>>)
  IN JoinStr([j \in 1..Len(xs) |-> TrimDots(xs[j])], ". ") \o "."
DoiOpen(A, i) == O("a", IF A[i].label = "" THEN "" ELSE A[i].label \o "-doi", <<"bibitem-doi">>,
                   <<<<"href", "https://doi.org/" \o A[i].bib.doi>>, <<"target", "_blank">>>>)
BackLinks(A, i) ==
  LET bs == A[i].back
  IN IF bs = <<>> THEN <<>>
     ELSE V("br", "", <<>>, <<>>) \o X("[")
          \o Flat([j \in 1..Len(bs) |-> (IF j = 1 THEN <<>> ELSE X(","))
                     \o LinkTo(A, i, "#" \o bs[j], "", <<"reference", "backlink">>, "↖" \o ToString(j))])
          \o X("]")

BibPart(A, i, h) ==
  LET b == A[i].bib
  IN IF ~h THEN Node(A, i, "li", <<>>,
                     X(BibText(A, i) \o (IF b.doi = "" THEN "" ELSE " "))
                     \o (IF b.doi = "" THEN <<>> ELSE DoiOpen(A, i) \o X("[link]") \o C("a"))
                     \o BackLinks(A, i))
     ELSE Node(A, i, "div", <<>>,
               O("div", "", <<"hr-hidden", "hr">>, Sel)
               \o CollapseZone(FALSE) \o MenuZone("", "no", "no", "no") \o BorderZone \o SpacerZone
               \o (IF b.doi = ""
                   THEN Content(X(BibText(A, i)) \o BackLinks(A, i)) \o InfoIcon("ext")
                   ELSE Content(El("p", <<>>, X(BibText(A, i) \o " ") \o BackLinks(A, i)))
                        \o InfoZone(DoiOpen(A, i) \o Div(<<"icon", "ext">>, <<>>) \o C("a")))
               \o C("div"))

(* the minimap of a table of contents                                      *)
Radius(A, t) == CASE A[t].c = "Section" -> 8 [] A[t].c = "Subsection" -> 6 [] OTHER -> 4
Minimap(A, toc, follow, ids) ==
  LET refs == SelectSeq(PreFrom(A, toc), LAMBDA x : A[x].c = "Reference")
      n    == Len(refs)
      hgt  == IF n * 32 + 8 > 48 THEN n * 32 + 8 ELSE 48
      url  == "url(#purple-green-" \o follow \o ")"
      Stop(id, off, col) == V("stop", id, <<>>, <<<<"offset", off>>, <<"stop-color", col>>>>)
      Dot(j) ==
        LET t  == A[refs[j]].tn
            cy == ToString(20 + 32 * (j - 1))
            c1 == V("circle", IF ids THEN "mm-" \o A[t].label ELSE "", <<>>,
                    <<<<"cx", "16">>, <<"cy", cy>>, <<"data-pos", cy>>, <<"r", ToString(Radius(A, t))>>>>)
            c2 == V("circle", "", <<>>,
                    <<<<"cx", "16">>, <<"cy", cy>>, <<"data-pos", cy>>, <<"fill", "#FCFEFF">>,
                      <<"r", ToString(Radius(A, t) - 4)>>>>)
        IN IF ids THEN O("a", "", <<"reference">>, <<<<"href", "#" \o A[t].label>>, <<"tabindex", "-1">>>>)
                       \o c1 \o c2 \o C("a")
           ELSE c1 \o c2
  IN Div(<<"minimap">>,
       O("svg", "", <<>>, <<<<"fill", "#3C4952">>, <<"preserveAspectRatio", "xMinYMid meet">>,
                            <<"stroke-width", "0">>, <<"viewBox", "0 0 32 " \o ToString(hgt)>>,
                            <<"xmlns", "http://www.w3.org/2000/svg">>>>)
       \o El("defs", <<>>,
            O("lineargradient", "purple-green-" \o follow, <<>>,
              <<<<"gradientUnits", "userSpaceOnUse">>, <<"x1", "0%">>, <<"x2", "0%">>, <<"y1", "0%">>,
                <<"y2", "100%">>>>)
            \o Stop("", "0%", "#AD71F2")
            \o Stop("stop-follow-" \o follow \o "-1", "100%", "#1FB5A2")
            \o Stop("stop-follow-" \o follow \o "-2", "100%", "#DAE1E5")
            \o Stop("", "100%", "#DAE1E5")
            \o C("lineargradient")
            \o O("mask", "gradient-mask", <<>>, <<>>)
            \o V("rect", "", <<>>, <<<<"fill", url>>, <<"height", "100%">>, <<"width", "100%">>>>)
            \o C("mask"))
       \o O("g", "", <<>>, <<<<"fill", url>>>>)
       \o V("rect", "", <<>>, <<<<"height", ToString(hgt - 48)>>, <<"width", "4">>, <<"x", "14">>, <<"y", "24">>>>)
       \o Flat([j \in 1..n |-> Dot(j)])
       \o C("g") \o C("svg"))

------------------------------------------------------------------------------
(* Elements.                                                               *)
SpanTags(flags) ==
  Flat([j \in 1..Len(flags) |->
         <<CASE flags[j] = "strong" -> "strong" [] flags[j] = "emphas" -> "em" [] flags[j] = "little" -> "small"
             [] flags[j] = "insert" -> "ins" [] OTHER -> "del">>])
OpenAll(tags) == Flat([j \in 1..Len(tags) |-> O(tags[j], "", <<>>, <<>>)])
CloseAll(tags) == Flat([j \in 1..Len(tags) |-> C(tags[Len(tags) + 1 - j])])

DisplayLike == {"MathBlock", "ClaimBlock"}

RECURSIVE T(_, _, _)

Kids(A, i, h) == FoldLeft(LAMBDA acc, c : acc \o T(A, c, h), <<>>, A[i].k)

(* the content of a paragraph: runs of text are p elements, display        *)
(* equations stand between them                                            *)
Runs(A, i, h) ==
  LET ks == A[i].k
      n  == Len(ks)
      ttl == IF A[i].title = "" THEN <<>> ELSE X(" ") \o El("span", <<"pg-label">>, X(" " \o A[i].title \o ". ")) \o X(" ")
      step(j) ==
        IF A[ks[j]].c \in DisplayLike
        THEN C("p") \o T(A, ks[j], h) \o (IF j < n THEN O("p", "", <<>>, <<>>) ELSE <<>>)
        ELSE T(A, ks[j], h)
  IN O("p", "", <<>>, <<>>) \o ttl \o Flat([j \in 1..n |-> step(j)])
     \o (IF n > 0 /\ A[ks[n]].c \in DisplayLike THEN <<>> ELSE C("p"))

SectionTitle(A, i) == IF A[i].nonum THEN A[i].title ELSE Num(A, i) \o ". " \o A[i].title

StepMenu(A, i) ==
  LET sub == FirstOf(A, i, {"Subproof"})
      sst == IF sub = 0 THEN 0 ELSE FirstOf(A, sub, {"Step"})
  IN MenuZone(RefText(A, i), IF sub = 0 THEN "off" ELSE "yes", IF sst = 0 THEN "off" ELSE "yes", Link(A, i))

Menu(A, i) == MenuZone(RefText(A, i), "no", "no", Link(A, i))

(* theorem-like environments, proofs and sketches                          *)
Environment(A, i, h, extra, menu, ttl, tail) ==
  IF ~h THEN Node(A, i, "div", extra, ttl \o Kids(A, i, h) \o tail)
  ELSE Railed(A, i, <<"hr-labeled">>, TRUE, menu, ttl \o Kids(A, i, h), InfoIcon(A[i].icon))

AuthorParts(A, i) ==
  LET a == A[i].au
      P(x) == IF x = "" THEN <<>> ELSE El("p", <<>>, X(x))
  IN P(a.name) \o P(a.affiliation)
     \o (IF a.email = "" THEN <<>>
         ELSE El("p", <<>>, O("a", "", <<>>, <<<<"href", "mailto:" \o a.email>>>>) \o X(a.email) \o C("a")))

T(A, i, h) ==
  LET n == A[i]
      ks == Kids(A, i, h)
  IN
  CASE n.c = "Manuscript" ->
         LET toc == FirstOf(A, i, {"Contents"})
             mm  == IF h /\ toc # 0 THEN Div(<<"float-minimap-wrapper">>, Minimap(A, toc, "scroll", TRUE)) ELSE <<>>
             hd  == IF n.title = "" THEN <<>>
                    ELSE IF h THEN Wrapped(<<"heading">>, TRUE, "Title", "yes", Heading(1, n.title), InfoIcon(""))
                    ELSE Heading(1, n.title)
         IN El("body", <<>>, Div(<<"manuscriptwrapper">>,
               Node(A, i, "div", <<>>, mm \o El("section", <<"level-1">>, hd \o ks))))
    [] n.c = "Author" ->
         LET ps == AuthorParts(A, i)
         IN IF h THEN Railed(A, i, <<"hr-hidden">>, FALSE, Menu(A, i), ps, InfoIcon(n.icon))
            ELSE Node(A, i, "div", <<>>, IF ps = <<>> THEN <<>> ELSE Div(<<"paragraph">>, ps))
    [] n.c = "Abstract" ->
         Node(A, i, "div", <<>>,
           RailedHeading(A, i, h, 3, "Abstract", "") \o ks
           \o (IF n.kw = <<>> THEN <<>> ELSE El("p", <<"keywords">>, X("Keywords: " \o JoinStr(n.kw, ", "))))
           \o (IF n.msc = <<>> THEN <<>> ELSE El("p", <<"msc">>, X("MSC: " \o JoinStr(n.msc, ", ")))))
    [] n.c \in SectionLike ->
         Node(A, i, "section", <<>>, RailedHeading(A, i, h, Level(n.c), SectionTitle(A, i), n.icon) \o ks)
    [] n.c = "Contents" ->
         Div(<<"toc">>, RailedHeading(A, i, h, 3, "Table of Contents", "")
           \o Div(<<"toc-wrapper">>, (IF h THEN Minimap(A, i, "mouse", FALSE) ELSE <<>>) \o Node(A, i, "ul", <<>>, ks)))
    [] n.c = "Bibliography" ->
         El("section", <<"level-2">>, RailedHeading(A, i, h, 2, "References", "")
           \o Node(A, i, IF h THEN "div" ELSE "ol", <<>>, ks))
    [] n.c \in BibLike -> BibPart(A, i, h)
    [] n.c = "Paragraph" ->
         IF h THEN Railed(A, i, <<"hr-hidden">>, FALSE, Menu(A, i), Runs(A, i, h), InfoIcon(n.icon))
         ELSE Node(A, i, "div", <<>>, Runs(A, i, h))
    [] n.c \in TheoremLike ->
         Environment(A, i, h, <<"theorem">>, Menu(A, i),
           TitleLine(n.c \o (IF ~n.nonum /\ n.num # "" THEN " " \o Num(A, i) ELSE "")
                      \o (IF n.title # "" THEN ": " ELSE "."), n.title), <<>>)
    [] n.c = "Sketch" -> Environment(A, i, h, <<>>, Menu(A, i), TitleLine("Proof sketch.", ""), <<>>)
    [] n.c = "Proof" ->
         Environment(A, i, h, <<>>, MenuZone(RefText(A, i), "no", "yes", Link(A, i)),
                     TitleLine("Proof.", ""), Div(<<"halmos">>, <<>>))
    [] n.c = "Subproof" ->
         IF ~h THEN Node(A, i, "div", <<>>, ks)
         ELSE Open(A, i, "div", SelectSeq(HrMarks(A, i), LAMBDA x : x # "hr-hidden") \o <<"hr-shift-1">>, <<>>)
              \o CollapseZone(FALSE) \o MenuZoneEmpty \o BorderZoneEmpty \o SpacerZone \o Content(ks)
              \o InfoIcon(n.icon) \o C("div")
    [] n.c = "Step" ->
         IF ~h THEN Node(A, i, "div", <<>>, ks)
         ELSE Railed(A, i, <<>>, FALSE, StepMenu(A, i), ks, InfoNumber(A, i, "step-number", "⟨", "⟩"))
    [] n.c \in {"Statement", "ClaimBlock"} -> Node(A, i, "div", <<>>, ks)
    [] n.c = "MathBlock" ->
         LET f == X("$$ ") \o ks \o X(" $$")
         IN IF ~h THEN Node(A, i, "div", <<>>, f)
            ELSE Railed(A, i, <<"hr-hidden", "hr-offset">>, FALSE,
                        MenuZone(IF n.nonum THEN "Equation" ELSE "Equation " \o RefText(A, i), "no", "no", Link(A, i)),
                        f, InfoNumber(A, i, "eqn-number", "(", ")"))
    [] n.c = "Math" ->
         LET f == Node(A, i, "span", <<>>, X("\\(") \o ks \o X("\\)"))
         IN IF h /\ DotAfter(A, i) THEN El("span", <<"inline-math-wrapper">>, X(" ") \o f \o El("span", <<>>, X(".")))
            ELSE f
    [] n.c = "Text" ->
         LET pv == PrevSib(A, i)
         IN IF h /\ pv # 0 /\ A[pv].c = "Math" /\ DotAfter(A, pv) THEN X(SubSeq(n.text, 2, Len(n.text)))
            ELSE IF n.asis /\ A[n.p].c = "Algorithm" THEN Verb(n.raw) ELSE X(n.text)
    [] n.c = "Error" -> Node(A, i, "span", <<>>, X(n.text))
    [] n.c = "SourceCode" -> El("code", IF n.lang = "" THEN <<>> ELSE <<"highlight", n.lang>>, Verb(n.raw))
    [] n.c = "Code" -> X(" ") \o Node(A, i, "span", <<>>, ks) \o X(" ")
    [] n.c = "CodeBlock" -> Node(A, i, "div", <<>>, El("pre", <<>>, ks))
    [] n.c = "Algorithm" -> O("div", n.label, <<"algorithm">>, <<>>) \o El("pre", <<"pseudocode">>, ks) \o C("div")
    [] n.c \in {"Span", "Keyword"} ->
         LET tags == SpanTags(n.flags) IN Node(A, i, "span", <<>>, OpenAll(tags) \o ks \o CloseAll(tags))
    [] n.c = "Construct" -> Node(A, i, "span", <<>>, ks)
    [] n.c = "Note" ->
         X(" ") \o El("span", <<"note">>,
           X(" ") \o El("sup", <<"note__number">>, El("a", <<"note__link">>, X(Num(A, i))))
           \o X(" ") \o O("span", n.label, <<"note__content">>, <<>>) \o ks \o C("span") \o X(" ")) \o X(" ")
    [] n.c = "Draft" -> X(" ") \o Node(A, i, "span", <<>>, X(" [ ") \o ks \o X(" ] ")) \o X(" ")
    [] n.c = "Reference" -> LinkTo(A, i, "#" \o A[n.tn].label, "", RefClasses(A, i), RefShown(A, i))
    [] n.c = "URL" -> LinkTo(A, i, n.tgt, "", n.types, IF n.ow # "" THEN n.ow ELSE n.tgt)
    [] n.c = "Cite" -> CitePart(A, i)
    [] n.c = "Enumerate" -> Node(A, i, "ol", <<>>, ks)
    [] n.c = "Itemize" -> Node(A, i, "ul", <<>>, ks)
    [] n.c = "Item" -> Node(A, i, "li", <<>>, ks)
    [] n.c = "Figure" ->
         Node(A, i, "figure", <<>>,
           V("img", "", <<>>, <<<<"alt", "Figure " \o (IF n.nonum THEN "None" ELSE Num(A, i)) \o ".">>>>
              \o (IF n.scale = "1.0" THEN <<>> ELSE <<<<"onload", "this.width*=" \o n.scale \o ";">>>>)
              \o (IF n.path = "" THEN <<>> ELSE <<<<"src", n.path>>>>)) \o ks)
    [] n.c = "Caption" ->
         LET tag == IF A[n.p].c = "Figure" THEN "figcaption" ELSE "caption"
         IN O(tag, n.label, Dedupe(n.types), <<>>) \o El("span", <<"label">>, X(A[n.p].c \o " " \o Full(A, n.p) \o ". ")) \o ks \o C(tag)
    [] n.c = "Table" -> Node(A, i, "table", <<>>, ks)
    [] n.c = "TableHead" -> Node(A, i, "thead", <<>>, ks)
    [] n.c = "TableBody" -> Node(A, i, "tbody", <<>>, ks)
    [] n.c = "TableRow" -> Node(A, i, "tr", <<>>, ks)
    [] n.c = "TableDatum" -> Node(A, i, "td", <<>>, ks)
    [] n.c = "Appendix" -> <<>>

------------------------------------------------------------------------------
(* What a browser makes of white space: adjacent text is joined, runs of   *)
(* blanks are one blank, and there is none next to a block.                *)
BlockTags == {"body", "div", "section", "p", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "figure",
              "figcaption", "table", "thead", "tbody", "tr", "td", "caption", "svg", "defs", "g",
              "lineargradient", "mask", "stop", "circle", "rect", "img", "pre"}
IsBlock(t) == t[1] \in {"o", "c", "v"} /\ t[2] \in BlockTags

JoinText(a, b) == IF a # "" /\ b # "" /\ Ch(a, Len(a)) = " " /\ Ch(b, 1) = " "
                  THEN a \o SubSeq(b, 2, Len(b)) ELSE a \o b

Merge(ts) ==
  FoldLeft(LAMBDA acc, t :
     IF t[1] = "x" /\ acc # <<>> /\ acc[Len(acc)][1] = "x"
     THEN [acc EXCEPT ![Len(acc)][6] = JoinText(@, t[6])] ELSE Append(acc, t), <<>>, ts)

Normal(ts) ==
  LET m == Merge(ts)
      n == Len(m)
      f(j) == IF m[j][1] # "x" THEN m[j][6]
              ELSE LET l == IF j = 1 \/ IsBlock(m[j - 1]) THEN StripL(m[j][6]) ELSE m[j][6]
                   IN IF j = n \/ IsBlock(m[j + 1]) THEN StripR(l) ELSE l
      g == [j \in 1..n |-> <<m[j][1], m[j][2], m[j][3], m[j][4], m[j][5], f(j)>>]
  IN SelectSeq(g, LAMBDA t : t[1] # "x" \/ t[6] # "")

Page(A, h) == Normal(T(A, 1, h))
=============================================================================
