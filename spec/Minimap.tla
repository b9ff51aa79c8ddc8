------------------------------ MODULE Minimap ------------------------------
(***************************************************************************)
(* The table of contents of a page and its two minimaps: the one beside it *)
(* follows the mouse and the focus, the floating one the place that is     *)
(* being read.  A page has nodes (see Handrails), toc (the entries of the  *)
(* table of contents, in order), marks and floating (how many marks either *)
(* minimap has) and maps (whether there is one, and the floating one; a    *)
(* page without sections has minimaps without marks).                      *)
(*                                                                         *)
(* State m: mouse and read, how many marks are coloured from the top; float*)
(* (the floating one is shown); coll as in Handrails; foc.                 *)
(***************************************************************************)
EXTENDS Handrails

Height == 100            \* of the window

(* its sections in order, and what each of them is part of                 *)
Sections(nodes) == SetToSortSeq({e \in All(nodes) : nodes[e].tag = "section"
                           /\ \E c \in {"section", "subsection", "subsubsection"} : Is(nodes, e, c)}, <)
Prepared(raw) == [nodes |-> raw.nodes, toc |-> raw.toc, marks |-> raw.marks, floating |-> raw.floating, maps |-> raw.maps,
                  secs |-> Sections(raw.nodes),
                  up |-> [k \in DOMAIN Sections(raw.nodes) |-> {Sections(raw.nodes)[k]} \cup Above(raw.nodes, Sections(raw.nodes)[k])],
                  hidden |-> AlwaysHidden(raw.nodes)]
Secs(G) == G.secs
Start(G) == [mouse |-> G.marks, read |-> G.floating, float |-> G.maps[2], coll |-> {}, foc |-> 0]

(* the entry an element is part of (0: none): the innermost one            *)
Entry(G, e) == LET S == {k \in DOMAIN G.toc : e = G.toc[k] \/ G.toc[k] \in Above(G.nodes, e)} IN IF S = {} THEN 0 ELSE Max(S)
IsTocLink(G, e) == e # 0 /\ Entry(G, e) # 0 /\ G.nodes[e].tag = "a"

(* what is in view: rects is a sequence of <<element, top, height>>        *)
InView(top, height) == top < Height /\ top + height > 0
InUpperHalf(top, height) == 2 * top < Height /\ top + height > 0
Reading(G, m, rects) ==
  LET h == G.hidden \cup UNION {Hides(G.nodes, e) : e \in m.coll}
      S == {k \in DOMAIN Secs(G) : (\E r \in Range(rects) : r[1] = Secs(G)[k] /\ InUpperHalf(r[2], r[3])) /\ G.up[k] \cap h = {}}
  IN IF S = {} THEN 0 ELSE Max(S)

Scrolled(G, m, rects, top, height) ==
  LET both == G.maps[1] /\ G.maps[2]
      f == IF both THEN ~InView(top, height) ELSE m.float
  IN [m EXCEPT !.float = f, !.read = IF f THEN Reading(G, m, rects) ELSE @]
AfterFocus(G, m, e) == [m EXCEPT !.foc = e, !.mouse = IF IsTocLink(G, e) /\ e # m.foc /\ G.marks > 0 THEN Entry(G, e) ELSE @]

Acts(G, m, a) ==
  CASE a[1] = "hover" -> [m EXCEPT !.mouse = IF G.marks > 0 THEN Entry(G, a[2]) ELSE @]
    [] a[1] = "scroll" -> Scrolled(G, m, a[2], a[3], a[4])
    [] a[1] = "click" -> AfterFocus(G, m, a[2])
    [] a[1] = "toggle" -> [AfterFocus(G, m, a[2]) EXCEPT !.coll = Toggled(m, a[2]).coll]
    [] OTHER -> m
=============================================================================
