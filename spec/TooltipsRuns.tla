---------------------------- MODULE TooltipsRuns ----------------------------
(***************************************************************************)
(* Links to write: to an element of any kind, with a label of any shape,   *)
(* from any place in which a link can stand.  Every kind of element has a  *)
(* tooltip of its own shape (Shown says which), so that none is left out.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Pairs           \* only some places for a kind and label
Inlines == {"span", "code", "assume", "claim", "note"}
Formulas == {"math"}
Sections == {"section", "subsection", "subsubsection"}
Steps == {"step", "laststep"}
Lists == {"enumerate", "itemize"}
Blocks == {"theorem", "lemma", "corollary", "definition", "proposition", "remark", "example", "exercise", "problem",
           "proof", "sketch", "subproof", "mathblock", "codeblock", "algorithm", "author", "abstract", "paragraph"}
Others == {"figure", "table", "item", "bibitem", "cell", "caption", "tablecaption"}
Kinds == Inlines \cup Formulas \cup Sections \cup Steps \cup Lists \cup Blocks \cup Others
Labels == {"one", "1", "2b", "thm.main", "t-1", "f'", "g(b)", "a+b", "a~b", "x=1", "é", "A_b", "a@b", "sec!", "p|q", "a;b", "-z"}
Places == {"paragraph", "item", "caption", "cell", "theorem", "statement", "note", "span", "quiet"}

Shown(k) ==
  CASE k \in Inlines -> "the text around it"
    [] k \in Sections -> "its title and what comes first"
    [] k \in Steps -> "its statement"
    [] OTHER -> "all of it"
ASSUME \A k \in Kinds : Shown(k) # ""

VARIABLES k, l, p, n
Init == k \in Kinds /\ l \in Labels /\ p \in Places /\ n = 0
Spec == Init /\ [][FALSE]_<<k, l, p, n>>
Plain == l \in {"one", "thm.main", "f'"} \/ p = "paragraph"
Written == (Pairs => Plain) => PrintT(<<"DOC", k, l, p, Shown(k)>>)
=============================================================================
