------------------------------ MODULE Recover ------------------------------
(***************************************************************************)
(* Sources with errors.                                                    *)
(*                                                                         *)
(* The grammar (a separate program) makes a concrete tree S of the source: *)
(* S[i] = [t, k, f, s, pos]: type, children, field name, the text of the   *)
(* piece, and where it starts and ends (line and column, from 0).  What    *)
(* the grammar does not recognise is an "ERROR" node in S.                 *)
(*                                                                         *)
(* Reports(S) are the pieces that must be reported; Story(S) is the text   *)
(* that must be there, in order, with a mark where something is missing.   *)
(***************************************************************************)
EXTENDS Parse

Meta      == {"inlinemeta", "blockmeta", "pair", "bibitem", "bibitempair"}
Opaque    == {"ref", "url", "cite", "previous", "prev", "prev2", "prev3", "author", "bibliography", "appendix"}
Mark(p)   == "[CST error at (" \o ToString(p[1]) \o ", " \o ToString(p[2]) \o ") - (" \o ToString(p[3]) \o ", " \o ToString(p[4]) \o ")]"

(* the tag of a piece: of an inline or a special piece it is its first child *)
TagOf(S, i) ==
  IF S[i].t \in {"specialinline", "specialblock", "inline", "block"} /\ S[i].k # <<>> THEN S[S[i].k[1]].t ELSE S[i].t

(* outermost errors                                                        *)
RECURSIVE ErrorsFrom(_, _)
ErrorsFrom(S, i) == IF S[i].t = "ERROR" THEN <<i>> ELSE IF S[i].t = "bibtex" THEN <<>> ELSE Concat([j \in 1..Len(S[i].k) |-> ErrorsFrom(S, S[i].k[j])])

RECURSIVE StoryFrom(_, _, _)
StoryFrom(S, i, inside) ==       (* inside: of an element without content *)
  CASE S[i].t = "ERROR" -> IF inside THEN "" ELSE Mark(S[i].pos)
    [] S[i].t \in Meta \cup {"bibtex", "comment"} -> ""
    [] S[i].f = "title" -> ""
    [] S[i].t \in {"text", "asis_text"} -> IF inside THEN "" ELSE S[i].s
    [] OTHER -> LET in == inside \/ TagOf(S, i) \in Opaque
                    raw == SelectSeq(S[i].k, LAMBDA j : S[j].t = "asis_text")     (* a verbatim content comes first *)
                    good == SelectSeq(S[i].k, LAMBDA j : S[j].t \notin {"ERROR", "comment"})
                IN FoldLeft(LAMBDA acc, j : acc \o StoryFrom(S, j, in), "",
                            IF S[i].t = "td" THEN SelectSeq(good, LAMBDA j : S[j].t = "tdcontent")
                            ELSE raw \o SelectSeq(S[i].k, LAMBDA j : S[j].t # "asis_text"))

BibError(S) == \E b \in 1..Len(S) : S[b].t = "bibtex" /\ \E j \in 1..Len(S[b].k) : S[S[b].k[j]].t = "ERROR"
Reports(S) == ErrorsFrom(S, 1)
Story(S)   == StoryFrom(S, 1, FALSE)
=============================================================================
