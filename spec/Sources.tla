------------------------------ MODULE Sources ------------------------------
(***************************************************************************)
(* Writing a source.  An author writes, at one place of a document, one    *)
(* thing after the other: inline items (family "inline"), blocks           *)
(* ("blocks"), metadata entries of an element ("meta"), or the characters  *)
(* of a text ("chars") or of a verbatim content ("verbatim").  TLC         *)
(* enumerates everything that can be written with MaxLen things, checks    *)
(* below what Meaning makes of it, and prints each document, which is then *)
(* written out as a source and given to the real parser.                   *)
(***************************************************************************)
EXTENDS Parse, Json

CONSTANTS Family, MaxLen
VARIABLES where, xs
vars == <<where, xs>>

------------------------------------------------------------------------------
T(s)     == [i |-> "text", s |-> s, sep |-> ""]
Par(inl) == [b |-> "par", meta |-> <<>>, inl |-> inl]
EmptyDoc == [title |-> "", titleform |-> "hash", meta |-> <<>>, front |-> <<>>, blocks |-> <<>>, secs |-> <<>>,
             hasbib |-> FALSE, bib |-> <<>>]
Step(m, pars, subs) == [b |-> "step", meta |-> m, pars |-> pars, subs |-> subs, hasp |-> FALSE, p |-> [meta |-> <<>>, c |-> <<>>]]
StepP(m, pars, pm, c) == [b |-> "step", meta |-> m, pars |-> pars, subs |-> <<>>, hasp |-> TRUE, p |-> [meta |-> pm, c |-> c]]
Proof(m, items) == [b |-> "proof", meta |-> m, items |-> items]
Thm(c, m, bs)  == [b |-> "thm", cls |-> c, meta |-> m, blocks |-> bs]
Sec(l, f, m, bs, secs) == [b |-> "sec", lvl |-> l, form |-> f, title |-> IF Has(m, "title") THEN "" ELSE "S", meta |-> m, blocks |-> bs, secs |-> secs]
List(k, m, items) == [b |-> "list", kind |-> k, meta |-> m, items |-> items]
It(m, inl)     == [meta |-> m, inl |-> inl]
Fig(m, cap)    == [b |-> "fig", meta |-> m, cap |-> cap, capm |-> <<>>]
Row(short, cells) == [short |-> short, cells |-> cells, cm |-> [i \in 1..Len(cells) |-> <<>>]]
Table(m, head, body, cap) == [b |-> "table", meta |-> m, head |-> head, body |-> body, cap |-> cap, capm |-> <<>>]
Code(m, s)     == [b |-> "code", meta |-> m, s |-> s]
Alg(m, s)      == [b |-> "alg", meta |-> m, s |-> s]
Sketch(m, bs)  == [b |-> "sketch", meta |-> m, blocks |-> bs]
Abs(m, bs)     == [b |-> "abs", meta |-> m, kw |-> <<>>, msc |-> <<>>, blocks |-> bs]
Author(m)      == [b |-> "author", meta |-> m, f |-> <<>>]
MathB(m, s, long) == [i |-> "mathblock", meta |-> m, s |-> s, long |-> long, sep |-> "\n"]
MathPar(m, s, long) == [b |-> "mathpar", c |-> MathB(m, s, long)]
Say1 == Par(<<T("so")>>)

------------------------------------------------------------------------------
(* Inline items.                                                           *)
Items ==
  {[i |-> "text", s |-> "a b"], [i |-> "text", s |-> "."],
   [i |-> "strong", s |-> "c"], [i |-> "em", s |-> "d"],
   [i |-> "span", meta |-> <<>>, c |-> <<T("e")>>],
   [i |-> "span", meta |-> <<<<"strong", TRUE>>>>, c |-> <<[i |-> "em", s |-> "f", sep |-> ""], [i |-> "text", s |-> "g", sep |-> " "]>>],
   [i |-> "math", meta |-> <<>>, s |-> "x", long |-> FALSE], [i |-> "math", meta |-> <<>>, s |-> "y", long |-> TRUE],
   [i |-> "code", meta |-> <<>>, s |-> "k", lang |-> ""],
   [i |-> "ref", to |-> "r", text |-> ""], [i |-> "ref", to |-> "r", text |-> "s t"],
   [i |-> "url", to |-> "http://u.org", text |-> ""], [i |-> "cite", to |-> <<"v", "w">>],
   [i |-> "note", meta |-> <<>>, c |-> <<T("m")>>], [i |-> "draft", c |-> <<T("n")>>],
   [i |-> "construct", kind |-> "let", meta |-> <<>>, c |-> <<T("p")>>],
   [i |-> "construct", kind |-> "claim", meta |-> <<>>, c |-> <<[i |-> "em", s |-> "q", sep |-> ""]>>],
   [i |-> "qed"], [i |-> "comment", s |-> "no"]}
Displays == {[i |-> "mathblock", meta |-> <<>>, s |-> "z", long |-> FALSE]}
Seps == {"", " ", "\t", "\n", "\n  "}

Places == {"paragraph", "item", "caption", "span", "note"}
InlineDoc(w, inl) ==
  CASE w = "paragraph" -> <<Par(inl)>>
    [] w = "item"      -> <<List("itemize", <<>>, <<It(<<>>, <<T("so")>>), It(<<>>, inl)>>)>>
    [] w = "caption"   -> <<Fig(<<<<"path", "a.png">>>>, inl)>>
    [] w = "span"      -> <<Par(<<T("so"), [i |-> "span", meta |-> <<>>, c |-> inl, sep |-> " "]>>)>>
    [] w = "note"      -> <<Par(<<T("so"), [i |-> "note", meta |-> <<>>, c |-> inl, sep |-> ""]>>)>>

(* what may stand next to each other                                       *)
Fits(w, inl, x, sep) ==
  LET n == Len(inl)
      first == n = 0
      l == inl[n]
  IN /\ first => sep = "" /\ x.i \notin {"comment", "mathblock"}
     /\ ~first => ~(x.i = "text" /\ l.i = "text")
     /\ x.i = "comment" => ~first /\ sep = " " /\ l.i # "comment" /\ w = "paragraph"
     /\ (~first /\ l.i = "comment") => sep = "\n"
     /\ x.i = "mathblock" => sep = "\n" /\ w \in {"paragraph", "item"}
     /\ (~first /\ l.i = "mathblock") => sep = "\n"

------------------------------------------------------------------------------
(* Metadata.                                                               *)
Common == {<<"label", "lab">>, <<"types", <<"t1">>>>, <<"types", <<"t1", "t2", "t3">>>>}
NoNum  == {<<"nonum", TRUE>>}
RefT   == {<<"reftext", "The big one">>}
Icon   == {<<"icon", "star">>}
Title  == {<<"title", "Some title">>}
Emph   == {<<"strong", TRUE>>, <<"emphas", TRUE>>}
Holders == {"section", "subsection", "theorem", "definition", "proof", "sketch", "step", "subproof", "enumerate", "item",
            "paragraph", "span", "math", "mathblock", "longmathblock", "code", "note", "construct", "figure", "table",
            "codeblock", "algorithm", "abstract", "author", "caption", "tablecaption", "cell"}
KeysOf(w) ==
  Common \cup RefT \cup
  CASE w = "section" -> NoNum \cup Icon
    [] w = "subsection" -> NoNum \cup Title \cup Icon
    [] w \in {"theorem", "definition"} -> NoNum \cup Title \cup Icon
    [] w \in {"proof", "sketch"}       -> Icon
    [] w \in {"step"}                  -> Icon
    [] w = "paragraph"                 -> Title \cup Icon
    [] w = "span"                      -> Emph
    [] w \in {"mathblock", "longmathblock"} -> NoNum \cup {<<"isclaim", TRUE>>}
    [] w = "code"                      -> {<<"lang", "python">>}
    [] w = "codeblock"                 -> {<<"lang", "python">>}
    [] w = "figure"                    -> NoNum \cup {<<"path", "b/c.png">>, <<"scale", "0.5">>}
    [] w \in {"table", "algorithm"}    -> NoNum
    [] w = "abstract"                  -> {<<"keywords", <<"one", "two words">>>>, <<"msc", <<"11A">>>>}
    [] w = "author"                    -> {<<"name", "Ann Author">>, <<"affiliation", "Univ of X">>, <<"email", "a@x.org">>}
    [] OTHER                           -> {}
Inl(x) == Par(<<T("so"), x @@ [sep |-> " "]>>)
HolderDoc(w, m) ==
  CASE w = "section"    -> <<Sec(1, "hash", m, <<Say1>>, <<>>)>>
    [] w = "subsection" -> <<Sec(1, "tag", <<>>, <<Say1>>, <<Sec(2, "tag", m, <<Say1>>, <<>>)>>)>>
    [] w = "theorem"    -> <<Thm("theorem", m, <<Say1>>)>>
    [] w = "definition" -> <<Thm("definition", m, <<Say1>>)>>
    [] w = "proof"      -> <<Proof(m, <<Step(<<>>, <<Say1>>, <<>>)>>)>>
    [] w = "sketch"     -> <<Sketch(m, <<Say1>>)>>
    [] w = "step"       -> <<Proof(<<>>, <<Step(m, <<Say1>>, <<>>)>>)>>
    [] w = "subproof"   -> <<Proof(<<>>, <<StepP(<<>>, <<Say1>>, m, <<Say1>>)>>)>>
    [] w = "enumerate"  -> <<List("enumerate", m, <<It(<<>>, <<T("so")>>)>>)>>
    [] w = "item"       -> <<List("enumerate", <<>>, <<It(m, <<T("so")>>), It(<<>>, <<T("si")>>)>>)>>
    [] w = "paragraph"  -> <<[b |-> "par", meta |-> m, inl |-> <<T("so")>>], Say1>>
    [] w = "span"       -> <<Inl([i |-> "span", meta |-> m, c |-> <<T("e")>>])>>
    [] w = "math"       -> <<Inl([i |-> "math", meta |-> m, s |-> "x", long |-> FALSE])>>
    [] w = "mathblock"  -> <<Inl([i |-> "mathblock", meta |-> m, s |-> "x", long |-> FALSE])>>
    [] w = "longmathblock" -> <<MathPar(m, "x", TRUE)>>
    [] w = "code"       -> <<Inl([i |-> "code", meta |-> m, s |-> "x", lang |-> ""])>>
    [] w = "note"       -> <<Inl([i |-> "note", meta |-> m, c |-> <<T("m")>>])>>
    [] w = "construct"  -> <<Inl([i |-> "construct", kind |-> "assume", meta |-> m, c |-> <<T("p")>>])>>
    [] w = "figure"     -> <<Fig(m, <<T("so")>>)>>
    [] w = "caption"    -> <<[Fig(<<<<"path", "a.png">>>>, <<T("so")>>) EXCEPT !.capm = m]>>
    [] w = "tablecaption" -> <<[Table(<<>>, <<>>, <<Row(TRUE, <<<<T("a")>>>>)>>, <<T("so")>>) EXCEPT !.capm = m]>>
    [] w = "table"      -> <<Table(m, <<>>, <<Row(TRUE, <<<<T("a")>>>>)>>, <<T("so")>>)>>
    [] w = "cell"       -> <<Table(<<>>, <<>>, <<[Row(FALSE, <<<<T("a")>>, <<T("b")>>>>) EXCEPT !.cm[1] = m]>>, <<T("so")>>)>>
    [] w = "codeblock"  -> <<Code(m, "x = 1")>>
    [] w = "algorithm"  -> <<Alg(m, "x = 1")>>
    [] w = "abstract"   -> <<Abs(m, <<Say1>>)>>
    [] w = "author"     -> <<Author(m)>>

(* an element that has to have something in order to be written            *)
MetaFits(w, m) ==
  /\ (w \in {"code"} => m # <<>>)
  /\ w = "figure" => Has(m, "path")

------------------------------------------------------------------------------
(* Blocks.                                                                 *)
Cell(x) == <<T(x)>>
BlockTokens ==
  {Say1, MathPar(<<>>, "z", FALSE), Thm("theorem", <<>>, <<Say1>>), Thm("remark", <<<<"title", "Bar">>>>, <<Say1, Thm("lemma", <<>>, <<Say1>>)>>),
   Proof(<<>>, <<Step(<<>>, <<Say1>>, <<>>), Say1>>), Sketch(<<>>, <<Say1>>),
   List("itemize", <<>>, <<It(<<>>, <<T("so")>>), It(<<>>, <<T("si")>>)>>),
   Fig(<<<<"path", "a.png">>>>, <<>>),
   Table(<<>>, <<Row(TRUE, <<Cell("a"), Cell("b")>>)>>, <<Row(FALSE, <<Cell("c"), Cell("d")>>), Row(TRUE, <<Cell("e"), Cell("f")>>)>>, <<T("so")>>),
   Code(<<>>, "x = 1"), Alg(<<>>, "x = 1"), [b |-> "comment", s |-> "no"],
   Step(<<>>, <<Say1>>, <<>>), Step(<<>>, <<Say1>>, <<Step(<<>>, <<Say1>>, <<>>)>>), StepP(<<>>, <<Say1, Say1>>, <<>>, <<Step(<<>>, <<Say1>>, <<>>)>>),
   [b |-> "toc"], [b |-> "appx"], Abs(<<>>, <<Say1>>), Author(<<<<"name", "Ann">>>>),
   Sec(1, "hash", <<>>, <<Say1>>, <<>>), Sec(1, "tag", <<>>, <<>>, <<Sec(2, "tag", <<>>, <<Say1>>, <<Sec(3, "tag", <<>>, <<Say1>>, <<>>)>>)>>),
   Sec(2, "hash", <<>>, <<Say1>>, <<>>), Sec(2, "tag", <<>>, <<Say1>>, <<>>), Sec(3, "hash", <<>>, <<>>, <<>>)}
BlockPlaces == {"document", "hash section", "tag section", "tag subsection", "theorem", "sketch", "proof", "step", "subproof"}
Plain(b)   == b.b \in {"par", "mathpar", "thm", "proof", "sketch", "list", "fig", "table", "code", "alg", "comment"}
BlockFits(w, s, x) ==
  LET l == s[Len(s)]
      secs == \E i \in 1..Len(s) : s[i].b = "sec"
  IN CASE x.b = "sec" -> /\ w \in {"document", "hash section", "tag section", "tag subsection"}
                         /\ (w = "document") = (x.lvl = 1) /\ (w \in {"hash section", "tag section"}) = (x.lvl = 2)
                         /\ w = "hash section" => x.form = "hash" 
                         /\ w \in {"tag section", "tag subsection"} => (x.form = IF x.lvl = 3 THEN "hash" ELSE "tag")
       [] x.b \in {"toc", "abs", "author"} -> w = "document" /\ ~secs
       [] x.b = "appx" -> w = "document"
       [] x.b = "step" -> w \in {"proof", "step", "subproof"}
       [] OTHER        -> /\ Plain(x) /\ ~secs
                          /\ w = "step" => x.b = "par" /\ \A i \in 1..Len(s) : s[i].b = "par"
                          /\ ~(x.b = "appx")
BlockDoc(w, s) ==
  LET secs == SelectSeq(s, LAMBDA b : b.b \in {"sec", "appx"})
      rest == SelectSeq(s, LAMBDA b : b.b \notin {"sec", "appx"})
      pars == SelectSeq(s, LAMBDA b : b.b # "step")
      subs == SelectSeq(s, LAMBDA b : b.b = "step")
  IN CASE w = "document" -> [EmptyDoc EXCEPT !.blocks = s]
       [] w = "hash section" -> [EmptyDoc EXCEPT !.secs = <<Sec(1, "hash", <<>>, rest, secs), Sec(1, "hash", <<>>, <<>>, <<>>)>>]
       [] w = "tag section" -> [EmptyDoc EXCEPT !.secs = <<Sec(1, "tag", <<>>, rest, secs), Sec(1, "tag", <<>>, <<>>, <<>>)>>]
       [] w = "tag subsection" -> [EmptyDoc EXCEPT !.secs = <<Sec(1, "tag", <<>>, <<>>, <<Sec(2, "tag", <<>>, rest, [i \in 1..Len(secs) |-> [secs[i] EXCEPT !.form = "tag"]])>>)>>]
       [] w = "theorem" -> [EmptyDoc EXCEPT !.blocks = <<Thm("theorem", <<>>, s), Say1>>]
       [] w = "sketch"  -> [EmptyDoc EXCEPT !.blocks = <<Sketch(<<>>, s), Say1>>]
       [] w = "proof"   -> [EmptyDoc EXCEPT !.blocks = <<Proof(<<>>, s), Say1>>]
       [] w = "step"    -> [EmptyDoc EXCEPT !.blocks = <<Proof(<<>>, <<Step(<<>>, <<Say1>> \o pars, subs), Step(<<>>, <<Say1>>, <<>>)>>)>>]
       [] w = "subproof" -> [EmptyDoc EXCEPT !.blocks = <<Proof(<<>>, <<StepP(<<>>, <<Say1>>, <<>>, s), Step(<<>>, <<Say1>>, <<>>)>>)>>]

------------------------------------------------------------------------------
(* Characters.                                                             *)
CharPlaces == {"paragraph", "span", "section", "title"}
CharTokens == {"a", " ", "\n"} \cup {"\\" \o c : c \in Markup}
CharDoc(w, s) ==
  CASE w = "paragraph" -> [EmptyDoc EXCEPT !.blocks = <<Par(<<T(s)>>)>>]
    [] w = "span"      -> [EmptyDoc EXCEPT !.blocks = <<Par(<<T("so"), [i |-> "span", meta |-> <<>>, c |-> <<T(s)>>, sep |-> " "]>>)>>]
    [] w = "section"   -> [EmptyDoc EXCEPT !.secs = <<[Sec(1, "hash", <<>>, <<Say1>>, <<>>) EXCEPT !.title = s]>>]
    [] w = "title"     -> [EmptyDoc EXCEPT !.title = s, !.titleform = "meta"]
Str(s) == FoldLeft(LAMBDA acc, x : acc \o x, "", s)
CharFits(w, s, x) ==
  /\ (s = <<>> => x \notin {" ", "\n"})
  /\ x \in {" ", "\n"} => s # <<>> /\ s[Len(s)] \notin {" ", "\n"}
  /\ (w \in {"section", "title"} => x # "\n")

VerbPlaces == {"math", "longmath", "mathblock", "longmathblock", "code", "codeblock", "highlighted", "algorithm"}
VerbTokens == {"x", " ", "\t", "\n", "  ", "\n  ", "\n\n", ":", "*", "/", "%", "#", "\\", "{", "}", "$", "`", "\\:", "\\$", "\\\\"}
VBlank == {" ", "\t", "\n", "  ", "\n  ", "\n\n"}
VerbFits(w, s, x) ==
  /\ s = <<>> => x = "x"                       (* a content does not start with markup ... *)
  /\ w = "math" => x \notin {"$", "\\$"}       (* ... and does not hold what ends it *)
  /\ w = "code" => x # "`"
  /\ (w = "mathblock" /\ x \in {"$", "\\$"}) => IF s = <<>> THEN TRUE ELSE s[Len(s)] \notin {"$", "\\$"}
  /\ x \in VBlank => s # <<>> /\ s[Len(s)] \notin VBlank
  /\ x = ":" => IF s = <<>> THEN TRUE ELSE s[Len(s)] \notin {":", "\\:"}
VerbDoc(w, s) ==
  CASE w = "math"      -> [EmptyDoc EXCEPT !.blocks = <<Inl([i |-> "math", meta |-> <<>>, s |-> s, long |-> FALSE])>>]
    [] w = "longmath"  -> [EmptyDoc EXCEPT !.blocks = <<Inl([i |-> "math", meta |-> <<>>, s |-> s, long |-> TRUE])>>]
    [] w = "mathblock" -> [EmptyDoc EXCEPT !.blocks = <<Inl([i |-> "mathblock", meta |-> <<>>, s |-> s, long |-> FALSE])>>]
    [] w = "longmathblock" -> [EmptyDoc EXCEPT !.blocks = <<MathPar(<<>>, s, TRUE)>>]
    [] w = "code"      -> [EmptyDoc EXCEPT !.blocks = <<Inl([i |-> "code", meta |-> <<>>, s |-> s, lang |-> ""])>>]
    [] w = "codeblock" -> [EmptyDoc EXCEPT !.blocks = <<Code(<<>>, s)>>]
    [] w = "highlighted" -> [EmptyDoc EXCEPT !.blocks = <<Code(<<<<"lang", "python">>>>, s)>>]
    [] w = "algorithm" -> [EmptyDoc EXCEPT !.blocks = <<Alg(<<>>, s)>>]

------------------------------------------------------------------------------
(* What a linter looks at: titles, labels of sections, display equations.  *)
LintPlaces == {"titled", "untitled"}
Lab(l) == IF l = "" THEN <<>> ELSE <<<<"label", l>>>>
Disp == MathPar(<<>>, "z", FALSE)
Eq   == [i |-> "mathblock", meta |-> <<>>, s |-> "z", long |-> FALSE, sep |-> "\n"]
LintTokens ==
  {Sec(l, "hash", Lab(a), <<>>, <<>>) : l \in 1..3, a \in {"", "a", "b"}}
    \cup {Say1, Disp, MathPar(<<>>, "z", TRUE), Par(<<T("so"), Eq, [i |-> "text", s |-> "si", sep |-> "\n"]>>),
          Thm("theorem", <<>>, <<Disp, Par(<<T("so"), Eq>>)>>), Thm("lemma", Lab("a"), <<Say1>>),
          Proof(<<>>, <<Step(<<>>, <<Par(<<Eq>>), Par(<<T("so"), Eq>>)>>, <<Step(<<>>, <<Par(<<Eq>>)>>, <<>>)>>)>>),
          List("itemize", <<>>, <<It(<<>>, <<T("so"), Eq>>)>>)}
LintFits(s, x) ==
  LET ls == {i \in 1..Len(s) : s[i].b = "sec"}
      l  == IF ls = {} THEN 0 ELSE s[CHOOSE i \in ls : \A j \in ls : j <= i].lvl
  IN x.b = "sec" => x.lvl <= l + 1
(* the blocks between two headings belong to the first one                 *)
LintDoc(w, s) ==
  LET head == {i \in 1..Len(s) : s[i].b = "sec"}
      Next1(i) == LET l == {j \in head : j > i} IN IF l = {} THEN Len(s) + 1 ELSE CHOOSE j \in l : \A m \in l : j <= m
  IN [EmptyDoc EXCEPT !.title = IF w = "titled" THEN "T" ELSE "", !.blocks = SubSeq(s, 1, Next1(0) - 1),
                      !.secs = FoldLeft(LAMBDA acc, i : IF i \in head
                                          THEN Append(acc, [s[i] EXCEPT !.blocks = SubSeq(s, i + 1, Next1(i) - 1)]) ELSE acc,
                                        <<>>, [i \in 1..Len(s) |-> i])]

------------------------------------------------------------------------------
AllPlaces ==
  CASE Family = "inline"   -> Places
    [] Family = "meta"     -> Holders
    [] Family = "blocks"   -> BlockPlaces
    [] Family = "chars"    -> CharPlaces
    [] Family = "verbatim" -> VerbPlaces
    [] Family = "lint"     -> LintPlaces

Init == where \in AllPlaces /\ xs = <<>>

Write ==
  /\ Len(xs) < MaxLen
  /\ CASE Family = "inline" -> \E x \in Items \cup Displays, s \in Seps : Fits(where, xs, x, s) /\ xs' = Append(xs, x @@ [sep |-> s])
       [] Family = "meta"   -> \E e \in KeysOf(where) : ~Has(xs, e[1]) /\ xs' = Append(xs, e)
       [] Family = "blocks" -> \E x \in BlockTokens : BlockFits(where, xs, x) /\ xs' = Append(xs, x)
       [] Family = "chars"  -> \E x \in CharTokens : CharFits(where, xs, x) /\ xs' = Append(xs, x)
       [] Family = "verbatim" -> \E x \in VerbTokens : VerbFits(where, xs, x) /\ xs' = Append(xs, x)
       [] Family = "lint"   -> \E x \in LintTokens : LintFits(xs, x) /\ xs' = Append(xs, x)
  /\ UNCHANGED where

Complete ==
  CASE Family = "inline"   -> xs # <<>> /\ xs[Len(xs)].i # "comment" /\ (where = "caption" => xs[1].i # "mathblock")
    [] Family = "meta"     -> MetaFits(where, xs)
    [] Family = "blocks"   -> xs # <<>>
    [] Family = "chars"    -> xs # <<>> /\ xs[Len(xs)] \notin {" ", "\n"}
    [] Family = "verbatim" -> xs # <<>> /\ xs[Len(xs)] \notin VBlank
    [] Family = "lint"     -> TRUE
Doc ==
  CASE Family = "inline"   -> [EmptyDoc EXCEPT !.blocks = InlineDoc(where, xs)]
    [] Family = "meta"     -> [EmptyDoc EXCEPT !.blocks = HolderDoc(where, xs)]
    [] Family = "blocks"   -> BlockDoc(where, xs)
    [] Family = "chars"    -> CharDoc(where, Str(xs))
    [] Family = "verbatim" -> VerbDoc(where, Str(xs))
    [] Family = "lint"     -> LintDoc(where, xs)

Spec == Init /\ [][Write]_vars

------------------------------------------------------------------------------
(* What Meaning must make of it, said independently of how it computes it. *)
RECURSIVE All(_)
All(n) == <<n>> \o Concat([i \in 1..Len(n.ks) |-> All(n.ks[i])])
M == All(Meaning(Doc))

(* C17: the texts and things are those written, set off exactly where the  *)
(* source sets them off.                                                   *)
RECURSIVE Flat(_)             (* what a reader sees, things as marks       *)
Flat(n) ==
  IF n.raw # "" THEN "[" \o n.raw \o "]"
  ELSE IF n.c \in PendingLike \cup {"URL"} THEN "@"
  ELSE FoldLeft(LAMBDA acc, i : acc \o n.gaps[i] \o (IF i <= Len(n.ks) THEN Flat(n.ks[i]) ELSE ""), "", [i \in 1..Len(n.gaps) |-> i])
Shown(x) ==
  CASE x.i = "text" -> x.s
    [] x.i \in {"strong", "em"} -> x.s
    [] x.i = "span" -> IF x.meta = <<>> THEN "e" ELSE "f g"
    [] x.i \in {"math", "mathblock", "code"} -> "[" \o x.s \o "]"
    [] x.i \in {"ref", "cite", "url"} -> "@"
    [] x.i = "note" -> "m" [] x.i = "draft" -> "n" [] x.i = "qed" -> "QED" [] x.i = "comment" -> ""
    [] x.i = "construct" -> IF x.kind = "let" THEN "LET p" ELSE "⊢q"
Holder == CASE where = "paragraph" -> M[2] [] where = "item" -> M[4] [] where = "caption" -> M[3] [] OTHER -> M[3]
RECURSIVE NoBlanks(_)
NoBlanks(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in Blanks THEN "" ELSE Ch(s, 1)) \o NoBlanks(SubSeq(s, 2, Len(s)))
RECURSIVE Blanked(_)           (* the words between the blanks             *)
Blanked(s) == IF s = "" THEN TRUE ELSE ~(Len(s) > 1 /\ Ch(s, 1) \in Blanks /\ Ch(s, 2) \in Blanks) /\ Blanked(SubSeq(s, 2, Len(s)))

WordsKept ==
  (Family = "inline" /\ Complete) =>
  LET got  == Flat(Holder)
      real == SelectSeq(xs, LAMBDA x : x.i # "comment")
      want == FoldLeft(LAMBDA acc, i : acc \o (IF i > 1 /\ xs[i].sep # "" THEN " " ELSE "") \o Shown(xs[i]), "", [i \in 1..Len(xs) |-> i])
  IN /\ NoBlanks(got) = NoBlanks(want)
     /\ (\A i \in 1..Len(xs) : xs[i].i # "comment") => got = want
     /\ Trim(got) = got /\ Blanked(got)

(* Where the lines are broken does not matter.                             *)
LayoutFree ==
  (Family = "inline" /\ Complete) =>
  \A s \in Seps \ {""} :
    Meaning([EmptyDoc EXCEPT !.blocks = InlineDoc(where, [i \in 1..Len(xs) |-> IF xs[i].sep = "" THEN xs[i] ELSE [xs[i] EXCEPT !.sep = s]])])
      = Meaning(Doc)

(* C19: one node for each construct.                                       *)
NodesRight ==
  (Family = "inline" /\ Complete) =>
  Len(Holder.ks) = Cardinality({i \in 1..Len(xs) : xs[i].i \notin {"text", "comment"}})

(* C20: the metadata are on their element and on no other, and their order *)
(* does not matter.                                                        *)
MetaRight ==
  (Family = "meta" /\ Complete) =>
  /\ \A i \in 1..Len(M) : M[i].at.label = "lab" => \A j \in 1..Len(M) : M[j].at.label = "lab" => i = j
  /\ Cardinality({i \in 1..Len(M) : M[i].at.label = "lab"}) = (IF Has(xs, "label") THEN 1 ELSE 0)
  /\ Cardinality({i \in 1..Len(M) : M[i].at.nonum}) = (IF Has(xs, "nonum") THEN 1 ELSE 0)
  /\ Meaning([EmptyDoc EXCEPT !.blocks = HolderDoc(where, Reverse(xs))]) = Meaning(Doc)

(* C18: escaping and resolving undo each other, and what is escaped is     *)
(* what is read.                                                           *)
EscapesRight ==
  (Family = "chars" /\ Complete) =>
  LET s == JoinLines(Str(xs))
      u == Unescape(s)
  IN /\ Unescape(Escape(u)) = u
     /\ Len(s) - Len(u) = Cardinality({i \in 1..Len(xs) : Len(xs[i]) = 2})
VerbatimRight ==
  (Family = "verbatim" /\ Complete) => \E i \in 1..Len(M) : M[i].raw = Str(xs)

Printed == Complete => PrintT(<<"DOC", ToJson(Doc)>>)
=============================================================================
