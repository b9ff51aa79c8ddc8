------------------------------- MODULE Parse -------------------------------
(***************************************************************************)
(* What a source text says.                                                *)
(*                                                                         *)
(* A source is described by what its author wrote: a document d made of    *)
(* blocks and of inline items, each with its metadata and with the white   *)
(* space (sep) that separates it from the item before.  Meaning(d) is the  *)
(* tree that the parser must make of it, whatever the indentation, the     *)
(* line breaks, the comments and the choice between short and long forms.  *)
(*                                                                         *)
(* A node of the tree is [c, at, ks, gaps, raw]: its class, attributes and *)
(* children that are not texts; gaps[i] is the text before the i-th child, *)
(* gaps[Len(ks)+1] the text after the last one; raw is a verbatim content. *)
(***************************************************************************)
EXTENDS Tree

Blanks == {" ", "\n", "\t", "\r"}
RECURSIVE TrimL(_)
TrimL(s) == IF s # "" /\ Ch(s, 1) \in Blanks THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # "" /\ Ch(s, Len(s)) \in Blanks THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

(* The lines of a text are joined by one blank each.                       *)
RECURSIVE JoinLines(_)
JoinLines(s) ==
  LET j == FindFrom(s, "\n", 1)
  IN IF j = 0 THEN s
     ELSE TrimR(SubSeq(s, 1, j - 1)) \o " " \o JoinLines(TrimL(SubSeq(s, j + 1, Len(s))))

Markup == {":", "%", "$", "`", "*", "/", "{", "}", "#"}
RECURSIVE Unescape(_)
Unescape(s) ==
  IF Len(s) < 2 THEN s
  ELSE IF Ch(s, 1) = "\\" /\ Ch(s, 2) \in Markup THEN Ch(s, 2) \o Unescape(SubSeq(s, 3, Len(s)))
  ELSE Ch(s, 1) \o Unescape(SubSeq(s, 2, Len(s)))
RECURSIVE Escape(_)
Escape(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in Markup THEN "\\" ELSE "") \o Ch(s, 1) \o Escape(SubSeq(s, 2, Len(s)))

Prose(s) == Unescape(JoinLines(s))

------------------------------------------------------------------------------
(* Metadata: a sequence of <<key, value>>.                                 *)
Has(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Get(m, k, default) == IF Has(m, k) THEN m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2] ELSE default

Flags == {"strong", "emphas"}
NoBib == [author |-> "", title |-> "", year |-> "", journal |-> "", volume |-> "", publisher |-> "", doi |-> ""]
At(c, m) ==
  [label |-> Get(m, "label", ""), types |-> Get(m, "types", <<>>), nonum |-> Has(m, "nonum"),
   title |-> IF c \in SectionLike \cup {"Manuscript"} THEN Unescape(Trim(Get(m, "title", ""))) ELSE Trim(Get(m, "title", "")),
   icon |-> Get(m, "icon", ""), rt |-> Get(m, "reftext", ClassRef(c)),
   lang |-> Get(m, "lang", ""), claim |-> Has(m, "isclaim"), flags |-> {f \in Flags : Has(m, f)},
   path |-> Get(m, "path", ""), scale |-> Get(m, "scale", "1.0"),
   au |-> [name |-> Get(m, "name", ""), affiliation |-> Get(m, "affiliation", ""), email |-> Get(m, "email", "")],
   kw |-> Get(m, "keywords", <<>>), msc |-> Get(m, "msc", <<>>), bib |-> NoBib,
   tgt |-> "", ow |-> "", tls |-> <<>>, kind |-> "", pk |-> 0]

Node(c, m) == [c |-> c, at |-> At(c, m), ks |-> <<>>, gaps |-> <<"">>, raw |-> ""]
WithKids(n, ks) == [n EXCEPT !.ks = ks, !.gaps = [i \in 1..(Len(ks) + 1) |-> ""]]
WithFlow(n, f) == [n EXCEPT !.ks = f.ks, !.gaps = f.gaps]

Concat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
Map(op(_), s) == [i \in 1..Len(s) |-> op(s[i])]

KeywordOf(k) ==
  CASE k = "let" -> "LET" [] k = "define" -> "DEFINE" [] k = "write" -> "WRITE" [] k = "case" -> "CASE"
    [] k = "then" -> "THEN" [] k = "new" -> "NEW" [] k = "assume" -> "ASSUME" [] k = "prove" -> "PROVE"
    [] k = "pick" -> "PICK" [] k = "suffices" -> "SUFFICES" [] k = "suppose" -> "SUPPOSE" [] k = "wlog" -> "WLOG"
    [] k \in {"claim", "claimblock"} -> "⊢" [] k = "qed" -> "QED" [] k = "st" -> "SUCH THAT"

------------------------------------------------------------------------------
(* Inline items.                                                           *)
KwNode(k) == [Node("Keyword", <<>>) EXCEPT !.gaps = <<KeywordOf(k)>>]
(* A construct starts with its keyword, set off by a blank from a text or a formula. *)
Keyworded(n, k, f) ==
  [n EXCEPT !.at.kind = k,
            !.ks = <<KwNode(k)>> \o f.ks,
            !.gaps = <<"">> \o [i \in 1..Len(f.gaps) |->
               IF i = 1 /\ (f.gaps[1] # "" \/ (f.ks # <<>> /\ f.ks[1].c = "Math")) THEN " " \o f.gaps[1] ELSE f.gaps[i]]]

RECURSIVE Flow(_)
MathBlockNode(x) ==
  LET b == [Node("MathBlock", x.meta) EXCEPT !.raw = Trim(x.s)]
  IN IF Has(x.meta, "isclaim")
     THEN Keyworded(Node("ClaimBlock", <<>>), "claimblock", [ks |-> <<b>>, gaps |-> <<"", "">>])
     ELSE b
CodeNode(c, m, x) == [Node(c, m) EXCEPT !.raw = Trim(x.s)]
SpanOf(f, s) == [Node("Span", <<<<f, TRUE>>>>) EXCEPT !.gaps = <<Prose(s)>>]

Item(x) ==
  CASE x.i = "strong" -> SpanOf("strong", x.s)
    [] x.i = "em"     -> SpanOf("emphas", x.s)
    [] x.i = "span"   -> WithFlow(Node("Span", x.meta), Flow(x.c))
    [] x.i = "math"   -> [Node("Math", x.meta) EXCEPT !.raw = Trim(x.s)]
    [] x.i = "code"   -> CodeNode("Code", IF x.lang = "" THEN x.meta ELSE Append(x.meta, <<"lang", x.lang>>), x)
    [] x.i = "ref"    -> [Node("PendingReference", <<>>) EXCEPT !.at.tgt = x.to, !.at.ow = x.text]
    [] x.i = "url"    -> [Node("URL", <<>>) EXCEPT !.at.tgt = x.to, !.at.ow = x.text]
    [] x.i = "cite"   -> [Node("PendingCite", <<>>) EXCEPT !.at.tls = x.to]
    [] x.i = "prev"   -> [Node("PendingPrev", <<>>) EXCEPT !.at.pk = x.k, !.at.ow = x.text, !.at.tgt = ToString(x.k)]
    [] x.i = "note"   -> WithFlow(Node("Note", x.meta), Flow(x.c))
    [] x.i = "draft"  -> WithFlow(Node("Draft", <<>>), Flow(x.c))
    [] x.i = "construct" -> Keyworded(Node("Construct", x.meta), x.kind, Flow(x.c))
    [] x.i = "qed"    -> Keyworded(Node("Construct", <<>>), "qed", [ks |-> <<>>, gaps |-> <<"">>])
    [] x.i = "mathblock" -> MathBlockNode(x)

(* Items that the source separates are separated by one blank, the others  *)
(* are joined; a comment and a display equation end their line.            *)
Flow(xs) ==
  LET Spaced(i) == i > 1 /\ (\/ xs[i].sep # "" \/ xs[i].i = "mathblock"
                             \/ xs[i - 1].i \in {"mathblock", "comment"}
                             \/ xs[i].i = "comment")
      OnlyComments(i) == \A j \in 1..(i - 1) : xs[j].i = "comment"
      Step(acc, i) ==
        LET x == xs[i]
            lead == IF Spaced(i) /\ ~OnlyComments(i) /\ ~acc.blank THEN " " ELSE ""
            put(t) == [acc.gaps EXCEPT ![Len(acc.gaps)] = @ \o lead \o t]
        IN CASE x.i = "comment" -> [acc EXCEPT !.gaps = put(""), !.blank = acc.blank \/ lead = " "]
             [] x.i = "text"    -> [acc EXCEPT !.gaps = put(Prose(x.s)), !.blank = FALSE]
             [] OTHER           -> [ks |-> Append(acc.ks, Item(x)), gaps |-> Append(put(""), ""), blank |-> FALSE]
  IN FoldLeft(Step, [ks |-> <<>>, gaps |-> <<"">>, blank |-> FALSE], [i \in 1..Len(xs) |-> i])

------------------------------------------------------------------------------
(* Blocks.                                                                 *)
SecClass(l) == CASE l = 1 -> "Section" [] l = 2 -> "Subsection" [] l = 3 -> "Subsubsection"
ThmClass(c) ==
  CASE c = "theorem" -> "Theorem" [] c = "lemma" -> "Lemma" [] c = "corollary" -> "Corollary"
    [] c = "definition" -> "Definition" [] c = "example" -> "Example" [] c = "proposition" -> "Proposition"
    [] c = "remark" -> "Remark" [] c = "exercise" -> "Exercise" [] c = "problem" -> "Problem" [] c = "porism" -> "Porism"

CaptionOf(b) == WithFlow(Node("Caption", b.capm), Flow(b.cap))
RowOf(r) == WithKids(Node("TableRow", <<>>), [i \in 1..Len(r.cells) |-> WithFlow(Node("TableDatum", r.cm[i]), Flow(r.cells[i]))])

(* A display equation where a paragraph would start stands on its own.     *)
RECURSIVE ParOf(_)
ParOf(b) ==
  IF b.inl = <<>> THEN <<>>
  ELSE IF b.inl[1].i = "mathblock" THEN <<MathBlockNode(b.inl[1])>> \o ParOf([b EXCEPT !.inl = Tail(b.inl)])
  ELSE <<WithFlow(Node("Paragraph", b.meta), Flow(b.inl))>>

RECURSIVE Block(_)
Blocks(bs) == Concat(Map(Block, bs))
Block(b) ==                                  (* a sequence of nodes        *)
  CASE b.b = "comment" -> <<>>
    [] b.b = "par"     -> ParOf(b)
    [] b.b = "mathpar" -> <<MathBlockNode(b.c)>>
    [] b.b = "sec"     -> <<WithKids(Node(SecClass(b.lvl), b.meta \o <<<<"title", b.title>>>>), Blocks(b.blocks) \o Blocks(b.secs))>>
    [] b.b = "thm"     -> <<WithKids(Node(ThmClass(b.cls), b.meta), Blocks(b.blocks))>>
    [] b.b = "proof"   -> <<WithKids(Node("Proof", b.meta), Blocks(b.items))>>
    [] b.b = "sketch"  -> <<WithKids(Node("Sketch", b.meta), Blocks(b.blocks))>>
    [] b.b = "step"    -> <<WithKids(Node("Step", b.meta),
                              Blocks(b.pars) \o Blocks(b.subs)
                                \o (IF b.hasp THEN <<WithKids(Node("Subproof", b.p.meta), Blocks(b.p.c))>> ELSE <<>>))>>
    [] b.b = "list"    -> <<WithKids(Node(IF b.kind = "itemize" THEN "Itemize" ELSE "Enumerate", b.meta),
                              Map(LAMBDA it : WithFlow(Node("Item", it.meta), Flow(it.inl)), b.items))>>
    [] b.b = "fig"     -> <<WithKids(Node("Figure", b.meta), IF b.cap = <<>> THEN <<>> ELSE <<CaptionOf(b)>>)>>
    [] b.b = "table"   -> <<WithKids(Node("Table", b.meta),
                              (IF b.head = <<>> THEN <<>> ELSE <<WithKids(Node("TableHead", <<>>), Map(RowOf, b.head))>>)
                              \o <<WithKids(Node("TableBody", <<>>), Map(RowOf, b.body))>>
                              \o (IF b.cap = <<>> THEN <<>> ELSE <<CaptionOf(b)>>))>>
    [] b.b = "code"    -> <<CodeNode("CodeBlock", b.meta, b)>>
    [] b.b = "alg"     -> <<CodeNode("Algorithm", b.meta, b)>>
    [] b.b = "toc"     -> <<Node("Contents", <<>>)>>
    [] b.b = "appx"    -> <<Node("Appendix", <<>>)>>
    [] b.b = "abs"     -> <<WithKids(Node("Abstract", b.meta \o (IF b.kw = <<>> THEN <<>> ELSE <<<<"keywords", b.kw>>>>)
                                                             \o (IF b.msc = <<>> THEN <<>> ELSE <<<<"msc", b.msc>>>>)),
                              Blocks(b.blocks))>>
    [] b.b = "author"  -> <<Node("Author", b.meta \o b.f)>>

BibOf(e) ==
  LET n == Node("Bibitem", <<<<"label", e.key>>>>)
  IN [n EXCEPT !.at.kind = e.kind, !.at.title = Get(e.f, "title", ""), !.at.bib = [k \in DOMAIN NoBib |-> Get(e.f, k, "")]]

Meaning(d) ==
  WithKids(Node("Manuscript", d.meta \o <<<<"title", d.title>>>>),
           Blocks(d.front) \o Blocks(d.blocks) \o Blocks(d.secs)
             \o (IF d.hasbib THEN <<WithKids(Node("Bibliography", <<>>), Map(BibOf, d.bib))>> ELSE <<>>))

------------------------------------------------------------------------------
(* A display equation stands on its own: the white space next to it means  *)
(* nothing.                                                                *)
Display == {"MathBlock", "ClaimBlock"}
GapOf(gaps, ks, i) ==        (* ks: the classes of the children            *)
  LET l == i > 1 /\ ks[i - 1] \in Display
      r == i <= Len(ks) /\ ks[i] \in Display
  IN IF l /\ r THEN Trim(gaps[i]) ELSE IF l THEN TrimL(gaps[i]) ELSE IF r THEN TrimR(gaps[i]) ELSE gaps[i]
=============================================================================
