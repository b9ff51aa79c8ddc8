----------------------------- MODULE ParseTrace -----------------------------
(***************************************************************************)
(* Parsed trees of the real program against the meaning of their sources.  *)
(* A record is [id, doc, pre (the tree as parsed), exc, errs (the number   *)
(* of warnings about errors in the source)].                               *)
(***************************************************************************)
EXTENDS Parse, Json, IOUtils

CONSTANT Props
VARIABLES ri, done
vars == <<ri, done>>

Recs == ndJsonDeserialize(IOEnv.TRACE)
R == Recs[ri]

Say(p, clause, ok, detail) ==
  IF p \in Props /\ ~ok THEN PrintT(<<"FAIL", p, clause, R.id, detail>>) ELSE TRUE

Pre == R.pre
IsText(j) == Pre[j].c \in {"Text", "SourceCode"}
Kids(j) == SelectSeq(Pre[j].k, LAMBDA x : ~IsText(x))
(* the texts between the children that are not texts                       *)
Gaps(j) ==
  FoldLeft(LAMBDA acc, x : IF IsText(x) THEN [acc EXCEPT ![Len(acc)] = @ \o Pre[x].raw] ELSE Append(acc, ""),
           <<"">>, Pre[j].k)
Classes(ks) == [i \in 1..Len(ks) |-> Pre[ks[i]].c]

(* <<expected node, index>> for every node, as far as the trees agree; the *)
(* first place where they do not is <<expected node, index or 0, "!">>     *)
RECURSIVE Pairs(_, _)
Pairs(e, j) ==
  IF Pre[j].c # e.c \/ Len(Kids(j)) # Len(e.ks) THEN <<<<e, j, "!">>>>
  ELSE <<<<e, j, "">>>> \o Concat([i \in 1..Len(e.ks) |-> Pairs(e.ks[i], Kids(j)[i])])

RECURSIVE Drop(_, _)
Drop(s, C) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in C THEN "" ELSE Ch(s, 1)) \o Drop(SubSeq(s, 2, Len(s)), C)
RECURSIVE Runs(_)             (* runs of white space inside are one blank   *)
Runs(s) == IF s = "" THEN ""
           ELSE IF Ch(s, 1) \in Blanks THEN " " \o Runs(TrimL(s)) ELSE Ch(s, 1) \o Runs(SubSeq(s, 2, Len(s)))

Where(e, j) == ToString(<<e.c, j>>)

TextsOk(e, j) ==
  LET g  == Gaps(j)
      cs == Classes(Kids(j))
      Got(i)  == GapOf(g, cs, i)
      Want(i) == GapOf(e.gaps, cs, i)
  IN \A i \in 1..Len(e.gaps) :
       LET x == Got(i)
           y == Want(i)
           d == ToString(<<e.c, j, i, "expected", y, "got", x>>)
           W(s) == Drop(s, Blanks)
           V(s) == Drop(s, {"\\"})
       IN IF Runs(x) = Runs(y) THEN TRUE
          ELSE IF W(V(x)) # W(V(y)) THEN Say("C19", "the text of the element", FALSE, d) /\ Say("C17", "the words", FALSE, d)
                                          /\ (IF W(Drop(x, Markup)) = W(Drop(y, Markup)) THEN Say("C18", "markup characters of a text", FALSE, d) ELSE TRUE)
          ELSE IF Runs(V(x)) # Runs(V(y)) THEN Say("C17", "white space", FALSE, d)
          ELSE Say("C18", "escapes", FALSE, d)

RawOk(e, j) ==
  LET t == SelectSeq(Pre[j].k, LAMBDA x : IsText(x))
      d == ToString(<<e.c, j, "expected", e.raw>>)
  IN /\ Say("C18", "verbatim content", Len(t) = 1 /\ Trim(Pre[t[1]].raw) = e.raw, d)
     /\ (e.c \in {"Code", "CodeBlock"} /\ Len(t) = 1) => Say("C20", "language of the code", Pre[t[1]].lang = e.at.lang, d)

Set(s) == {s[i] : i \in 1..Len(s)}
AttrsOk(e, j) ==
  LET n == Pre[j]
      a == e.at
      S(k, got, want) == Say("C20", k, got = want, ToString(<<e.c, j, "expected", want, "got", got>>))
      T(k, got, want) == Say("C19", k, got = want, ToString(<<e.c, j, "expected", want, "got", got>>))
      title == Runs(Trim(n.title))
      wtitle == Runs(Trim(a.title))
  IN /\ S("label", n.label, a.label) /\ S("types", n.types, a.types) /\ S("nonum", n.nonum, a.nonum)
     /\ IF e.c \in SectionLike \cup {"Manuscript"} /\ title # wtitle /\ Drop(title, {"\\"}) = Drop(wtitle, {"\\"})
        THEN Say("C18", "escapes in a title", FALSE, ToString(<<e.c, j, "expected", wtitle, "got", title>>))
        ELSE S("title", title, wtitle)
     /\ S("icon", n.icon, a.icon) /\ S("reftext", n.rt, a.rt)
     /\ S("lang", n.lang, a.lang)
     /\ S("isclaim", n.claim, a.claim) /\ S("emphasis flags", Set(n.flags), a.flags)
     /\ (e.c = "Figure") => S("path", n.path, a.path) /\ S("scale", n.scale, a.scale)
     /\ (e.c = "Author") => S("author data", n.au, a.au)
     /\ (e.c = "Abstract") => S("keywords", n.kw, a.kw) /\ S("msc", n.msc, a.msc)
     /\ (e.c = "Bibitem") => S("bibliography fields", n.bib, a.bib)
     /\ (e.c \in {"PendingReference", "URL", "PendingPrev"}) => T("target", n.tgt, a.tgt) /\ T("text given", n.ow, a.ow)
     /\ T("cited labels", n.tls, a.tls) /\ T("steps back", n.pk, a.pk)
     /\ (e.c \in {"Construct", "Bibitem", "ClaimBlock"}) => T("kind", n.kind, a.kind)

Check ==
  LET e  == Meaning(R.doc)
      ps == Pairs(e, 1)
      bad == SelectSeq(ps, LAMBDA x : x[3] = "!")
  IN /\ Say("C19", "the source is parsed", R.exc = "", R.exc)
     /\ R.exc = "" =>
          /\ Say("C19", "no warning for a source without errors", R.errs = 0, "")
          /\ bad # <<>> => Say("C19", "nesting and kinds", FALSE,
                 ToString(<<"expected", bad[1][1].c, [i \in 1..Len(bad[1][1].ks) |-> bad[1][1].ks[i].c],
                            "got", Pre[bad[1][2]].c, Classes(Kids(bad[1][2]))>>))
          /\ \A i \in 1..Len(ps) : ps[i][3] = "" =>
               /\ IF ps[i][1].raw = "" THEN TextsOk(ps[i][1], ps[i][2]) ELSE RawOk(ps[i][1], ps[i][2])
               /\ AttrsOk(ps[i][1], ps[i][2])

Init == ri \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED ri /\ Check
Spec == Init /\ [][Next]_vars
=============================================================================
