------------------------------- MODULE Pages -------------------------------
(***************************************************************************)
(* Ways of looking at a page (a sequence of tokens, see Translate), and    *)
(* what must be true of any page.                                          *)
(***************************************************************************)
EXTENDS Translate

------------------------------------------------------------------------------
(* Looking at tokens.                                                      *)
Has(t, c) == \E j \in 1..Len(t[4]) : t[4][j] = c
HasAny(t, cs) == \E j \in 1..Len(t[4]) : t[4][j] \in cs
Attr(t, k) == LET s == SelectSeq(t[5], LAMBDA a : a[1] = k) IN IF s = <<>> THEN "" ELSE s[1][2]
Nid(t) == Attr(t, "data-nodeid")
IsOpen(t) == t[1] \in {"o", "v"}

RECURSIVE Atoi(_)
Atoi(s) == IF s = "" THEN 0 ELSE 10 * Atoi(SubSeq(s, 1, Len(s) - 1)) + FindFrom("0123456789", Ch(s, Len(s)), 1) - 1

(* the tokens inside (if yes) or outside of the outermost elements with P  *)
Regions(ts, P(_), yes) ==
  FoldLeft(LAMBDA s, t :
     LET inside == s.d > 0 \/ (t[1] = "o" /\ P(t)) \/ (t[1] = "v" /\ P(t))
         d == IF s.d > 0 THEN (CASE t[1] = "o" -> s.d + 1 [] t[1] = "c" -> s.d - 1 [] OTHER -> s.d)
              ELSE IF t[1] = "o" /\ P(t) THEN 1 ELSE 0
     IN [d |-> d, out |-> IF inside = yes THEN Append(s.out, t) ELSE s.out],
     [d |-> 0, out |-> <<>>], ts).out
In(ts, P(_))  == Regions(ts, P, TRUE)
Out(ts, P(_)) == Regions(ts, P, FALSE)

Controls == {"hr-collapse-zone", "hr-menu-zone", "hr-border-zone", "hr-spacer-zone", "hr-info-zone",
             "float-minimap-wrapper", "minimap", "rsm-source"}
IsControl(t) == HasAny(t, Controls)
NotBlank(ts) == SelectSeq(ts, LAMBDA t : ~(t[1] = "x" /\ t[6] = " "))

(* nesting of the elements that have a number of their own: <<id, id of the one around>> *)
Nesting(ts) ==
  FoldLeft(LAMBDA s, t :
     CASE t[1] = "o" -> [st |-> Append(s.st, IF Nid(t) # "" THEN Nid(t) ELSE IF s.st = <<>> THEN "" ELSE s.st[Len(s.st)]),
                         out |-> IF Nid(t) # "" THEN Append(s.out, <<Nid(t), IF s.st = <<>> THEN "" ELSE s.st[Len(s.st)]>>) ELSE s.out]
       [] t[1] = "c" -> [s EXCEPT !.st = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
       [] OTHER -> s,
     [st |-> <<>>, out |-> <<>>], ts).out

(* the text a reader sees, without the controls                            *)
RECURSIVE Squeeze(_)
Squeeze(s) == IF s = "" THEN "" ELSE IF Ch(s, 1) = " " THEN Squeeze(SubSeq(s, 2, Len(s)))
              ELSE LET j == FindFrom(s, " ", 1) IN IF j = 0 THEN s ELSE SubSeq(s, 1, j - 1) \o Squeeze(SubSeq(s, j, Len(s)))
Seen(ts) == LET s == SelectSeq(Out(Out(ts, IsControl), LAMBDA t : Has(t, "bibitem-doi")), LAMBDA t : t[1] \in {"x", "r"})
            IN FoldLeft(LAMBDA acc, t : acc \o t[6], "", s)

(* tags are opened and closed in pairs; "" or what is wrong                *)
WellNested(ts) ==
  LET s == FoldLeft(LAMBDA q, t :
              IF q.bad # "" THEN q
              ELSE CASE t[1] = "o" -> [q EXCEPT !.st = Append(@, t[2]),
                                                !.tops = IF q.st = <<>> THEN @ + 1 ELSE @]
                     [] t[1] = "c" -> IF q.st = <<>> THEN [q EXCEPT !.bad = "stray </" \o t[2] \o ">"]
                                      ELSE IF q.st[Len(q.st)] # t[2]
                                      THEN [q EXCEPT !.bad = "</" \o t[2] \o "> closes <" \o q.st[Len(q.st)] \o ">"]
                                      ELSE [q EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
                     [] OTHER -> IF q.st = <<>> THEN [q EXCEPT !.bad = "content outside of the body"] ELSE q,
              [st |-> <<>>, bad |-> "", tops |-> 0], ts)
  IN IF s.bad # "" THEN s.bad
     ELSE IF s.st # <<>> THEN "<" \o s.st[Len(s.st)] \o "> is never closed"
     ELSE IF s.tops # 1 \/ ts[1][2] # "body" THEN "not one body" ELSE ""

(* browsers also forbid blocks in paragraphs                               *)
InP(ts) == FoldLeft(LAMBDA s, t :
     CASE t[1] = "o" -> [s EXCEPT !.p = IF t[2] = "p" \/ @ > 0 THEN @ + 1 ELSE 0,
                                  !.bad = @ \/ (s.p > 0 /\ t[2] = "div" /\ HasAny(t, {"mathblock", "claimblock"}))]
       [] t[1] = "c" -> [s EXCEPT !.p = IF @ > 0 THEN @ - 1 ELSE 0]
       [] OTHER -> s, [p |-> 0, bad |-> FALSE], ts).bad

Ids(ts) == LET s == SelectSeq(ts, LAMBDA t : IsOpen(t) /\ t[3] # "") IN [j \in 1..Len(s) |-> s[j][3]]
Hrefs(ts) == LET s == SelectSeq(ts, LAMBDA t : IsOpen(t) /\ t[2] = "a") IN [j \in 1..Len(s) |-> Attr(s[j], "href")]

------------------------------------------------------------------------------
(* What the properties are about.                                          *)
IsCite(t) == t[2] = "a" /\ Has(t, "cite")
IsLink(t) == \/ t[2] = "a" /\ Has(t, "reference") /\ ~HasAny(t, {"cite", "backlink"})
             \/ t[2] = "span" /\ Has(t, "error")
Links(ts) == LET page == Out(Out(ts, LAMBDA t : Has(t, "toc")), IsControl)
             IN In(page, IsLink)
StepLinks(ts) == In(In(Out(ts, IsControl), LAMBDA t : Has(t, "step")), IsLink)
Citations(ts) == In(ts, LAMBDA t : IsCite(t) \/ StartsWith(t[3], "cite-") \/ HasAny(t, {"bibitem", "backlink"}))

NumberSpots == {"hr-menu-label", "step-number", "eqn-number", "note__number", "label"}
Shown(ts) == In(ts, LAMBDA t : t[2] \in {"h1", "h2", "h3", "h4"} \/ HasAny(t, NumberSpots)
                                 \/ (t[2] = "a" /\ HasAny(t, {"reference", "cite"})) \/ t[2] = "img"
                                 \/ HasAny(t, {"bibitem"}))
TocPart(ts) == In(ts, LAMBDA t : t[2] = "ul" /\ Has(t, "contents"))
ProofPart(ts) == LET p == In(Out(ts, IsControl), LAMBDA t : Has(t, "step"))
                 IN <<Nesting(p), [j \in 1..Len(SelectSeq(p, LAMBDA t : t[1] = "x")) |->
                                     SelectSeq(p, LAMBDA t : t[1] = "x")[j][6]]>>
Marks(ts) == LET s == SelectSeq(ts, LAMBDA t : IsOpen(t) /\ (Nid(t) # "" \/ Has(t, "hr")))
             IN [j \in 1..Len(s) |-> <<Nid(s[j]), Has(s[j], "hr"), Has(s[j], "hr-offset"), Has(s[j], "hr-hidden")>>]
PageIds(ts) == LET s == SelectSeq(ts, LAMBDA t : IsOpen(t) /\ Nid(t) # "") IN [j \in 1..Len(s) |-> Nid(s[j])]
Paras(ts) == NotBlank(In(Out(ts, IsControl), LAMBDA t : HasAny(t, {"paragraph", "mathblock", "claimblock"})))
HrClasses == {"hr", "hr-hidden", "hr-offset", "hr-labeled", "hr-shift-1", "theorem"}
Bare(t) == <<t[1], t[2], t[3], SelectSeq(t[4], LAMBDA c : c \notin HrClasses), t[5], t[6]>>
Meta(ts) == LET s == SelectSeq(Out(ts, IsControl), LAMBDA t : IsOpen(t) /\ (Nid(t) # "" \/ t[3] # "" \/ t[2] \in {"img", "strong", "em", "small", "ins", "del", "code"}))
            IN [j \in 1..Len(s) |-> Bare(s[j])]
MetaText(ts) == In(Out(ts, IsControl), LAMBDA t : t[2] \in {"h1", "h2", "h3", "h4"} \/ HasAny(t, {"hr-label", "pg-label", "author", "keywords", "msc"}))
Icons(ts) == LET s == In(ts, LAMBDA t : Has(t, "hr-info-zone")) IN SelectSeq(s, LAMBDA t : Has(t, "icon"))
(* the controls of each handrail, told apart by whose they are             *)
Zones(ts) == NotBlank(In(ts, LAMBDA t : HasAny(t, Controls \ {"float-minimap-wrapper", "minimap", "rsm-source"})))
Owners(ts) == LET s == SelectSeq(ts, LAMBDA t : IsOpen(t) /\ (HasAny(t, Controls) \/ Has(t, "hr") \/ Nid(t) # ""))
              IN [j \in 1..Len(s) |-> <<Nid(s[j]), SelectSeq(s[j][4], LAMBDA c : c \in Controls \cup {"hr"}), Attr(s[j], "tabindex")>>]
Minimaps(ts) == NotBlank(In(ts, LAMBDA t : HasAny(t, {"minimap", "float-minimap-wrapper"})))

(* declaratively: of a handrail, exactly one of each zone, directly in it  *)
ZonesOnce(ts) ==
  LET s == FoldLeft(LAMBDA q, t :
             CASE t[1] = "o" ->
                    IF Has(t, "hr") THEN [q EXCEPT !.st = Append(@, [hr |-> TRUE, z |-> <<>>])]
                    ELSE IF HasAny(t, Controls \cup {"hr-content-zone"}) /\ ~HasAny(t, {"minimap", "float-minimap-wrapper", "rsm-source"})
                         THEN [q EXCEPT !.st = IF @ # <<>> /\ @[Len(@)].hr
                                               THEN Append([@ EXCEPT ![Len(@)].z = Append(@, t[4][1])], [hr |-> FALSE, z |-> <<>>])
                                               ELSE Append(@, [hr |-> FALSE, z |-> <<>>]),
                                        !.bad = @ \/ q.st = <<>> \/ ~q.st[Len(q.st)].hr]
                         ELSE [q EXCEPT !.st = Append(@, [hr |-> FALSE, z |-> <<>>])]
               [] t[1] = "c" ->
                    [q EXCEPT !.st = SubSeq(@, 1, Len(@) - 1),
                              !.bad = @ \/ (q.st[Len(q.st)].hr /\
                                q.st[Len(q.st)].z # <<"hr-collapse-zone", "hr-menu-zone", "hr-border-zone", "hr-spacer-zone",
                                                       "hr-content-zone", "hr-info-zone">>)]
               [] OTHER -> q, [st |-> <<>>, bad |-> FALSE], ts)
  IN ~s.bad

(* all ids that occur twice                                                *)
Dups(ids) == {ids[j] : j \in {x \in 1..Len(ids) : \E y \in 1..(x - 1) : ids[y] = ids[x]}}

=============================================================================
