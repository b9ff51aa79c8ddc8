----------------------------- MODULE Handrails -----------------------------
(***************************************************************************)
(* What the reader of a page can do with it: collapse and expand its       *)
(* elements, open their menus, and move between them with the keyboard.    *)
(*                                                                         *)
(* A page is a sequence of elements in document order.  Of an element the  *)
(* page gives par (0: none), tag, cls (classes), id, foc (the keyboard may *)
(* get there), hid (not shown in the first place), hr (it is a handrail),  *)
(* coll (with a button to collapse it), dots (with a button that opens its *)
(* menu) and items, the entries of its menu: k (collapse-subproof,         *)
(* collapse-steps, link or other) and dis (disabled).                      *)
(*                                                                         *)
(* The state s of a page: coll, the collapsed elements; all, those whose   *)
(* menu offers to expand rather than to collapse everything; menus, those  *)
(* whose menu is open; act, the entry that is marked in each menu (0: no   *)
(* one); foc, the focused element (0: no one); msgs, how many messages     *)
(* ("Link copied", say) are shown; tips, the links whose tooltip is open.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

All(P) == 1..Len(P)
Is(P, e, c) == c \in Range(P[e].cls)
Kids(P, e) == {x \in All(P) : P[x].par = e}
ParentOf(P, e) == P[e].par
RECURSIVE Above(_, _)
Above(P, e) == IF e = 0 \/ P[e].par = 0 THEN {} ELSE {P[e].par} \cup Above(P, P[e].par)

(* an element keeps its content in a zone of its own                       *)
Zone(P, e) == {x \in Kids(P, e) : Is(P, x, "hr-content-zone")}
Content(P, e) == UNION {Kids(P, z) : z \in Zone(P, e)}

(* what is hidden when e is collapsed: the content, but not the label of a *)
(* theorem or proof nor the statement of a step; under a heading, all that *)
(* it heads                                                                *)
Hides(P, e) ==
  IF Is(P, e, "hr-labeled") THEN {x \in Content(P, e) : ~Is(P, x, "hr-label")}
  ELSE IF Is(P, e, "step") THEN {x \in Content(P, e) : ~Is(P, x, "statement")}
  ELSE Kids(P, P[e].par) \ {e}

Entries(P, e, k) == {i \in DOMAIN P[e].items : P[e].items[i].k = k}
Enabled(P, e, k) == \E i \in Entries(P, e, k) : ~P[e].items[i].dis
Collapsible(P, e) == P[e].hr /\ (P[e].coll \/ Enabled(P, e, "collapse-subproof"))

(* the steps that are collapsed and expanded together                      *)
StepsOf(P, e) ==
  LET top == IF Is(P, e, "step") THEN UNION {Content(P, x) : x \in {y \in Content(P, e) : Is(P, y, "subproof")}} ELSE Content(P, e)
  IN {x \in top : Is(P, x, "step") /\ Collapsible(P, x)}

AlwaysHidden(P) == {x \in All(P) : P[x].hid}
HiddenBy(P, coll) == AlwaysHidden(P) \cup UNION {Hides(P, e) : e \in coll}
(* h: the hidden elements                                                  *)
Shown(P, h, x) == ({x} \cup Above(P, x)) \cap h = {}

(* where the keyboard can go: what is shown, not inside of something that  *)
(* is collapsed                                                            *)
Stops(P) == {x \in All(P) : P[x].foc}
Reach(P, coll) ==
  LET h == HiddenBy(P, coll) IN {x \in Stops(P) : Shown(P, h, x) /\ Above(P, x) \cap coll = {}}

After(S, x)  == {y \in S : y > x}
Before(S, x) == {y \in S : y < x}
Least(S, else)  == IF S = {} THEN else ELSE Min(S)
Greatest(S, else) == IF S = {} THEN else ELSE Max(S)

(* one after the other, around the page                                    *)
Following(P, s) ==
  LET R == Reach(P, s.coll) \ {s.foc}
  IN IF s.foc \notin Stops(P) THEN Least(R, s.foc) ELSE Least(After(R, s.foc), Least(R, s.foc))
Preceding(P, s) ==
  LET R == Reach(P, s.coll) \ {s.foc}
  IN IF s.foc \notin Stops(P) THEN Least(R, s.foc) ELSE Greatest(Before(R, s.foc), Greatest(R, s.foc))

(* within a level: from a heading to that of the next section of the same  *)
(* level, from other elements to the next one next to them                 *)
HeadOf(P, sec) == {x \in All(P) : Is(P, x, "heading") /\ sec \in Above(P, x)}
OnLevel(P, s, down) ==
  IF s.foc \notin Stops(P) THEN Least(Reach(P, s.coll), s.foc)
  ELSE IF Is(P, s.foc, "heading")
  THEN LET sec == P[s.foc].par
           secs == {x \in Kids(P, P[sec].par) : P[x].tag = "section"}
           next == IF down THEN Least(After(secs, sec), 0) ELSE Greatest(Before(secs, sec), 0)
       IN IF sec \notin secs \/ next = 0 THEN s.foc ELSE Least(HeadOf(P, next), s.foc)
  ELSE LET h == HiddenBy(P, s.coll)
           peers == {x \in Stops(P) : P[x].par = P[s.foc].par /\ Shown(P, h, x)}
       IN IF down THEN Least(After(peers, s.foc), s.foc) ELSE Greatest(Before(peers, s.foc), s.foc)

------------------------------------------------------------------------------
First(P) == [coll |-> {}, all |-> {}, menus |-> {}, act |-> [e \in {x \in All(P) : P[x].hr} |-> 0], foc |-> 0, msgs |-> 0, tips |-> {}]

IsHandrail(P, e) == e > 0 /\ P[e].hr
Toggled(s, e) == [s EXCEPT !.coll = IF e \in s.coll THEN s.coll \ {e} ELSE s.coll \cup {e}]
AllToggled(P, s, e) ==
  IF e \in s.all THEN [s EXCEPT !.coll = s.coll \ StepsOf(P, e), !.all = s.all \ {e}]
  ELSE [s EXCEPT !.coll = s.coll \cup StepsOf(P, e), !.all = s.all \cup {e}]
Chosen(P, s, e, i) ==
  LET it == P[e].items[i]
  IN IF it.dis THEN s
     ELSE IF it.k = "collapse-subproof" THEN Toggled(s, e)
     ELSE IF it.k = "collapse-steps" THEN AllToggled(P, s, e)
     ELSE IF it.k = "link" THEN [s EXCEPT !.msgs = s.msgs + 1]
     ELSE s
Opened(s, e) == [s EXCEPT !.menus = s.menus \cup {e}]
Closed(s, e) == [s EXCEPT !.menus = s.menus \ {e}, !.act[e] = 0]
Moved(P, s, e, d) ==
  LET n == Len(P[e].items)
      i == s.act[e]
  IN IF n = 0 THEN s ELSE [s EXCEPT !.act[e] = IF i = 0 THEN 1 ELSE ((i - 1 + d + n) % n) + 1]
Focused(P, s, e) == [s EXCEPT !.foc = e]
(* links in what was written; others are part of the program's furniture   *)
Within(P, e, c) == \E x \in Above(P, e) : Is(P, x, c)
Links(P) == {e \in All(P) : P[e].tag = "a" /\ Is(P, e, "reference")}
HasTip(P, a) == a \in Links(P) /\ Within(P, a, "manuscriptwrapper")

Keys == {"j", "k", "h", "l", "H", ".", ",", ";", "ArrowUp", "ArrowDown", "Enter", "z", "i", "x"}
Pressed(P, s, k) ==
  CASE k = "j" -> Focused(P, s, Following(P, s))
    [] k = "k" -> Focused(P, s, Preceding(P, s))
    [] k = "h" -> Focused(P, s, OnLevel(P, s, TRUE))
    [] k = "l" -> Focused(P, s, OnLevel(P, s, FALSE))
    [] k = "H" -> Focused(P, s, Least(Reach(P, s.coll), s.foc))
    [] k = "i" -> IF ~HasTip(P, s.foc) THEN s
                  ELSE [s EXCEPT !.tips = IF s.foc \in s.tips THEN s.tips \ {s.foc} ELSE s.tips \cup {s.foc}]
    [] OTHER ->
       IF ~IsHandrail(P, s.foc) THEN s
       ELSE LET e == s.foc IN
         CASE k = "." -> IF e \in s.menus THEN Closed(s, e) ELSE Opened(s, e)
           [] k = "," -> IF Collapsible(P, e) THEN Toggled(s, e) ELSE s
           [] k = ";" -> IF Enabled(P, e, "collapse-steps") THEN AllToggled(P, s, e) ELSE s
           [] k = "ArrowDown" -> IF e \in s.menus THEN Moved(P, s, e, 1) ELSE s
           [] k = "ArrowUp" -> IF e \in s.menus THEN Moved(P, s, e, -1) ELSE s
           [] k = "Enter" -> IF e \in s.menus /\ s.act[e] # 0 THEN Chosen(P, s, e, s.act[e]) ELSE s
           [] OTHER -> s

(* the actions of a reader: <<"key", k>>, <<"toggle", e>> (the button),    *)
(* <<"dots", e>>, <<"item", e, i>>, <<"leave", e>> (its menu, with the     *)
(* mouse), <<"click", e>>, <<"dismiss", k>> (the k-th message), <<"wait">> *)
(* (until messages are gone)                                               *)
Does(P, s, a) ==
  CASE a[1] = "key" -> Pressed(P, s, a[2])
    [] a[1] = "toggle" -> Toggled(Focused(P, s, a[2]), a[2])
    [] a[1] = "dots" -> Opened(Focused(P, s, a[2]), a[2])
    [] a[1] = "item" -> Chosen(P, Focused(P, s, a[2]), a[2], a[3])
    [] a[1] = "leave" -> Closed(s, a[2])
    [] a[1] = "click" -> Focused(P, s, a[2])
    [] a[1] = "dismiss" -> [s EXCEPT !.msgs = s.msgs - 1, !.foc = 0]
    [] a[1] = "wait" -> [s EXCEPT !.msgs = 0]

Possible(P, s, a) ==
  LET h == HiddenBy(P, s.coll)
  IN CASE a[1] = "key" -> TRUE
       [] a[1] = "toggle" -> P[a[2]].hr /\ P[a[2]].coll /\ Shown(P, h, a[2])
       [] a[1] = "dots" -> P[a[2]].hr /\ P[a[2]].dots /\ Shown(P, h, a[2])
       [] a[1] = "item" -> a[2] \in s.menus /\ Shown(P, h, a[2])
       [] a[1] = "leave" -> a[2] \in s.menus /\ Shown(P, h, a[2])
       [] a[1] = "click" -> P[a[2]].foc /\ Shown(P, h, a[2])
       [] a[1] = "dismiss" -> a[2] \in 1..s.msgs
       [] a[1] = "wait" -> TRUE

(* the element whose link is asked for by an action (0: none)              *)
Asked(P, s, a) ==
  CASE a[1] = "item" -> IF P[a[2]].items[a[3]].k = "link" /\ ~P[a[2]].items[a[3]].dis THEN a[2] ELSE 0
    [] a = <<"key", "Enter">> ->
         LET e == s.foc
         IN IF IsHandrail(P, e) /\ e \in s.menus /\ s.act[e] # 0
            THEN IF P[e].items[s.act[e]].k = "link" /\ ~P[e].items[s.act[e]].dis THEN e ELSE 0
            ELSE 0
    [] OTHER -> 0
(* what a copied link points at: the element, or what it is the heading of *)
LinkTarget(P, e) == IF Is(P, e, "heading") THEN P[e].par ELSE e
IsTitle(P, e) == Is(P, e, "heading") /\ Is(P, P[e].par, "level-1")
(* base: the address of the page, without a fragment                       *)
Addresses(P, base, e) ==
  IF IsTitle(P, e) THEN {base, base \o "#", base \o "#" \o P[P[e].par].id}
  ELSE {base \o "#" \o P[LinkTarget(P, e)].id}
CanLink(P, e) == P[LinkTarget(P, e)].id # "" \/ IsTitle(P, e)
(* the messages that are shown, by what they say: told is added            *)
Messages(P, s, shown, a, told) ==
  CASE a[1] = "dismiss" -> SubSeq(shown, 1, a[2] - 1) \o SubSeq(shown, a[2] + 1, Len(shown))
    [] a[1] = "wait" -> <<>>
    [] OTHER -> IF Asked(P, s, a) # 0 THEN Append(shown, told) ELSE shown
=============================================================================
