-------------------------- MODULE HandrailsTrace --------------------------
(***************************************************************************)
(* Recorded histories of pages, carried out by their real scripts, against *)
(* Handrails.  A record has page (its number in PAGES) and steps; the      *)
(* first step is the page as it was loaded.  A step has a, the action (<<>>*)
(* at first), coll, hid, one and all (elements whose icons offer to expand *)
(* them, or everything), odd (elements whose icons and texts disagree),    *)
(* menus, active, foc, tip, drawn, gone, errors, copied (to the clipboard) *)
(* and toasts (the messages that are shown).  base is the address of the   *)
(* page, clip whether the clipboard can be used.                           *)
(***************************************************************************)
EXTENDS Handrails, TLC, Json, IOUtils

CONSTANT Props
Pages == ndJsonDeserialize(IOEnv.PAGES)
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ri, i
R == Recs[ri]
P == Pages[R.page].nodes
Say(p, clause, ok) == IF p \in Props /\ ~ok THEN PrintT(<<"FAIL", p, clause, R.id, ToString(i)>>) ELSE TRUE

(* the state that a step shows                                             *)
State(x) ==
  [coll |-> Range(x.coll), all |-> Range(x.all), menus |-> Range(x.menus),
   act |-> [e \in {y \in All(P) : P[y].hr} |-> LET m == {q[2] : q \in {z \in Range(x.active) : z[1] = e}} IN IF m = {} THEN 0 ELSE Min(m)],
   foc |-> IF x.foc < 0 THEN 0 ELSE x.foc, msgs |-> Len(x.toasts), tips |-> Range(x.tip)]

Init == ri \in 1..Len(Recs) /\ i = 1
Step ==
  /\ i <= Len(R.steps)
  /\ LET x == R.steps[i]
         now == State(x)
         old == IF i = 1 THEN First(P) ELSE State(R.steps[i - 1])
         want == IF i = 1 THEN First(P) ELSE Does(P, old, x.a)
         key == i > 1 /\ x.a[1] = "key"
     IN /\ Say("C25", "collapsed elements", now.coll = want.coll)
        /\ Say("C25", "hidden elements", Range(x.hid) = HiddenBy(P, now.coll))
        /\ Say("C25", "icon of an element", Range(x.one) = {e \in now.coll : P[e].hr})
        /\ Say("C25", "icon and entry for all", now.all = want.all)
        /\ Say("C25", "icons and texts agree", x.odd = <<>>)
        /\ Say("C25", "drawings of icons", /\ \A p, q \in Range(x.drawn) : (p[1] = q[1]) <=> (p[2] = q[2]))
        /\ Say("C25", "menus", ~key => now.menus = want.menus)
        /\ Say("C25", "elements of the page stay", x.gone = 0)
        /\ Say("C25", "errors", key \/ x.errors = <<>>)
        /\ Say("C26", "focus", now.foc = want.foc)
        /\ Say("C26", "focus on an element of the page", x.foc >= 0)
        /\ Say("C26", "menus", key => now.menus = want.menus)
        /\ Say("C26", "marked entries", now.act = want.act /\ Len(x.active) = Cardinality({q[1] : q \in Range(x.active)}))
        /\ Say("C26", "open tooltips", now.tips = want.tips)
        /\ Say("C26", "errors", ~key \/ x.errors = <<>>)
        /\ Say("C26", "keys act on the focused element", key => (now.coll = want.coll /\ now.all = want.all))
        /\ IF i > 1 /\ Asked(P, old, x.a) # 0
           THEN LET e == Asked(P, old, x.a) IN
                /\ Say("C30", "link can be copied", CanLink(P, e))
                /\ Say("C30", "copied link", CanLink(P, e) => IF R.clip THEN Len(x.copied) = 1 /\ x.copied[1] \in Addresses(P, R.base, e) ELSE x.copied = <<>>)
           ELSE Say("C30", "nothing is copied", x.copied = <<>>)
        /\ Say("C30", "messages", x.toasts = IF i = 1 THEN <<>> ELSE Messages(P, old, R.steps[i - 1].toasts, x.a, IF x.copied = <<>> THEN "error" ELSE "success"))
  /\ i' = i + 1 /\ UNCHANGED ri
Spec == Init /\ [][Step]_<<ri, i>>
=============================================================================
