--------------------------- MODULE TooltipsTrace ---------------------------
(***************************************************************************)
(* The tooltips that the scripts made for recorded pages, against          *)
(* Tooltips.  A record has nodes, algos (the page has algorithms) and      *)
(* tips: for each link at (its element), n (how many times its tooltip was *)
(* made), ink (its text) and err (it is marked as broken); typeset, how    *)
(* often formulas were set since; errors.                                  *)
(***************************************************************************)
EXTENDS Tooltips, TLC, Json, IOUtils

CONSTANT Props
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ri, i
R == Recs[ri]
P == R.nodes
Say(clause, ok, d) == IF "C31" \in Props /\ ~ok THEN PrintT(<<"FAIL", "C31", clause, R.id, ToString(d)>>) ELSE TRUE

Init == ri \in 1..Len(Recs) /\ i = 0
Step ==
  /\ i <= Len(R.tips)
  /\ IF i = 0
     THEN /\ Say("errors", R.errors = <<>> /\ R.logged = <<>>, <<>>)
          /\ Say("links with tooltips", {x.at : x \in Range(R.tips)} = Links(P), <<>>)
          /\ Say("formulas are set", R.tips # <<>> => R.typeset > 0, <<>>)
     ELSE LET x == R.tips[i]
          IN /\ Say("one tooltip", HasTip(P, x.at) /\ (NoLabel(P, x.at) \/ Leads(P, x.at) # {}) => x.n = 1, P[x.at].href)
             /\ Say("broken links are marked", x.err = NoLabel(P, x.at), P[x.at].href)
             /\ IF x.n = 1 /\ ~NoLabel(P, x.at) /\ (Leads(P, x.at) = {} \/ Odd(P, Target(P, x.at)))
                THEN TRUE
                ELSE Say("content", x.n = 1 => x.ink = Tip(P, x.at), <<P[x.at].href, x.ink, IF x.n = 1 THEN Tip(P, x.at) ELSE "">>)
  /\ i' = i + 1 /\ UNCHANGED ri
Spec == Init /\ [][Step]_<<ri, i>>
=============================================================================
