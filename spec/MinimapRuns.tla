---------------------------- MODULE MinimapRuns ----------------------------
(***************************************************************************)
(* Pages (PAGES) laid out in several ways and scrolled to every place, with*)
(* some of their sections collapsed.                                       *)
(***************************************************************************)
EXTENDS Minimap, TLC, Json, IOUtils

CONSTANTS Grain, Many
Raw == ndJsonDeserialize(IOEnv.PAGES)
Pages == [g \in DOMAIN Raw |-> Prepared(Raw[g])]
VARIABLES gi, m, y, lay
vars == <<gi, m, y, lay>>
G == Pages[gi]

(* how high the own part of the k-th section is                            *)
Layouts == {"short", "even", "long", "mixed"}
Own(l, k) == CASE l = "short" -> 15 [] l = "even" -> 40 [] l = "long" -> 130 [] l = "mixed" -> IF k % 2 = 0 THEN 10 ELSE 90
Begin == 80
Inner(g, k) == {j \in DOMAIN Pages[g].secs : j = k \/ Pages[g].secs[k] \in Pages[g].up[j]}
RECURSIVE Sum(_, _)
Sum(l, S) == IF S = {} THEN 0 ELSE Own(l, Min(S)) + Sum(l, S \ {Min(S)})
(* of every section: where it begins and how high it is                    *)
Laid == [g \in DOMAIN Pages |-> [l \in Layouts |-> [k \in DOMAIN Pages[g].secs |-> <<Begin + Sum(l, 1..(k - 1)), Sum(l, Inner(g, k))>>]]]
Rects(l, d) == [k \in DOMAIN Secs(G) |-> <<Secs(G)[k], Laid[gi][l][k][1] - d, Laid[gi][l][k][2]>>]
Ways == IF Secs(G) = <<>> THEN {"even"} ELSE Layouts
Depths == [g \in DOMAIN Pages |-> [l \in Layouts |-> Begin + Sum(l, DOMAIN Pages[g].secs) + 40]]
HeadsOf == [g \in DOMAIN Pages |-> LET N == Pages[g].nodes IN {e \in All(N) : N[e].hr /\ N[e].coll /\ N[N[e].par].tag = "section" /\ ~Is(N, N[e].par, "level-1")}]
Heads == HeadsOf[gi]
Some == {e \in Heads : Cardinality({x \in Heads : x < e}) < Many}
Depth(l) == Depths[gi][l]

Init == gi \in 1..Len(Pages) /\ m = Start(G) /\ y = -20 /\ lay \in Ways
ScrollTo(d) == m' = Scrolled(G, m, Rects(lay, d), 10 - d, 60) /\ y' = d /\ UNCHANGED <<gi, lay>>
(* a little further, or back to the top                                    *)
Scroll == \E d \in {y + Grain, 0} : d <= Depth(lay) /\ ScrollTo(d)
Collapse == y = -20 /\ \E e \in Some : m' = Toggled(m, e) /\ Cardinality(m'.coll) <= 1 /\ UNCHANGED <<gi, y, lay>>
Next == Scroll \/ Collapse
Spec == Init /\ [][Next]_vars

(* one of the two minimaps is in sight, if there are two                   *)
OneInSight == (G.maps[1] /\ G.maps[2]) => (m.float \/ InView(10 - y, 60))
(* further down, a later section is being read                             *)
Forward == LET b == Reading(G, m, Rects(lay, y)) IN b # 0 => Reading(G, m, Rects(lay, y - Grain)) <= b
InBounds == m.read <= G.floating
Doc == PrintT(<<"DOC", gi, ToJson(<<"scroll", Rects(lay, y), 10 - y, 60>>), ToJson(SetToSeq(Heads))>>)
Printed == m.coll = {} => Doc
=============================================================================
