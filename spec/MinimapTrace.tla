---------------------------- MODULE MinimapTrace ----------------------------
(***************************************************************************)
(* Recorded histories of pages with a table of contents against Minimap.   *)
(* A record has page and steps; the first step is the page as it was       *)
(* loaded.  A step has a (the action), lit (how many marks of either       *)
(* minimap are coloured), float, coll, foc and errors.                     *)
(***************************************************************************)
EXTENDS Minimap, TLC, Json, IOUtils

CONSTANT Props
Raw == ndJsonDeserialize(IOEnv.PAGES)
Pages == [g \in DOMAIN Raw |-> Prepared(Raw[g])]
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ri, i
R == Recs[ri]
G == Pages[R.page]
Say(clause, ok) == IF "C32" \in Props /\ ~ok THEN PrintT(<<"FAIL", "C32", clause, R.id, ToString(i)>>) ELSE TRUE
State(x) == [mouse |-> x.lit[1], read |-> x.lit[2], float |-> x.float, coll |-> Range(x.coll), foc |-> IF x.foc < 0 THEN 0 ELSE x.foc]

Init == ri \in 1..Len(Recs) /\ i = 1
Step ==
  /\ i <= Len(R.steps)
  /\ LET x == R.steps[i]
         now == State(x)
         old == IF i = 1 THEN Start(G) ELSE State(R.steps[i - 1])
         w == IF i = 1 THEN Start(G)
              ELSE IF x.a[1] = "key" THEN AfterFocus(G, old, now.foc)
              ELSE Acts(G, old, x.a)
     IN /\ Say("one mark for each section", Len(Secs(G)) = Len(G.toc) \/ G.toc = <<>>)
        /\ Say("marks that follow the mouse and the focus", now.mouse = w.mouse)
        /\ Say("floating minimap is shown if the other is out of sight", now.float = w.float)
        /\ Say("marks that follow the place being read", now.read = w.read)
        /\ Say("errors", x.errors = <<>>)
  /\ i' = i + 1 /\ UNCHANGED ri
Spec == Init /\ [][Step]_<<ri, i>>
=============================================================================
