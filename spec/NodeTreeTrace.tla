---------------------------- MODULE NodeTreeTrace ----------------------------
(***************************************************************************)
(* A recorded history of the real tree classes is a behaviour of NodeTree: *)
(* every edit has the recorded outcome and leads to the recorded forest,   *)
(* and every query gave the answer that the forest determines.             *)
(* One TLC behaviour per record of the trace file.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Props
VARIABLES ri, si, P, K, stop
vars == <<ri, si, P, K, stop>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
R == Traces[ri]
NT == INSTANCE NodeTree WITH Class <- R.cls, par <- P, kids <- K

Say(prop, clause, ok, detail) ==
  (prop \in Props /\ ~ok) => PrintT(<<"FAIL", prop, clause, R.id, detail>>)

Init == /\ ri \in 1..Len(Traces) /\ si = 0 /\ stop = FALSE
        /\ P = R.par /\ K = R.kids

Answer(q) ==
  CASE q.q = "traverse" -> NT!Traverse(K, q.n, q.c[1])
    [] q.q = "first"    -> LET m == NT!FirstOfType(K, q.n, q.c) IN <<m, NT!Place(K, q.n, m)>>
    [] q.q = "last"     -> LET m == NT!LastOfType(K, q.n, q.c) IN <<m, NT!Place(K, q.n, m)>>
    [] q.q = "prev"     -> <<NT!PrevSibling(P, K, q.n, q.c[1])>>
    [] q.q = "next"     -> <<NT!NextSibling(P, K, q.n, q.c[1])>>
    [] q.q = "anc"      -> <<NT!FirstAncestor(P, q.n, q.c)>>
    [] q.q = "byid"     -> <<NT!ById(K, q.n, q.i)>>
    [] q.q = "cond"     -> SelectSeq(NT!Preorder(K, q.n), LAMBDA x : x % 2 = q.i)

Str(x) == ToString(x)

Step ==
  /\ ~stop /\ si < Len(R.steps)
  /\ LET s == R.steps[si + 1]
         f == NT!Do(NT!F(P, K), s)
         same == f.par = s.par /\ f.kids = s.kids /\ f.ok = s.ok
     IN IF s.op = "query"
        THEN /\ Say("C02", s.q, Answer(s) = s.a, Str(<<si + 1, s, "expected", Answer(s)>>))
             /\ Say("C02", "queries leave the tree alone", P = s.par /\ K = s.kids, Str(<<si + 1, s>>))
             /\ si' = si + 1 /\ UNCHANGED <<ri, P, K, stop>>
        ELSE /\ Say("C01", IF f.ok = s.ok THEN s.op ELSE s.op \o IF s.ok THEN ": must be refused" ELSE ": must be accepted",
                    same, Str(<<si + 1, s, "expected", f>>))
             /\ P' = s.par /\ K' = s.kids /\ si' = si + 1 /\ stop' = ~same
             /\ UNCHANGED ri
(* Edits that were each tried in the initial forest. *)
Alternatives ==
  /\ si = 0 /\ R.steps = <<>> /\ ~stop /\ stop' = TRUE /\ UNCHANGED <<ri, si, P, K>>
  /\ \A j \in 1..Len(R.alts) :
       LET s == R.alts[j]
           f == NT!Do(NT!F(P, K), s)
       IN Say("C01", IF f.ok = s.ok THEN s.op ELSE s.op \o IF s.ok THEN ": must be refused" ELSE ": must be accepted",
              f.par = s.par /\ f.kids = s.kids /\ f.ok = s.ok, Str(<<"in", K, s, "expected", f>>))
  /\ \A j \in 1..Len(R.asks) :
       Say("C02", R.asks[j].q, Answer(R.asks[j]) = R.asks[j].a, Str(<<"in", K, R.asks[j], "expected", Answer(R.asks[j])>>))
  /\ Say("C02", "queries leave the tree alone", R.par2 = P /\ R.kids2 = K, "")
Next == Step \/ Alternatives
Spec == Init /\ [][Next]_vars
=============================================================================
