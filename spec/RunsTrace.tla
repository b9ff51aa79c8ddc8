----------------------------- MODULE RunsTrace -----------------------------
(***************************************************************************)
(* Recorded runs of several documents in one process against Runs.         *)
(*                                                                         *)
(* A record has: kind, shared, hist (as Runs), obs (what each step yielded *)
(* in this process, a digest), log (what it logged), tree (a digest of the *)
(* tree after the step), and ref, which maps "what/document" to what that  *)
(* yields (and logs, and leaves as tree) in a process of its own.          *)
(***************************************************************************)
EXTENDS Runs, IOUtils

CONSTANT Props

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ri, i
R == Recs[ri]

TInit ==
  /\ ri \in 1..Len(Recs) /\ i = 1
  /\ kind = <<Recs[ri].kind[1], Recs[ri].kind[2]>> /\ shared = Recs[ri].shared
  /\ at = [j \in Jobs |-> "new"] /\ mem = [j \in Jobs |-> {}] /\ kept = [j \in Jobs |-> {}] /\ hist = <<>>

Say(p, clause, ok) == IF p \in Props /\ ~ok THEN PrintT(<<"FAIL", p, clause, R.id, ToString(i)>>) ELSE TRUE

H == R.hist[i]
KindOf == IF Family = "stages" THEN kind[H[2]] ELSE H[2]
Who    == IF Family = "stages" THEN R.docs[H[2]] ELSE R.docs[H[2]]
Ref    == R.ref[H[1] \o "/" \o Who]

Judge ==
  /\ Say("C15", "result", R.obs[i] = Ref.obs)
  /\ Say("C15", "log", R.log[i] = Ref.log)
  /\ Say("C15", "tree", R.tree[i] = Ref.tree)
  /\ Say("C15", "failure", Family = "stages" => (Fails(H[1], KindOf) <=> R.failed[i]))

Step ==
  /\ i <= Len(R.hist)
  /\ IF Family = "stages"
     THEN CASE H[1] = "parse"     -> Parse(H[2])
            [] H[1] = "transform" -> Transform(H[2])
            [] OTHER              -> Translate(H[2], H[1])
     ELSE IF H[3] = 0 THEN Call(H[1], H[2]) ELSE Again(H[3])
  /\ Judge
  /\ i' = i + 1 /\ UNCHANGED ri

TSpec == TInit /\ [][Step]_<<vars, ri, i>>
=============================================================================
