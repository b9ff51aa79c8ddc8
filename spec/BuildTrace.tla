---------------------------- MODULE BuildTrace ----------------------------
(***************************************************************************)
(* Recorded builds of the real program against Build.  A record has first  *)
(* (pairs of path and digest), assets, title, shipped (pairs), rendered    *)
(* (digest of what rendering alone gives), and builds: for each how it     *)
(* ended (end), what is on the disk afterwards, and of the page: body      *)
(* (digest), heading (its title), images (paths) and needs (other files of *)
(* this directory that it refers to, directly or by way of its modules).   *)
(***************************************************************************)
EXTENDS Build, Json, IOUtils

CONSTANT Props
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ri, i, disk
R == Recs[ri]
Say(p, clause, ok) == IF p \in Props /\ ~ok THEN PrintT(<<"FAIL", p, clause, R.id, ToString(i)>>) ELSE TRUE

Disk(pairs) == [p \in {q[1] : q \in Range(pairs)} |-> (CHOOSE q \in Range(pairs) : q[1] = p)[2]]
Shipped == Disk(R.shipped)
First == Disk(R.first)
Fine == Missing(First, R.assets) = {}

Init == ri \in 1..Len(Recs) /\ i = 1 /\ disk = Disk(Recs[ri].first)
Step ==
  /\ i <= Len(R.builds)
  /\ LET b == R.builds[i]
         now == Disk(b.after)
         want == Built(disk, R.assets, Shipped, IF "index.html" \in DOMAIN now THEN now["index.html"] ELSE "")
         over == {CopyOf(a) : a \in Range(R.assets)}
     IN /\ disk' = now
        /\ Say("C23", "missing asset", Fine <=> b.end = "ok")
        /\ IF ~Fine \/ b.end # "ok"
           THEN Say("C23", "failed build writes nothing", now = disk)
           ELSE /\ Say("C23", "page is written", "index.html" \in DOMAIN now)
                /\ Say("C23", "body", b.body = R.rendered)
                /\ Say("C23", "title", b.heading = R.title)
                /\ Say("C23", "shipped files", \A p \in DOMAIN Shipped \ over : p \in DOMAIN now /\ now[p] = Shipped[p])
                /\ Say("C23", "page refers to what is there", \A p \in Range(b.needs) \cup Range(b.images) : p \in DOMAIN now)
                /\ Say("C23", "page shows the assets", Range(b.images) = Range(R.assets))
                /\ Say("C23", IF Collides(R.assets) THEN "colliding-assets" ELSE "assets",
                       \A a \in Range(R.assets) : a \in DOMAIN now /\ now[a] = First[a] /\ CopyOf(a) \in DOMAIN now /\ now[CopyOf(a)] = First[a])
                /\ Say("C23", "nothing else is written",
                       \A p \in DOMAIN now \cup DOMAIN disk :
                         p \notin ({"index.html"} \cup DOMAIN Shipped \cup over) => p \in DOMAIN now /\ p \in DOMAIN disk /\ now[p] = disk[p])
                /\ Say("C23", "what is written", Collides(R.assets) \/ now = want)
                /\ Say("C23", "again", (i = 1 \/ Collides(R.assets)) \/ now = disk)
  /\ i' = i + 1 /\ UNCHANGED ri
Spec == Init /\ [][Step]_<<ri, i, disk>>
=============================================================================
