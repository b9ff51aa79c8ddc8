----------------------------- MODULE BuildRuns -----------------------------
(***************************************************************************)
(* Builds, one after the other, in directories with different contents.    *)
(***************************************************************************)
EXTENDS Build, Json

CONSTANT MaxAssets
VARIABLES first, disk, req, builds
vars == <<first, disk, req, builds>>

Pictures == {"x.png", "a/x.png", "b/y.png", "static/x.png"}
Others   == {"index.html", "static/rsm.css", "static/keep.txt", "notes.txt"}
Shipped  == [p \in {"static/rsm.css", "static/onload.js"} |-> "shipped " \o p]
Page     == "page"
Titles   == {"none", "plain", "odd"}
Own(p)   == "own " \o p

Requests == [assets : BoundedSeq(Pictures, MaxAssets), title : Titles, hr : BOOLEAN, mention : BOOLEAN]

Init ==
  /\ \E s \in SUBSET (Pictures \cup Others) : first = [p \in s |-> Own(p)]
  /\ disk = first /\ builds = 0 /\ req \in Requests
BuildIt == builds < 2 /\ builds' = builds + 1 /\ disk' = Built(disk, req.assets, Shipped, Page) /\ UNCHANGED <<first, req>>
Next == BuildIt
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Fine == Missing(first, req.assets) = {}
Done == builds > 0
(* what the page refers to is there, unchanged                             *)
Complete == (Done /\ Fine) =>
  /\ disk["index.html"] = Page
  /\ \A p \in DOMAIN Shipped : p \notin {CopyOf(a) : a \in Range(req.assets)} => disk[p] = Shipped[p]
  /\ ~Collides(req.assets) => \A a \in Range(req.assets) : disk[a] = Own(a) /\ disk[CopyOf(a)] = Own(a)
(* nothing else is touched                                                 *)
Frame ==
  \A p \in DOMAIN disk \cup DOMAIN first :
    p \notin ({"index.html"} \cup DOMAIN Shipped \cup {CopyOf(a) : a \in Range(req.assets)})
      => p \in DOMAIN disk /\ p \in DOMAIN first /\ disk[p] = first[p]
AllOrNothing == (Done /\ ~Fine) => disk = first
Again == [][builds = 1 => disk' = disk \/ Collides(req.assets)]_vars

Printed == builds = 2 => PrintT(<<"DOC", ToJson([first |-> SetToSeq(DOMAIN first), req |-> req])>>)
=============================================================================
