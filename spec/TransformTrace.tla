-------------------------- MODULE TransformTrace --------------------------
(***************************************************************************)
(* Recorded runs of the real transformer against Transform.                *)
(*                                                                         *)
(* Every line of IOEnv.TRACE is one recorded run:                          *)
(*   id, pre (the parsed tree), post (the tree after all passes; post[j].o *)
(*   is the index in pre of the same object, 0 for a new one), pos (where  *)
(*   the nodes of pre are in post), exc, at, wtf (the words of each        *)
(*   warning), lk (the node found by looking each id up).                  *)
(* One behaviour per record.  It ends in Check, which evaluates every      *)
(* clause and prints a line <<"FAIL", property, clause, id>> for each one  *)
(* that is false.                                                          *)
(***************************************************************************)
EXTENDS Transform, Json, IOUtils

CONSTANT Props                      (* the properties to judge             *)

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE ri

R == Recs[ri]

Init == /\ ri \in 1..Len(Recs)
        /\ TransformInit(Recs[ri].pre)

------------------------------------------------------------------------------
Say(p, clause, ok) ==
  IF p \in Props /\ ~ok THEN PrintT(<<"FAIL", p, clause, R.id>>) ELSE TRUE

Post == R.post
Ord  == Order(A)
PostIdx == 1..Len(Post)
Real(u) == u <= Len(R.pre)          (* u was already there before          *)
Pos(u) == R.pos[u]                  (* where it is now, 0 if it is gone    *)
Kept == {u \in 1..Len(R.pre) : Pos(u) # 0}
Orig(j) == IF j = 0 THEN 0 ELSE Post[j].o

Word(l) == Cardinality({j \in 1..Len(R.wtf) : \E m \in 1..Len(R.wtf[j]) : R.wtf[j][m] = l})
Expected(l) == Cardinality({j \in 1..Len(warn) : warn[j][2] = l})

(* references outside of the table of contents, in document order          *)
InToc(i) == NearestAnc(A, i, {"Contents"}) # 0
RECURSIVE PInToc(_)
PInToc(j) == j # 0 /\ (Post[j].c = "Contents" \/ (Post[j].p > 0 /\ PInToc(Post[j].p)))
MRefs == LET s == SelectSeq(Ord, LAMBDA i : A[i].c \in {"Reference", "Error"} /\ ~InToc(i)) IN s
PRefs == SelectSeq([j \in PostIdx |-> j],
                   LAMBDA j : Post[j].c \in {"Reference", "Error"} /\ ~PInToc(j))
SameRef(i, j) ==
  /\ A[i].c = Post[j].c
  /\ IF A[i].c = "Reference" THEN A[i].tn = Orig(Post[j].tn) /\ A[i].ow = Post[j].ow
     ELSE A[i].text = Post[j].text

MCites == SelectSeq(Ord, LAMBDA i : A[i].c = "Cite")
PCites == SelectSeq([j \in PostIdx |-> j], LAMBDA j : Post[j].c = "Cite")
SameCite(i, j) ==
  /\ A[i].label = Post[j].label
  /\ Len(A[i].tns) = Len(Post[j].tns)
  /\ \A m \in 1..Len(A[i].tns) : A[i].tns[m] = Orig(Post[j].tns[m])
  /\ \A m \in 1..Len(A[i].tls) : A[i].tls[m] = Post[j].tls[m]

(* outline of a subtree: <<depth, class, target, text>> in document order  *)
RECURSIVE MShape(_, _)
MShape(i, d) == FoldLeft(LAMBDA acc, c : acc \o MShape(c, d + 1),
                         <<<<d, A[i].c, A[i].tn, A[i].ow>>>>, A[i].k)
RECURSIVE PShape(_, _)
PShape(j, d) == FoldLeft(LAMBDA acc, c : acc \o PShape(c, d + 1),
                         <<<<d, Post[j].c, Orig(Post[j].tn), Post[j].ow>>>>, Post[j].k)
MTocs == SelectSeq(Ord, LAMBDA i : A[i].c = "Contents")
PTocs == SelectSeq([j \in PostIdx |-> j], LAMBDA j : Post[j].c = "Contents")

(* what a step is made of: per child its class and the objects inside      *)
MStep(u) == [m \in 1..Len(A[u].k) |->
              LET x == A[u].k[m] IN <<A[x].c, IF Real(x) THEN x ELSE 0, A[x].k>>]
PStep(j) == [m \in 1..Len(Post[j].k) |->
              LET x == Post[j].k[m]
              IN <<Post[x].c, Post[x].o, [q \in 1..Len(Post[x].k) |-> Post[Post[x].k[q]].o]>>]
ContentSame(u, j) ==
  LET m == MStep(u)
      p == PStep(j)
      (* the identity of replaced inline nodes is not observable           *)
      Id(x) == IF A[x].c \in {"Reference", "Error", "Cite"} THEN 0 ELSE x
  IN /\ Len(m) = Len(p)
     /\ \A q \in 1..Len(m) :
          /\ m[q][1] = p[q][1] /\ m[q][2] = p[q][2]
          /\ Len(m[q][3]) = Len(p[q][3])
          /\ \A z \in 1..Len(m[q][3]) : Id(m[q][3][z]) = p[q][3][z] \/ Id(m[q][3][z]) = 0

HasAppendix == \E u \in 1..Len(R.pre) : A[u].c = "Appendix"

Numbers(u) ==
  /\ A[u].num = Post[Pos(u)].num
  /\ A[u].c \in AutoNumbered => Full(A, u) = Post[Pos(u)].full
  /\ A[u].c \in AutoNumbered => RefText(A, u) = Post[Pos(u)].reft

Structure ==
  /\ Len(Ord) = Len(Post)
  /\ \A j \in 1..Len(Ord) : A[Ord[j]].c = Post[j].c /\ Len(A[Ord[j]].k) = Len(Post[j].k)

------------------------------------------------------------------------------
Done ==
  /\ pc = "done"
  /\ IF R.exc # "" /\ R.at \in {"parse", "transform"}
     THEN \A p \in Props : Say(p, "processing failed: " \o R.exc, FALSE)
     ELSE
     /\ Say("C03", "label kept or lost", \A u \in Kept : A[u].label = Post[Pos(u)].label)
     /\ Say("C03", "labels unique", \A j, m \in PostIdx : j < m /\ Post[j].label # "" => Post[j].label # Post[m].label)
     /\ Say("C03", "reference", LET a == MRefs b == PRefs
                                 IN Len(a) = Len(b) /\ \A j \in 1..Len(a) : A[a[j]].prev \/ SameRef(a[j], b[j]))
     /\ Say("C03", "unresolved", \A j \in PostIdx : Post[j].c \notin {"PendingReference"})
     /\ Say("C03", "warnings", \A j \in 1..Len(warn) : warn[j][1] \in {"duplicate", "unknown"} =>
                                    Word(warn[j][2]) = Expected(warn[j][2]))
     /\ Say("C04", "citation", LET a == MCites b == PCites
                               IN Len(a) = Len(b) /\ \A j \in 1..Len(a) : SameCite(a[j], b[j]))
     /\ Say("C04", "back links", \A u \in Kept : A[u].c = "Bibitem" => A[u].back = Post[Pos(u)].back)
     /\ Say("C04", "bibliography numbers", \A u \in Kept : A[u].c = "Bibitem" => A[u].num = Post[Pos(u)].num)
     /\ Say("C04", "unresolved", \A j \in PostIdx : Post[j].c # "PendingCite")
     /\ Say("C04", "warnings", \A j \in 1..Len(warn) : warn[j][1] = "unknown" => Word(warn[j][2]) = Expected(warn[j][2]))
     /\ Say("C05", "previous step", LET a == MRefs b == PRefs
                                    IN Len(a) = Len(b) /\ \A j \in 1..Len(a) : A[a[j]].prev => SameRef(a[j], b[j]))
     /\ Say("C05", "unresolved", \A j \in PostIdx : Post[j].c # "PendingPrev")
     /\ Say("C05", "warning", Len(SelectSeq(warn, LAMBDA w : w[1] = "unlabelled")) > 0 => Len(R.wtf) = Len(warn))
     /\ Say("C06", "numbers", HasAppendix \/ \A u \in Kept : Numbers(u))
     /\ Say("C07", "numbers", ~HasAppendix \/ \A u \in Kept : Numbers(u))
     /\ Say("C08", "entries", LET a == MTocs b == PTocs
                              IN Len(a) = Len(b) /\ \A j \in 1..Len(a) : Post[b[j]].o = a[j] /\ MShape(a[j], 0) = PShape(b[j], 0))
     /\ Say("C08", "warning", Len(SelectSeq(warn, LAMBDA w : w[1] = "toc")) > 0 => Len(R.wtf) = Len(warn))
     /\ Say("C09", "steps", \A u \in Kept : A[u].c = "Step" => ContentSame(u, Pos(u)))
     /\ Say("C09", "nothing lost", \A u \in 1..Len(R.pre) :
               A[u].c \notin {"Reference", "Error", "Cite"} /\ NearestAnc(A, u, {"Step"}) # 0 => Pos(u) # 0)
     /\ Say("C10", "depth", \A u \in Kept : A[u].hd = Post[Pos(u)].hd)
     /\ Say("C10", "depth of all", Structure => \A j \in 1..Len(Ord) : A[Ord[j]].hd = Post[j].hd)
     /\ Say("C11", "ids", \A j \in PostIdx : Post[j].nid = j - 1)
     /\ Say("C11", "lookup", \A j \in PostIdx : R.lk[j] = j)
     /\ Say("C13", "structure", Structure /\ \A j \in 1..Len(Ord) :
                                   LET u == Ord[j] IN Real(u) /\ A[u].c \notin {"Reference", "Error", "Cite"} => Post[j].o = u)
     /\ Say("C13", "content", Structure => \A j \in 1..Len(Ord) : A[Ord[j]].text = Post[j].text)
     /\ Say("C20", "metadata kept", \A u \in Kept :
               LET a == A[u] b == Post[Pos(u)]
               IN /\ a.types = b.types /\ a.nonum = b.nonum /\ a.rt = b.rt /\ a.icon = b.icon
                  /\ a.title = b.title /\ a.lang = b.lang /\ a.flags = b.flags /\ a.kind = b.kind)

Failed ==
  /\ pc = "failed"
  /\ \A p \in (Props \cap {"C05"}) :
       Say(p, "must be refused: " \o exc, R.at = "transform" /\ R.exc # "" /\ StartsWith(R.exc, "RSMTransformerError"))

Check == (Done \/ Failed) /\ pc' = "checked" /\ UNCHANGED <<A, lab, warn, exc>>

Next == (TransformNext \/ Check) /\ UNCHANGED ri

Spec == Init /\ [][Next]_<<tvars, ri>>
=============================================================================
