---------------------------- MODULE RecoverTrace ----------------------------
(***************************************************************************)
(* What the real parser makes of sources with errors.  A record is         *)
(* [id, cst, pre (the tree), exc, warn (positions that were reported),     *)
(* nwarn (how many warnings there were)].                                  *)
(***************************************************************************)
EXTENDS Recover, Json, IOUtils

CONSTANT Props
VARIABLES ri, done
vars == <<ri, done>>

Recs == ndJsonDeserialize(IOEnv.TRACE)
R == Recs[ri]
S == R.cst

Say(p, clause, ok, detail) == IF p \in Props /\ ~ok THEN PrintT(<<"FAIL", p, clause, R.id, detail>>) ELSE TRUE

RECURSIVE Drop(_, _)
Drop(s, C) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in C THEN "" ELSE Ch(s, 1)) \o Drop(SubSeq(s, 2, Len(s)), C)
Bare(s) == Drop(s, Blanks \cup {"\\"})

RECURSIVE Told(_)
Told(j) ==
  LET n == R.pre[j]
  IN IF n.c \in {"Keyword", "Bibliography"} THEN ""
     ELSE IF n.c \in {"Text", "SourceCode", "Error"} THEN n.raw
     ELSE FoldLeft(LAMBDA acc, x : acc \o Told(x), "", n.k)

Positions == LET e == SelectSeq([i \in 1..Len(S) |-> i], LAMBDA i : S[i].t = "ERROR") IN [x \in 1..Len(e) |-> S[e[x]].pos]
Times(p, s) == Len(SelectSeq(s, LAMBDA x : x = p))

Check ==
  LET rep == Reports(S)
  IN /\ (R.exc # "" => Say("C19", "a source is refused only as a whole",
            \/ S[1].t = "ERROR" /\ StartsWith(R.exc, "RSMParserError")
            \/ StartsWith(R.exc, "RSMNodeError"), R.exc))
     /\ R.exc = "" =>
          /\ \A j \in 1..Len(rep) :
               Say("C19", "every error is reported", Times(S[rep[j]].pos, R.warn) >= 1, ToString(S[rep[j]].pos))
          /\ Say("C19", "errors of the bibliography are reported", BibError(S) => R.nwarn > Len(R.warn), "")
          /\ \A j \in 1..Len(R.warn) :
               Say("C19", "only errors are reported, and once", Times(R.warn[j], R.warn) <= Times(R.warn[j], Positions), ToString(R.warn[j]))
          /\ LET want == Bare(Story(S))
                 got  == Bare(Told(1))
             IN Say("C19", "the rest of the document is kept", got = want, ToString(<<"expected", want, "got", got>>))

Init == ri \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED ri /\ Check
Spec == Init /\ [][Next]_vars
=============================================================================
