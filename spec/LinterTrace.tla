---------------------------- MODULE LinterTrace ----------------------------
(***************************************************************************)
(* Recorded runs of the real linter against Linter.                        *)
(*                                                                         *)
(* A record has: post (the processed tree), after (1 if the linted tree is *)
(* the same), secs, maths, man (where the sections, the display equations  *)
(* and the manuscript begin, in document order), stages (the warnings of   *)
(* the earlier stages), events (the warnings of the whole run), reports    *)
(* (rule, line, column of what the linter logged), lines (what the lint    *)
(* format wrote, as line, column, level).                                  *)
(***************************************************************************)
EXTENDS Linter, Json, IOUtils

CONSTANT Props
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ri
R == Recs[ri]

Init == ri \in 1..Len(Recs) /\ LintInit(Recs[ri].post)

Say(p, clause, ok) == IF p \in Props /\ ~ok THEN PrintT(<<"FAIL", p, clause, R.id>>) ELSE TRUE

Nth(cs) == SelectSeq(Order(A), LAMBDA i : A[i].c \in cs)
Place(i) ==
  IF A[i].c = "Manuscript" THEN R.man
  ELSE IF A[i].c = "MathBlock" THEN R.maths[CHOOSE n \in 1..Len(R.maths) : Nth({"MathBlock"})[n] = i]
  ELSE R.secs[CHOOSE n \in 1..Len(R.secs) : Nth(SectionLike)[n] = i]

Expected(rule) == LET s == Reports(rule) IN [n \in 1..Len(s) |-> Place(s[n][2])]
Got(rule) == LET s == SelectSeq(R.reports, LAMBDA r : r[1] = rule) IN [n \in 1..Len(s) |-> <<s[n][2], s[n][3]>>]
Lints(lines) == SelectSeq(lines, LAMBDA l : l[3] = "LINT")

Check ==
  /\ pc = "done" /\ pc' = "checked" /\ UNCHANGED <<A, rep, ri>>
  /\ IF R.exc # "" THEN Say("C21", "linting failed: " \o R.exc, FALSE)
     ELSE
     /\ Say("C21", "elements", Len(Nth({"MathBlock"})) = Len(R.maths) /\ Len(Nth(SectionLike)) = Len(R.secs))
     /\ IF Len(Nth({"MathBlock"})) = Len(R.maths) /\ Len(Nth(SectionLike)) = Len(R.secs)
        THEN /\ Say("C21", "title", Got("title") = Expected("title"))
             /\ Say("C21", "sections", Got("section") = Expected("section"))
             /\ Say("C21", "equations", Got("math") = Expected("math"))
        ELSE TRUE
     /\ Say("C21", "nothing else", \A n \in 1..Len(R.reports) : R.reports[n][1] \in Rules)
     /\ Say("C21", "warnings of the earlier stages", R.events = R.stages)
     /\ Say("C21", "document unchanged", R.same)
     /\ Say("C21", "written", /\ Len(R.lines) = Len(R.events) + Len(R.reports)
                              /\ [n \in 1..Len(Lints(R.lines)) |-> <<Lints(R.lines)[n][1], Lints(R.lines)[n][2]>>]
                                   = [n \in 1..Len(R.reports) |-> <<R.reports[n][2], R.reports[n][3]>>])

Next == (LintNext /\ UNCHANGED ri) \/ Check
Spec == Init /\ [][Next]_<<lvars, ri>>
=============================================================================
