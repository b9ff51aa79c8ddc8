------------------------------ MODULE Loading ------------------------------
(***************************************************************************)
(* How a page comes to life.  Its parts are set up one after the other;    *)
(* the files and libraries of some of them may not be there (missing), and *)
(* a library may neither arrive nor fail (hanging).  A part works exactly  *)
(* if all that it needs is there, whatever becomes of the others; only     *)
(* what is drawn by libraries, or shows what is, may have to wait for one. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Files == {"icons.js", "handrails.js", "keyboard.js", "minimap.js", "tooltips.js", "libraries.js"}
Libs == {"mathjax", "pseudocode"}
Parts == {"icons", "math", "handrails", "keys", "algorithms", "minimap", "tooltips"}
Needs(p) ==
  CASE p = "icons" -> {"icons.js"}
    [] p = "math" -> {"libraries.js", "mathjax"}
    [] p = "handrails" -> {"handrails.js"}
    [] p = "keys" -> {"keyboard.js", "handrails.js"}
    [] p = "algorithms" -> {"libraries.js", "pseudocode"}
    [] p = "minimap" -> {"minimap.js"}
    [] p = "tooltips" -> {"tooltips.js"}
(* libraries that may have to be waited for                                *)
Waits(p) ==
  CASE p = "math" -> {"mathjax"}
    [] p \in {"algorithms", "tooltips"} -> {"mathjax", "pseudocode"}
    [] OTHER -> {}
(* keys: the keys are asked for                                            *)
Wanted(keys) == IF keys THEN Parts ELSE Parts \ {"keys"}
(* without the file that asks for it, no library is waited for             *)
Held(p, missing, hanging) == "libraries.js" \notin missing /\ Waits(p) \cap hanging # {}
CanWork(keys, missing, hanging) == {p \in Wanted(keys) : Needs(p) \cap (missing \cup hanging) = {}}
Works(keys, missing, hanging) == {p \in CanWork(keys, missing, hanging) : ~Held(p, missing, hanging)}
Failing(keys, missing, hanging) == {p \in Wanted(keys) : Needs(p) \cap missing # {} /\ ~Held(p, missing, hanging)}
(* each of the algorithms that can be drawn is, whatever the others are    *)
Drawn(n, bad) == (1..n) \ bad
=============================================================================
