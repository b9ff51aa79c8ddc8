---------------------------- MODULE NodeTreeEdges ----------------------------
(* Every forest over a few nodes that edits can reach; printed for a replay *)
(* of every edit and every query in each of them in the real code.          *)
EXTENDS NodeTree, Json, IOUtils

MyClass ==
  CASE IOEnv.SET = "lists"  -> <<"Itemize", "Item", "Paragraph", "Text">>
    [] IOEnv.SET = "proofs" -> <<"Proof", "Step", "Step", "Text">>
    [] IOEnv.SET = "free"   -> <<"Section", "Subsection", "Paragraph", "Span">>
    [] IOEnv.SET = "texts"  -> <<"Paragraph", "Text", "Text", "Error">>
    [] IOEnv.SET = "wide"   -> <<"Paragraph", "Span", "Text", "Text", "Text">>
    [] IOEnv.SET = "steps"  -> <<"Proof", "Step", "Step", "Step", "Subproof">>
    [] IOEnv.SET = "items"  -> <<"Itemize", "Enumerate", "Item", "Item", "Caption">>

Spec == Init(MyClass) /\ [][Next]_forest

EmitInv == PrintT(<<"FOREST", ToJson(kids)>>)
=============================================================================
