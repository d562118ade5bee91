------------------------------- MODULE Gen_KD -------------------------------
(* Writes, for every reachable shape of the tree, one history of insertions *)
(* that leads there (the harness then queries it from everywhere, inserts   *)
(* every stored point again and traverses it).                              *)
EXTENDS KDTree, Json
VARIABLE hist

GInit == Init /\ hist = <<>>
GNext == \E p \in Grid(D, Lo, Hi) : Insert(p) /\ hist' = IF tree' = tree THEN hist ELSE Append(hist, p)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
GView == tree
Emit == hist = <<>> \/ PrintT("SCRIPT " \o ToJson([d |-> D, lo |-> Lo - Margin, hi |-> Hi + Margin, ins |-> hist]))
=============================================================================
