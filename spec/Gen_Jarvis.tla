----------------------------- MODULE Gen_Jarvis -----------------------------
(* Every multiset of points of the grid, as one sorted list.                 *)
EXTENDS Jarvis, Json
Emit == PrintT("SCRIPT " \o ToJson([pts |-> pts]))
GSpec == Init /\ [][Gather]_vars
=============================================================================
