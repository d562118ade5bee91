------------------------------ MODULE Gen_Batch ------------------------------
(* Every vertex list over the grid.                                          *)
EXTENDS Batch, Json
Emit == PrintT("SCRIPT " \o ToJson([poly |-> poly, hi |-> Hi]))
GSpec == Init /\ [][Vertex]_vars
=============================================================================
