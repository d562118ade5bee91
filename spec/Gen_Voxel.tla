------------------------------ MODULE Gen_Voxel ------------------------------
EXTENDS Voxel, Json
Emit == PrintT("SCRIPT " \o ToJson([op |-> "voxel", pts |-> cloud, s |-> S]))
GSpec == Init /\ [][FALSE]_vars
=============================================================================
