---------------------------- MODULE Gen_Haversine ----------------------------
(* Every journey of the traveller.                                            *)
EXTENDS Haversine, Json
Emit == Len(path) = Stops => PrintT("SCRIPT " \o ToJson([path |-> path]))
=============================================================================
