------------------------------ MODULE Gen_Scan ------------------------------
EXTENDS Scan, Json
Emit == PrintT("SCRIPT " \o ToJson([op |-> "near", pts |-> pts, q |-> q]))
GSpec == Init /\ [][FALSE]_vars
=============================================================================
