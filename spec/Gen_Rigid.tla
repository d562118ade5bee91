------------------------------ MODULE Gen_Rigid ------------------------------
EXTENDS Rigid, Json
Emit == PrintT("SCRIPT " \o ToJson([op |-> "move", h |-> h, w |-> Norm(h), m |-> OfQuaternion(h)]))
GSpec == Init /\ [][FALSE]_vars
=============================================================================
