------------------------------- MODULE Gen_Lex -------------------------------
EXTENDS Lex, Json
Emit == PrintT("SCRIPT " \o ToJson([op |-> "sort", pts |-> input]))
GSpec == Init /\ [][FALSE]_vars
=============================================================================
