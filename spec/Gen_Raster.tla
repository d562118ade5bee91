------------------------------ MODULE Gen_Raster ------------------------------
(* Every line of the model, with its cells.                                   *)
EXTENDS Raster, Json
Emit == Done => PrintT("SCRIPT " \o ToJson([e |-> end, cells |-> cells]))
=============================================================================
