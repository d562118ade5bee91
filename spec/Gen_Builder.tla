----------------------------- MODULE Gen_Builder -----------------------------
(* Histories of calls: all short ones, and random long ones.                  *)
EXTENDS Builder, Json
CONSTANT Walks
VARIABLE walk
Emit == Len(ops) = MaxOps => PrintT("SCRIPT " \o ToJson([ops |-> ops]))
GInit == Init /\ walk \in 1..Walks
Random ==
    /\ Len(ops) < MaxOps
    /\ \E i \in { RandomElement(1..Len(builders)) } : \E kind \in { RandomElement(Kinds \cup {"new", "copy", "build"} \cup { "budget", "abs", "int" }) } :
         CASE kind = "new" -> New [] kind = "copy" -> Copy(i) [] kind = "build" -> Build(i)
           [] OTHER -> \E v \in { RandomElement(Values(kind)) } : Set(i, kind, v)
GNext == (IF Walks = 1 THEN Next ELSE Random) /\ UNCHANGED walk
GSpec == GInit /\ [][GNext]_<<vars, walk>>
=============================================================================
