------------------------------- MODULE Rigid -------------------------------
(* Rigid motions with rational rotations: the matrix is m / w for an integer  *)
(* matrix m (a tuple of rows) and an integer w > 0.                           *)
EXTENDS Cloud

(* Composing motions: a moving body, checked to keep its shape and its hand. *)
CONSTANTS Reach, Turns
VARIABLES h, body
vars == <<h, body>>

Quats == [1..4 -> (-Reach)..Reach] \ {[a \in 1..4 |-> 0]}
Init == h \in Quats /\ body = << <<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>> >>
Turn == /\ body = << <<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>> >>
        /\ body' = [j \in 1..3 |-> MatVec(OfQuaternion(h), body[j])]
        /\ UNCHANGED h
Next == Turn
Spec == Init /\ [][Next]_vars

AlwaysProper == Proper(OfQuaternion(h), Norm(h))
ComplexProper == \A z \in [1..2 -> (-Turns)..Turns] : (z[1] # 0 \/ z[2] # 0) => Proper(OfComplex(z), Dot(z, z))
ShapeKept == \/ body = << <<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>> >>
             \/ /\ \A j, k \in 1..3 : DistSq(body[j], body[k]) =
                      Norm(h) * Norm(h) * (IF j = k THEN 0 ELSE j * j + k * k)
                /\ Det3(body) = 6 * Norm(h) * Norm(h) * Norm(h)
=============================================================================
