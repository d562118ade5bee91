------------------------------ MODULE Catalogue ------------------------------
(* The functions the library offers ready made, and which generic function,   *)
(* precision, dimension and point type each stands for.                       *)
EXTENDS Num

Modules == {"single_precision", "double_precision"}
Precision(m) == IF m = "single_precision" THEN "f32" ELSE "f64"
HullTypes == {"u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64"}
CellTypes == {"i32", "i64", "isize", "u32", "u64", "usize", "f32", "f64"}
Dims == {"2", "3"}

Plain(name) == [name |-> name, of |-> name, d |-> "2", out |-> ""]
Entries ==
    { Plain(n) : n \in {"is_single_point_in_polygon", "are_multiple_points_in_polygon",
                        "calculate_haversine_distance", "calculate_sphere_bearing"} }
    \cup { [name |-> "icp_" \o d \o "d", of |-> "icp", d |-> d, out |-> ""] : d \in Dims }
    \cup { [name |-> "graham_scan_" \o t, of |-> "graham_scan", d |-> "2", out |-> t] : t \in HullTypes }
    \cup { [name |-> "jarvis_march_" \o t, of |-> "jarvis_march", d |-> "2", out |-> t] : t \in HullTypes }
    \cup { [name |-> "plot_" \o d \o "d_" \o t \o "_bresenham_line", of |-> "plot_bresenham_line", d |-> d, out |-> t] :
               d \in Dims, t \in CellTypes }
Names == { m \o "::" \o e.name : m \in Modules, e \in Entries }

\* Different names stand for different functions.
ASSUME Cardinality(Names) = 2 * Cardinality(Entries)
ASSUME \A e, f \in Entries : e.name = f.name => e = f
=============================================================================
