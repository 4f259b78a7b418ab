------------------------------- MODULE Planes -------------------------------
(***************************************************************************)
(* Projections between two and three dimensions, and detecting a plane.    *)
(***************************************************************************)
EXTENDS Boxes

(* line strings keep y, points and lines keep the order of the axes *)
To2(pl, p) == CASE pl = "XY" -> <<p[1], p[2]>> [] pl = "XZ" -> <<p[1], p[3]>> [] pl = "YZ" -> <<p[3], p[2]>>
To3(pl, p) == CASE pl = "XY" -> <<p[1], p[2], 0>> [] pl = "XZ" -> <<p[1], 0, p[2]>> [] pl = "YZ" -> <<0, p[2], p[1]>>
P2(pl, p) == CASE pl = "XY" -> <<p[1], p[2]>> [] pl = "XZ" -> <<p[1], p[3]>> [] pl = "YZ" -> <<p[2], p[3]>>
P3(pl, p) == CASE pl = "XY" -> <<p[1], p[2], 0>> [] pl = "XZ" -> <<p[1], 0, p[2]>> [] pl = "YZ" -> <<0, p[1], p[2]>>

(* the axes whose extent counts as nothing; all of them do not make a plane *)
PlaneOf(flat) == CASE flat = {1} -> "YZ" [] flat = {2} -> "XZ" [] flat = {3} -> "XY" [] OTHER -> "none"
Extent(b) == Sub(b[2], b[1])
ExactPlane(ps) ==
    IF ps = <<>> THEN "none"
    ELSE LET d == Extent(BoxOf(ps)) IN PlaneOf({c \in 1..3 : d[c] = 0})
(* up to 2^-eps of the widest axis counts as nothing *)
RelaxedPlane(ps, eps) ==
    IF ps = <<>> THEN "none"
    ELSE LET d == Extent(BoxOf(ps))
             m == Max(Max(d[1], d[2]), d[3])
         IN IF m = 0 THEN "none" ELSE PlaneOf({c \in 1..3 : d[c] * 2 ^ eps <= m})
=============================================================================
