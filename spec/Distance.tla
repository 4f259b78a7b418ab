------------------------------ MODULE Distance ------------------------------
(***************************************************************************)
(* Exact squared distances between a point and a segment, as fractions     *)
(* [n, d], d > 0. In two dimensions the library measures to the segment,   *)
(* in three dimensions to the infinite line through it.                    *)
(***************************************************************************)
EXTENDS Geo

SegDist2(a, b, p) ==
    LET ab == Sub(b, a)
        ap == Sub(p, a)
        l == Dot2(ab, ab)
        t == Dot2(ap, ab)
    IN IF l = 0 \/ t < 0 THEN [n |-> Dot2(ap, ap), d |-> 1]
       ELSE IF t > l THEN [n |-> Dist2(p, b), d |-> 1]
       ELSE [n |-> Perp(ap, ab) * Perp(ap, ab), d |-> l]

Cross3(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
LineDist3(a, b, p) ==
    LET ab == Sub(b, a)
        ap == Sub(p, a)
        l == Dot3(ab, ab)
        c == Cross3(ap, ab)
    IN IF l = 0 THEN [n |-> Dot3(ap, ap), d |-> 1] ELSE [n |-> Dot3(c, c), d |-> l]
=============================================================================
