------------------------------ MODULE Discrete ------------------------------
(***************************************************************************)
(* The discretization of a polyline: an iterator that walks along it, with *)
(* the fewest equal steps per segment that are not longer than d[1]/d[2]    *)
(* (d[1] = 0: infinitely long).  Any dimension.                            *)
(***************************************************************************)
EXTENDS Geo

RECURSIVE Sq(_, _)
Sq(p, k) == IF k > Len(p) THEN 0 ELSE p[k] * p[k] + Sq(p, k + 1)

(* the fewest steps: double until it is enough, and halve the gap *)
Enough(n, L2, d) == n * n * d[1] * d[1] >= d[2] * d[2] * L2
RECURSIVE Above(_, _, _), Halve(_, _, _, _)
Above(n, L2, d) == IF Enough(n, L2, d) THEN n ELSE Above(2 * n, L2, d)
Halve(lo, hi, L2, d) == \* not enough, enough
    IF hi = lo + 1 THEN hi
    ELSE LET m == (lo + hi) \div 2
         IN IF Enough(m, L2, d) THEN Halve(lo, m, L2, d) ELSE Halve(m, hi, L2, d)
(* along an axis the squares are not needed *)
Along(v) == Cardinality({k \in 1..Len(v) : v[k] # 0}) = 1
Length(v) == LET k == CHOOSE k \in 1..Len(v) : v[k] # 0 IN Abs(v[k])
Steps(p, q, d) ==
    LET L2 == Sq(Sub(q, p), 1)
    IN IF d[1] = 0 \/ L2 = 0 THEN 1
       ELSE IF Along(Sub(q, p)) THEN (Length(Sub(q, p)) * d[2] + d[1] - 1) \div d[1]
       ELSE Halve(0, Above(1, L2, d), L2, d)

(* the position of the walk: on segment `at`, after `sub` of `n` steps *)
Start(pts, d) ==
    [at |-> 1, sub |-> 0, n |-> IF Len(pts) > 1 THEN Steps(pts[1], pts[2], d) ELSE 1]
AtEnd(pts, w) == w.at > Len(pts) \* also for the empty polyline
(* the point there as numerators over n *)
PointAt(pts, w) ==
    IF w.at >= Len(pts) THEN pts[Len(pts)]
    ELSE LET p == pts[w.at] q == pts[w.at + 1]
         IN [k \in 1..Len(p) |-> p[k] * w.n + (q[k] - p[k]) * w.sub]
Denominator(pts, w) == IF w.at >= Len(pts) THEN 1 ELSE w.n
Step(pts, d, w) ==
    IF w.at < Len(pts) /\ w.sub + 1 < w.n THEN [w EXCEPT !.sub = @ + 1]
    ELSE [at |-> w.at + 1, sub |-> 0,
          n |-> IF w.at + 2 <= Len(pts) THEN Steps(pts[w.at + 1], pts[w.at + 2], d) ELSE 1]
=============================================================================
