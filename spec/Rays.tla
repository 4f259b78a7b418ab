-------------------------------- MODULE Rays --------------------------------
(***************************************************************************)
(* Where a ray o + t * dir (t > 0) meets the edges of a line string.       *)
(* Parameters are fractions t = n/d, d > 0.                                *)
(***************************************************************************)
EXTENDS Geo

Lowest(n, d) == LET g == Gcd(Abs(n), d) IN [n |-> Sgn(n) * (Abs(n) \div g), d |-> d \div g]
(* the hits on edge a-b, its ends if the ray runs along it *)
Ts(o, dir, a, b) ==
    LET s == Sub(b, a)
        q == Sub(a, o)
        den == Perp(dir, s)
        tn == Perp(q, s)
        un == Perp(q, dir)
        g == Sgn(den)
    IN IF den = 0
       THEN IF Perp(q, dir) # 0 THEN {}
            ELSE {Lowest(Dot2(Sub(e, o), dir), Dot2(dir, dir)) : e \in {a, b}}
       ELSE IF g * un >= 0 /\ g * un <= g * den THEN {[n |-> g * tn, d |-> g * den]} ELSE {}
Less(t, u) == t.n * u.d < u.n * t.d
Ahead(T) == {t \in T : t.n > 0}
Hits(pts, o, dir) == Ahead(UNION {Ts(o, dir, pts[e], pts[e + 1]) : e \in 1..Len(pts) - 1})
(* the place of a hit, not in lowest terms *)
PlaceAt(o, dir, t) == [x |-> o[1] * t.d + dir[1] * t.n, y |-> o[2] * t.d + dir[2] * t.n, d |-> t.d]
(* the ray starts on an edge it runs along: where it meets that edge first is anyone's guess *)
RunsOut(o, dir, a, b) ==
    /\ Perp(Sub(a, o), dir) = 0 /\ Perp(Sub(b, o), dir) = 0
    /\ Dot2(Sub(a, o), Sub(b, o)) <= 0
=============================================================================
