-------------------------------- MODULE Hull --------------------------------
(***************************************************************************)
(* What a convex hull is (declaratively), for point sequences over the     *)
(* integers.  Used by the algorithm models (Graham, GiftWrap, HullPar) and *)
(* by the trace specifications.                                            *)
(***************************************************************************)
EXTENDS Geo

(* at least three points that are not all on one line *)
Spanning(P) == P # {} /\ LET a == CHOOSE p \in P : TRUE
                        IN  \E b, c \in P : Orient(a, b, c) # 0

(* h is the closed, counter clockwise, strictly convex loop around P *)
IsHullLoop(P, h) ==
    LET n == Len(h) - 1 IN
    /\ n >= 3
    /\ h[1] = h[n + 1]
    /\ RangeOf(h) \subseteq P
    /\ Cardinality(RangeOf(h)) = n
    /\ \A i \in 1..n : /\ Orient(h[i], h[i + 1], h[IF i = n THEN 2 ELSE i + 2]) = 1
                       /\ \A p \in P : Orient(h[i], h[i + 1], p) >= 0

(* the same, but without the repeated closing vertex *)
IsOpenHull(P, h) == Len(h) > 0 /\ IsHullLoop(P, Append(h, h[1]))

(* points on one line: the hull is what is between the two ends (or the single point) *)
Ends(P) == {p \in P : (\A q \in P : ~LexLess(q, p)) \/ (\A q \in P : ~LexLess(p, q))}
IsFlatHull(P, h) == /\ RangeOf(h) = Ends(P) /\ Len(h) <= 3
                    /\ Cardinality(P) > 2 => (Len(h) = 3 /\ h[1] = h[3])
IsFlatOpen(P, h) == /\ RangeOf(h) = Ends(P) /\ Len(h) <= 3
                    /\ Cardinality(P) > 2 => Len(h) = 2
(* what a hull algorithm returns that closes the loop, or doesn't *)
IsHull(P, h) == IF Spanning(P) THEN IsHullLoop(P, h) ELSE IsFlatHull(P, h)
IsHullNoLoop(P, h) == IF Spanning(P) THEN IsOpenHull(P, h) ELSE IsFlatOpen(P, h)

(* the vertices of the hull: the points that are not inside the hull of the others *)
IsExtreme(P, p) ==
    /\ ~(\E a, b \in P \ {p} : OnSegment(a, b, p))
    /\ ~(\E a, b, c \in P \ {p} :
            /\ Orient(a, b, c) = 1 /\ Orient(a, b, p) >= 0
            /\ Orient(b, c, p) >= 0 /\ Orient(c, a, p) >= 0)
HullVertices(P) == {p \in P : IsExtreme(P, p)}

(* containment in the closed/open region bounded by a hull loop *)
InsideInclusive(h, p) == \A i \in 1..Len(h) - 1 : Orient(h[i], h[i + 1], p) >= 0
(* the same for any loop a hull algorithm can return: <<a, a>> is a point, <<a, b, a>> is a segment *)
OnPart(a, b, p) == /\ Orient(a, b, p) = 0
                    /\ (p[1] - a[1]) * (p[1] - b[1]) + (p[2] - a[2]) * (p[2] - b[2]) <= 0
InLoop(h, p) == IF Len(h) > 3 THEN InsideInclusive(h, p) ELSE OnPart(h[1], h[Len(h) - 1], p)
InsideExclusive(h, p) == \A i \in 1..Len(h) - 1 : Orient(h[i], h[i + 1], p) = 1

(* index of the lowest x (then lowest y) point, the first one if there are duplicates *)
RECURSIVE LowestFrom(_, _, _)
LowestFrom(s, i, best) ==
    IF i > Len(s) THEN best
    ELSE LowestFrom(s, i + 1, IF LexLess(s[i], s[best]) THEN i ELSE best)
Lowest(s) == LowestFrom(s, 1, 1)
=============================================================================
