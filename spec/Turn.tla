-------------------------------- MODULE Turn --------------------------------
(***************************************************************************)
(* A walk of three points over the grid, and on which side of its first    *)
(* part it ends: the facts about orientation everything else relies on.    *)
(***************************************************************************)
EXTENDS Geo, TLC, Json

CONSTANTS W, H
VARIABLES walk
Init == walk = <<>>
Step == Len(walk) < 3 /\ \E q \in Grid(W, H) : walk' = Append(walk, q)
Spec == Init /\ [][Step]_walk

Whole == Len(walk) = 3
a == walk[1]
b == walk[2]
c == walk[3]
Cyclic == Whole => Cross(a, b, c) = Cross(b, c, a) /\ Cross(a, b, c) = Cross(c, a, b)
Antisymmetric == Whole => Cross(a, b, c) = 0 - Cross(b, a, c) /\ Cross(a, b, c) = 0 - Cross(a, c, b)
(* zero exactly if one of the three is between the others *)
Straight == Whole => (Orient(a, b, c) = 0 <=> (OnSegment(a, b, c) \/ OnSegment(b, c, a) \/ OnSegment(c, a, b)))
Moved(p) == <<p[1] + 7, p[2] - 3>>
Turned(p) == <<0 - p[2], p[1]>>
Mirrored(p) == <<p[2], p[1]>>
Invariant == Whole =>
    /\ Cross(Moved(a), Moved(b), Moved(c)) = Cross(a, b, c)
    /\ Cross(Turned(a), Turned(b), Turned(c)) = Cross(a, b, c)
    /\ Cross(Mirrored(a), Mirrored(b), Mirrored(c)) = 0 - Cross(a, b, c)
(* the triangles over the sides of a triangle, seen from anywhere, make up the triangle *)
Additive == Whole => \A p \in Grid(W, H) :
    Cross(a, b, c) = Cross(p, a, b) + Cross(p, b, c) + Cross(p, c, a)
Emit == Whole => PrintT("CASE " \o ToJson([a |-> a, b |-> b, c |-> c]))
=============================================================================
