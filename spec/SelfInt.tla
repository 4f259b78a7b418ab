------------------------------- MODULE SelfInt -------------------------------
(***************************************************************************)
(* is_self_intersecting() on short polylines: every pair of edges is       *)
(* looked at; two consecutive edges may only share the point between them, *)
(* any other two only a point that is an end point of both.  The polyline  *)
(* is built point by point; it may stay where it is, fold back and close.  *)
(***************************************************************************)
EXTENDS Crossings, TLC, Json

CONSTANTS W, H, N
VARIABLES pts, i, j, found, pc
vars == <<pts, i, j, found, pc>>

Init == pts = <<>> /\ i = 1 /\ j = 2 /\ found = FALSE /\ pc = "build"
AddPoint == /\ pc = "build" /\ Len(pts) < N
            /\ \E q \in Grid(W, H) : pts' = Append(pts, q)
            /\ UNCHANGED <<i, j, found, pc>>
Ask == /\ pc = "build" /\ pc' = "pairs" /\ UNCHANGED <<pts, i, j, found>>

Edges == Max(Len(pts) - 1, 0)
(* two consecutive edges: folded back onto each other *)
Folded(k) ==
    LET u == Sub(pts[k + 1], pts[k])
        v == Sub(pts[k + 1], pts[k + 2])
    IN Perp(u, v) = 0 /\ Dot2(u, v) > 0
Meets(k, l) ==
    LET c == Classify(pts[k], pts[k + 1], pts[l], pts[l + 1])
    IN \/ c.kind = "overlap"
       \/ c.kind = "point" /\ ~(IsEnd(<<pts[k], pts[k + 1]>>, c.p) /\ IsEnd(<<pts[l], pts[l + 1]>>, c.p))
Pair == /\ pc = "pairs" /\ i < Edges
        /\ LET hit == IF j = i + 1 THEN Folded(i) ELSE Meets(i, j)
           IN /\ found' = hit
              /\ pc' = IF hit THEN "done" ELSE "pairs"
              /\ IF j < Edges THEN j' = j + 1 /\ i' = i ELSE i' = i + 1 /\ j' = i + 2
        /\ UNCHANGED pts
Finish == /\ pc = "pairs" /\ i >= Edges /\ pc' = "done" /\ UNCHANGED <<pts, i, j, found>>
Next == AddPoint \/ Ask \/ Pair \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Ask \/ Pair \/ Finish)

(* the polyline without the points that repeat the one before *)
Moving(P) ==
    LET K == {k \in 1..Len(P) : k = 1 \/ P[k] # P[k - 1]}
        RECURSIVE At(_)
        At(k) == IF k > Len(P) THEN <<>> ELSE (IF k \in K THEN <<P[k]>> ELSE <<>>) \o At(k + 1)
    IN  At(1)
Lines(P) == [k \in 1..Len(P) - 1 |-> <<P[k], P[k + 1]>>]

Exact == pc = "done" => found = SelfIntersecting(Moving(pts))
(* what the sweep finds when it ignores common end points is the same thing:
   the answer can't depend on which of the two ways is taken *)
SameAsSweep == (pc = "done" /\ Len(pts) > 2) =>
    (SelfIntersecting(Moving(pts)) <=> Expected(Lines(Moving(pts)), TRUE) # {})
(* walking the other way around changes nothing *)
Reversible == pc = "done" => SelfIntersecting(Moving(pts)) = SelfIntersecting(Moving(Rev(pts)))
(* a longer polyline does not become free of intersections again *)
Monotone == [][(pc = "build" /\ pc' = "build" /\ SelfIntersecting(Moving(pts))) => SelfIntersecting(Moving(pts'))]_vars
Terminates == <>(pc = "done")
Emit == pc = "done" => PrintT("CASE " \o ToJson([pts |-> pts]))
=============================================================================
