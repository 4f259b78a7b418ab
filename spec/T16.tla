--------------------------------- MODULE T16 ---------------------------------
(***************************************************************************)
(* Trace specification for planes: projections, and detecting a plane.     *)
(***************************************************************************)
EXTENDS Planes, TraceIO
VARIABLES i, pc
vars == <<i, pc>>

All(s, F(_)) == [k \in 1..Len(s) |-> F(s[k])]
(* points of the ends of consecutive segments *)
Ends(s) == IF Len(s) < 2 THEN <<>> ELSE [k \in 1..2 * (Len(s) - 1) |-> s[(k + 2) \div 2]]

Proj(r) ==
    LET L2(p) == To2(r.plane, p)
        L3(p) == To3(r.plane, p)
        Q2(p) == P2(r.plane, p)
        Q3(p) == P3(r.plane, p)
    IN /\ r.to2 = All(r.pts, L2) /\ r.to3 = All(r.pts2, L3)
       /\ r.pt2 = All(r.pts, Q2) /\ r.pt3 = All(r.pts2, Q3)
       \* there and back again
       /\ r.back = r.pts2
       /\ r.line2 = All(Ends(r.pts), Q2) /\ r.line3 = All(Ends(r.pts2), Q3)

Detect(r) == r.exact = ExactPlane(r.pts) /\ r.relaxed = RelaxedPlane(r.pts, r.eps)

Accept(r) == /\ r.st = "ok"
             /\ IF r.k = "proj" THEN Proj(r) ELSE Detect(r)

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
