--------------------------------- MODULE T02 ---------------------------------
(* Trace specification for is_self_intersecting(). *)
EXTENDS Crossings, TraceIO
VARIABLES i, pc
vars == <<i, pc>>

(* the polyline without the points that repeat the one before *)
Moving(P) ==
    LET K == {k \in 1..Len(P) : k = 1 \/ P[k] # P[k - 1]}
        RECURSIVE At(_)
        At(k) == IF k > Len(P) THEN <<>> ELSE (IF k \in K THEN <<P[k]>> ELSE <<>>) \o At(k + 1)
    IN  At(1)

Accept(r) == r.st = "ok" /\ r.r = (Len(r.pts) > 2 /\ SelfIntersecting(Moving(r.pts)))

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
