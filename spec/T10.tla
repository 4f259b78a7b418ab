--------------------------------- MODULE T10 ---------------------------------
(***************************************************************************)
(* Trace specification for LineString2::simplify_vw. A trace gives the     *)
(* polyline, the number of points to delete and the result; TLC searches   *)
(* the behaviours of the algorithm (any order among equal triangles) for   *)
(* one that ends in that result.                                           *)
(***************************************************************************)
EXTENDS VwCore, TraceIO
VARIABLES i, alive, deleted, pc
vars == <<i, alive, deleted, pc>>
r == Trace[i]

Init == /\ i \in 1..NTrace /\ pc = "run" /\ deleted = 0
        /\ alive = IF Len(r.pts) > 2 THEN Inner2(r.pts) ELSE {}
Done == Stop2(alive) \/ deleted >= r.del
Delete == /\ pc = "run" /\ r.st = "ok" /\ Len(r.pts) > 2 /\ ~Done
          /\ \E k \in Smallest(Area2, r.pts, alive, End2(r.pts)) : alive' = alive \ {k}
          /\ deleted' = deleted + 1
          /\ UNCHANGED <<i, pc>>
Return == /\ pc = "run" /\ r.st = "ok"
          /\ Holds(IF Len(r.pts) <= 2 THEN r.out = r.pts ELSE Done /\ r.out = Out2(r.pts, alive))
          /\ Matched(i)
          /\ pc' = "done" /\ UNCHANGED <<i, alive, deleted>>
Spec == Init /\ [][Delete \/ Return]_vars
=============================================================================
