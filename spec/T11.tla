--------------------------------- MODULE T11 ---------------------------------
(***************************************************************************)
(* Trace specification for LineString3::simplify_vw (see T10).             *)
(***************************************************************************)
EXTENDS VwCore, TraceIO
VARIABLES i, alive, deleted, pc
vars == <<i, alive, deleted, pc>>
r == Trace[i]

Init == /\ i \in 1..NTrace /\ pc = "run" /\ deleted = 0
        /\ alive = IF Len(r.pts) > 2 THEN Inner3(r.pts) ELSE {}
Done == alive = {} \/ deleted >= r.del
Delete == /\ pc = "run" /\ r.st = "ok" /\ Len(r.pts) > 2 /\ ~Done
          /\ \E k \in Smallest(Area3, r.pts, alive, Len(r.pts)) : alive' = alive \ {k}
          /\ deleted' = deleted + 1
          /\ UNCHANGED <<i, pc>>
Return == /\ pc = "run" /\ r.st = "ok"
          /\ Holds(IF Len(r.pts) <= 2 THEN r.out = r.pts ELSE Done /\ r.out = Out3(r.pts, alive))
          /\ Matched(i)
          /\ pc' = "done" /\ UNCHANGED <<i, alive, deleted>>
(* the last vertex got lost *)
ReturnKnown == /\ pc = "run" /\ r.st = "ok" /\ Len(r.pts) > 2
               /\ Holds(Done /\ r.out = Out3Known(r.pts, alive))
               /\ MatchedKnown(i)
               /\ pc' = "known" /\ UNCHANGED <<i, alive, deleted>>
Spec == Init /\ [][Delete \/ Return \/ ReturnKnown]_vars
=============================================================================
